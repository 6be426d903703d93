#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "contract-based deductive verification: verification conditions generated from the LLVM IR of the real code on every run, discharged per function by z3 / kissat / cvc5 against machine-checked pre/postconditions"
P = []
def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=("return values of the public functions",), state=(), level="proof", note="", tech=TECH, na=None):
    P.append(dict(id=id, title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=list(over), observe=list(observe), state=list(state), level=level, note=note, tech=tech, na=na))
I = "include/ccmath/"
NOTE = "proof of every obligation generated from the current source; trusted: clang front end and lowering passes, the VC generator, the solvers, the contracts assumed on compiler builtins/libm (listed in the evidence file)"
TYP = "every bit pattern of float, double and x87 long double (NaNs, infinities, zeros, subnormals), every rounding mode where the mode matters, at run time and in constant evaluation, on the GCC and the Clang code path"
exec(open(os.path.join(V, "tools", "props.py")).read())
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            for x in p["files"] + [w for _, w in p["mech"]]: assert os.path.exists("/repo/" + x), x
            d = dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                     anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']], observe_at=p['observe'], state=p['state'], hook_needed=None))
            f.write(json.dumps(d) + "\n")
    m = dict(version=1, setup_cmd="python3 check.py --selftest", checks=[], not_applicable=[])
    for p in P:
        if p['na']: m['not_applicable'].append(dict(property=p['id'], reason=p['na'])); continue
        m['checks'].append(dict(property=p['id'], quick_cmd="python3 check.py %s --tier quick" % p['id'], thorough_cmd="python3 check.py %s --tier thorough" % p['id'], technique=p['tech'], level=p['level'], level_note=p['note'] or NOTE))
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(m['checks']), "checks")
main()
