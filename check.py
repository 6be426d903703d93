#!/usr/bin/env python3
import os, sys
here = os.path.dirname(os.path.abspath(__file__))
PY = "/opt/veriftools/pyvenv/bin/python3"
if not sys.prefix.startswith("/opt/veriftools") and os.path.exists(PY):
    os.execv(PY, [PY, os.path.abspath(__file__)] + sys.argv[1:])
sys.path[:0] = [os.path.join(here, "engine"), here]
sys.setrecursionlimit(100000)
sys.dont_write_bytecode = True
import runner
sys.exit(runner.main(sys.argv))
