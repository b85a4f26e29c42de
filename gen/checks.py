#!/usr/bin/env python3
import importlib, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.realpath(__file__)))
try:
    importlib.import_module(sys.argv[1].lower()).main()
except Exception:
    # neither held nor violated: the check itself failed
    traceback.print_exc()
    sys.exit(2)
