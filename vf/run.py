#!/usr/bin/env python3-vt
"""usage: run.py P01 [--tier quick|thorough] [--seed N] [--n N] [--replay FILE] [--case I] [-v]"""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
for v in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS', 'MKL_NUM_THREADS'): os.environ[v] = '1'
os.environ.setdefault('TMPDIR', '/tmp')
import pbt
if __name__ == '__main__':
    mod = importlib.import_module('checks.' + sys.argv[1].lower())
    sys.stdout.flush()
    sys.exit(pbt.main(mod.CHECK))
