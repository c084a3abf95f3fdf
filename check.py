#!/usr/bin/env python3
"""python3 -B check.py C01 [--tier quick|thorough] [--seed N] [--replay FILE]"""
import argparse, importlib, json, os, sys
sys.dont_write_bytecode = True
if os.environ.get('PYTHONHASHSEED') != '0' or os.environ.get('PYTHONDONTWRITEBYTECODE') != '1':
    os.environ.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    os.execv(sys.executable, [sys.executable, '-B'] + sys.argv)
for k in ('POSIXLY_CORRECT', 'GREP_OPTIONS', 'GREP_COLORS', 'BLOCK_SIZE', 'SIMPLE_BACKUP_SUFFIX', 'VERSION_CONTROL', 'TMPDIR'):
    os.environ.pop(k, None)
os.environ['LC_ALL'] = 'C'
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from pav import core

ap = argparse.ArgumentParser()
ap.add_argument('property')
ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'), choices=['quick', 'thorough'])
ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
ap.add_argument('--replay')
a = ap.parse_args()
try:
    mod = importlib.import_module('pav.' + a.property.lower())
    replay = json.load(open(a.replay))['case'] if a.replay else None
    rc = core.run(a.property, mod, a.tier, a.seed, replay)
except BaseException as e:
    import traceback
    traceback.print_exc()
    rc = 2
sys.stdout.flush()
os._exit(rc)
