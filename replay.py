#!/usr/bin/env python3
"""Replay a counterexample written by check.py: replay.py FILE"""
import json, os, shutil, sys
import check
d = json.load(open(sys.argv[1]))
os.makedirs(check.WORK, exist_ok=True)
src = os.path.join(check.WORK, 'src')
shutil.rmtree(src, ignore_errors=True)
shutil.copytree(os.path.join(check.HERE, 'harness'), src, ignore=shutil.ignore_patterns('target'))
sched = any(n.startswith('sched_') for n, _, _ in d['inputs'])
for rel in (False, True):
    lib = check.build_native(src, d['features'], 'r', release=rel)
    print('release' if rel else 'dev', check.native(lib, d['harness'], d, 20000 if sched else 1, 60))
