#!/usr/bin/env python3
"""replay.py DIR: rebuild the harness of a saved violation natively (gcc, ASan) against the current /repo and run it on the saved inputs"""
import json, os, shutil, sys, tempfile
sys.dont_write_bytecode = True
import run, checks
d = os.path.abspath(sys.argv[1])
v = json.load(open(os.path.join(d, 'violation.json')))
pid = os.path.basename(d).split('-')[0]
job = [j for t in ('quick', 'thorough') for j in checks.CHECKS[pid].jobs(t) if j.name == v['job']][0]
tmp = tempfile.mkdtemp(prefix='vf-replay-')
try:
    ctx = run.Context(tmp)
    if job.gen:
        job.gen(ctx)
    verdict, text = run.native(ctx, job, v['defs'], v['inputs'], timeout=job.hang)
finally:
    shutil.rmtree(tmp, ignore_errors=True)
print(verdict)
print(text)
sys.exit(0 if verdict == 'ok' else 1)
