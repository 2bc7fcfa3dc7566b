#!/usr/bin/env python3
"""dev aid: try source edits in a scratch copy and show what the checks say.
usage: mut.py FILE.py [expect]   FILE defines M = [(check, file, old, new[, count-index]), ...]"""
import os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/mutwt'
from concurrent.futures import ThreadPoolExecutor
spec = {}; exec(open(sys.argv[1]).read(), spec)


def one(j):
    n, e = j
    chk, f, old, new = e[:4]; ok = chk.endswith(':ok'); chk = chk.replace(':ok', '')
    wt = '%s%d' % (WT, n)
    shutil.rmtree(wt, ignore_errors=True); os.makedirs(wt)
    subprocess.run('git -C /repo archive HEAD | tar x -C ' + wt, shell=True, check=True)
    edits = [(f, old, new)] if isinstance(f, str) else f
    try:
        for ff, o, nw in edits:
            s = open(wt + '/' + ff).read()
            if o not in s: return n, e, 'OLD TEXT NOT FOUND in ' + ff
            s = s.replace(o, nw) if len(e) > 4 and e[4] == 'all' else s.replace(o, nw, 1)
            open(wt + '/' + ff, 'w').write(s)
        r = subprocess.run(['python3', V + '/check.py', chk], capture_output=True, text=True, cwd=V, env=dict(os.environ, VERIF_REPO=wt))
        good = (r.returncode == 0) == ok if r.returncode in (0, 1) else False
        out = r.stdout.splitlines()
        return n, e, '%s rc=%d %s' % ('ok ' if good else '**UNEXPECTED**', r.returncode, (out[0][:230] if out else '') if good else (r.stdout + r.stderr)[-300:].strip())
    finally: shutil.rmtree(wt, ignore_errors=True)


with ThreadPoolExecutor(6) as ex:
    for n, e, r in ex.map(one, enumerate(spec['M'])):
        print('[%d] %s %s' % (n, e[0], r) if r.startswith('ok') else '[%d] %s: %s => %s %s' % (n, e[0], repr(e[2])[:70], repr(e[3])[:90], r), flush=True)
