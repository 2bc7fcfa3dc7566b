#!/usr/bin/env python3
"""Plant a bug in a scratch copy, confirm it (builds, stable tests pass, demo 0 clean / nonzero patched) and keep it
as seeded/<id>/.  usage: seed.py SPEC.py [check ids...]
SPEC defines: id, prop, edits=[(file, old, new)], demo (C++ source), needs, breaks [, sh (extra demo.sh text)]
--recheck: only run checks against kept bugs:  seed.py --recheck [ID...]
"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = '/tmp/seedwt'
STABLE = json.load(open('/opt/vp/BASELINE.json'))['stable']
DEMO = r'''#!/bin/bash
# exit 0: behaviour as promised; nonzero: broken.  Run in the repository root after the build.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 9; trap 'rm -rf "$T"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -std=gnu++17 -fopenmp -w -g -DHAS_LIBPNG -I include -I _build/include -I/usr/include/hdf5/serial %s "$D/demo.cpp" _build/src/libsoftlib.a \
  -Wl,-rpath,$L/hdf5/serial $L/hdf5/serial/libhdf5_cpp.so $L/hdf5/serial/libhdf5.so -lgsl -lgslcblas -lpng -lz -lm -lpthread -o "$T/demo" || exit 8
cd "$T" && timeout -k 5 100 ./demo
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def sync():
    """scratch copy equal to /repo HEAD"""
    if not os.path.isdir(WT):
        os.makedirs(WT)
        sh('git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=x -c user.email=x commit -qm base' % (WT, WT))
        r = sh('cmake -S %s -B %s/_build -G Ninja -DCMAKE_BUILD_TYPE=Debug -DBUILD_TESTS=ON -DCMAKE_CXX_FLAGS=-Wno-error' % (WT, WT))
        open(WT + '/.git/info/exclude', 'a').write('_build\n')
    else:
        sh('rm -rf /tmp/seedsrc; mkdir /tmp/seedsrc; git -C /repo archive HEAD | tar x -C /tmp/seedsrc; rsync -rc --exclude=.git --exclude=_build /tmp/seedsrc/ %s/ || cp -r /tmp/seedsrc/. %s/; rm -rf /tmp/seedsrc' % (WT, WT))
        sh('cd %s && git add -A && git -c user.name=x -c user.email=x commit -qm sync' % WT)
    build()


def build():
    r = sh('ninja -C %s/_build' % WT)
    return r.returncode == 0, r.stdout[-3000:]


def tests():
    bad = []
    for t in STABLE:
        d = WT + '/_build/run/' + t; shutil.rmtree(d, ignore_errors=True); os.makedirs(d + '/cwd')
        os.symlink(WT + '/tests', d + '/tests')
        r = sh('timeout 120 %s/_build/tests/softlib_tests %s' % (WT, t), cwd=d + '/cwd')
        if r.returncode or ("Test '%s' completed successfully" % t) not in r.stdout + r.stderr: bad.append(t)
    return bad


def demo(d):
    r = sh('timeout 300 bash %s/demo.sh' % d, cwd=WT)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def checks(ids):
    out = {}
    for c in ids:
        r = sh('python3 %s/check.py %s' % (V, c), cwd=V, env=dict(os.environ, VERIF_REPO=WT))
        out[c] = (r.returncode, (r.stdout + r.stderr)[-1500:])
    return out


def main():
    a = sys.argv[1:]
    if a and a[0] == '--recheck':
        sync(); ids = a[1:] or sorted(os.listdir(V + '/seeded'))
        for i in ids:
            d = V + '/seeded/' + i; meta = json.load(open(d + '/meta.json'))
            if sh('git -C %s apply %s/patch.diff' % (WT, d)).returncode: print(i, 'DOES NOT APPLY'); continue
            r = checks([meta['property']])[meta['property']]
            print(i, meta['property'], {0: 'MISSED', 1: 'caught', 2: 'BROKEN'}.get(r[0]), r[1].splitlines()[0][:150] if r[0] == 1 else r[1][-300:] if r[0] == 2 else '', flush=True)
            sh('git -C %s checkout -- .' % WT)
        return
    spec = {}; exec(open(a[0]).read(), spec)
    sync()
    ed = []
    for f, o, n in spec['edits']:
        s = open(WT + '/' + f).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(WT + '/' + f, 'w').write(s.replace(o, n))
    diff = subprocess.run(['git', '-C', WT, 'diff'], capture_output=True, text=True).stdout
    d = V + '/seeded/' + spec['id']
    tmp = '/tmp/seedtmp-' + spec['id']; shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
    open(tmp + '/patch.diff', 'w').write(diff)
    open(tmp + '/demo.sh', 'w').write(DEMO % spec.get('flags', ''))
    open(tmp + '/demo.cpp', 'w').write(spec['demo'])
    json.dump({'property': spec['prop'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(tmp + '/meta.json', 'w'), indent=1)
    try:
        ok, log = build()
        if not ok: print('BUILD FAILED', log); return 1
        bad = tests()
        if bad: print('TESTS FAIL', bad); return 1
        rc, out = demo(tmp); print('demo patched:', rc, out)
        if rc in (0, 8): return 1
        for c, (r, o) in checks([spec['prop']] + a[1:]).items(): print('check', c, r, o)
    finally:
        sh('git -C %s checkout -- .' % WT); build()
    rc, out = demo(tmp); print('demo clean:', rc, out)
    if rc: return 1
    shutil.rmtree(d, ignore_errors=True); shutil.move(tmp, d); print('kept', d)


sys.exit(main())
