#!/usr/bin/env python3
"""dev aid: print a view.  show.py REGEX [suf]"""
import os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'rules')]
import extract, ir
args = sys.argv[2:]
p, s, meta = extract.extract(tuple(args))
m = ir.Module(p, extract.REPO)
for f in m.find(sys.argv[1]):
    print('==', f.dem, f.suf, f.cls, f.sig, [a.get('name') for a in f.args])
    for b, B in f.blocks.items():
        print(' b%d <- %s' % (b, B.preds))
        for i in B.insts:
            d = {k: v for k, v in i.d.items() if k not in ('i', 'op', 'ty', 'o', 'l', 'lf', 'fn', 'aty', 'callee')}
            ops = ['%%%d' % o if isinstance(o, int) else (o['k'] + str(o.get('v', '')) + ('+%d' % o['o'] if o.get('o') else '')) for o in i.ops]
            print('   %%%d = %s %s %s %s %s  @%d' % (i.id, i.op, i.ty, m.dem(i.callee)[:90] if i.callee else '', ', '.join(ops), d or '', i.line))
if s:
    import shutil; shutil.rmtree(s)
