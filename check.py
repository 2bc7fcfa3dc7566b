#!/usr/bin/env python3
"""Driver: python3 check.py <ID> [--thorough] | --all | --setup

Exit 0: the property held on everything analysed.  Exit 1: VIOLATION line(s).
Exit 2: the analysis could not be carried out (never a verdict)."""
import importlib, json, os, shutil, sys, time, traceback
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(V, 'engine'), os.path.join(V, 'rules'), os.path.join(V, 'tools')]
import extract
from extract import AnalysisError
import ir


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid; self.tier = tier
        self.obls = []; self.viol = []; self.und = []
        self.funcs = set(); self.notes = []; self.units = []
        self.rules = []
        self._mods = {}; self._scratch = []
        self.failed_units = []

    # -- program
    def module(self, *irx_args, witness=()):
        k = (irx_args, witness)
        if k not in self._mods:
            p, scratch, meta = extract.extract(irx_args, witness=witness)
            if scratch: self._scratch.append(scratch)
            self._mods[k] = ir.Module(p, extract.REPO)
            self.units = sorted(set(self.units) | set(meta['units']))
            self.failed_units = meta['failed']
        return self._mods[k]

    # -- results
    def rule(self, text):
        self.rules.append(text)

    def ok(self, key, fn=None, note=''):
        self.obls.append((key, 'held', note))
        if fn is not None: self.funcs.add(fn.dem + fn.suf)

    def bad(self, key, loc, msg, fn=None):
        self.obls.append((key, 'violated', msg))
        if any(v[0] == key for v in self.viol): return
        self.viol.append((key, loc, msg))
        if fn is not None: self.funcs.add(fn.dem + fn.suf)

    def undecided(self, key, msg, fn=None):
        self.obls.append((key, 'undecided', msg))
        self.und.append((key, msg))
        if fn is not None: self.funcs.add(fn.dem + fn.suf)

    def need(self, what, n, least):
        """vacuity guard: the rule must have found at least this many instances"""
        self.notes.append('%s: %d instances (at least %d expected)' % (what, n, least))
        if n < least:
            raise AnalysisError('%s: only %d instances found, %d expected' % (what, n, least))

    def cleanup(self):
        for s in self._scratch: shutil.rmtree(s, ignore_errors=True)


def known(pid):
    f = os.path.join(V, 'known-findings.json')
    if not os.path.exists(f): return {}
    return {e['key']: e for e in json.load(open(f)).get('findings', []) if e['property'] == pid}


def run(pid, tier):
    t0 = time.time()
    ctx = Ctx(pid, tier)
    try:
        mod = importlib.import_module(pid.lower())
        mod.run(ctx)
    finally:
        ctx.cleanup()
    kf = known(pid)
    new = [v for v in ctx.viol if v[0] not in kf]
    old = [v for v in ctx.viol if v[0] in kf]
    from props import P
    p = [x for x in P if x['id'] == pid][0]
    held = [o for o in ctx.obls if o[1] == 'held']
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
          'coverage': {'explanation': 'Static analysis of the current source (' + p['technique'] + '). Rules: ' + ' | '.join(ctx.rules),
                       'translation_units_analysed': len(ctx.units), 'functions_analysed': len(ctx.funcs), 'functions': sorted(ctx.funcs)[:400],
                       'obligations': len(ctx.obls), 'held': len(held), 'undecided': [list(u) for u in ctx.und][:200],
                       'known_findings_seen': [v[0] for v in old], 'vacuity_guards': ctx.notes,
                       'samples': [list(o) for o in held[:12]]},
          'assumptions': [p['note']], 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    d = os.path.join(V, 'evidence'); os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, pid + '.json'), 'w'), indent=1)
    for k, loc, msg in old:
        print('KNOWN-FINDING: property=%s %s: %s (%s)' % (pid, k, kf[k].get('what', msg), loc))
    if new:
        rd = os.path.join(V, 'reports'); os.makedirs(rd, exist_ok=True)
        rp = os.path.join(rd, pid + '.txt')
        with open(rp, 'w') as fh:
            for k, loc, msg in new: fh.write('%s: [%s] %s\n' % (loc, k, msg))
        for k, loc, msg in new[:20]: print('%s: [%s] %s' % (loc, k, msg))
        print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    print('OK property=%s obligations=%d held=%d undecided=%d functions=%d wall=%.1fs' % (pid, len(ctx.obls), len(held), len(ctx.und), len(ctx.funcs), time.time() - t0))
    return 0


def main():
    a = sys.argv[1:]
    tier = 'thorough' if '--thorough' in a else (os.environ.get('VERIF_TIER') or 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    a = [x for x in a if not x.startswith('--') or x in ('--setup', '--all')]
    try:
        if a and a[0] == '--setup':
            print(extract.build_irx()); return 0
        if a and a[0] == '--all':
            rc = 0
            for f in sorted(os.listdir(os.path.join(V, 'rules'))):
                if f.startswith('c') and f[1:3].isdigit() and f.endswith('.py'):
                    try: rc |= run(f[:-3].upper(), tier)
                    except Exception as e:
                        print('ERROR', f, e); traceback.print_exc(); rc |= 2
            return rc
        return run(a[0], tier)
    except AnalysisError as e:
        print('ANALYSIS-BROKEN: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == '__main__':
    sys.exit(main())
