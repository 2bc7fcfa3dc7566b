"""C07: failures to open or find something surface as library exceptions."""
import re
from absint import AbsInt, fmt
import h5

BASE = 'SOFTLibException'
READ2 = ['GetDoubles', 'GetInt32_2D', 'GetInt64_2D', 'GetUInt32_2D', 'GetUInt64_2D']
READ1 = ['GetDoubles1D', 'GetInt32_1D', 'GetInt64_1D', 'GetUInt32_1D', 'GetUInt64_1D']
GENERIC = ['GetList', 'GetIntArray', 'GetIntList', 'GetInt', 'GetScalar', 'GetInt32', 'GetInt64', 'GetUInt32', 'GetUInt64']
VARS = READ2 + READ1 + ['GetString', 'GetMultiArray_linear'] + GENERIC
ATTR = ['GetAttributeScalar', 'GetAttributeString']


class Fault:
    """which library operations fail, and how the failure shows"""
    def __init__(self, dataset=False, attribute=False, open=False, kind=None):
        self.kind = kind
        self.dataset, self.attribute, self.open = dataset, attribute, open
        self.hits = []; self.exc = False

    def throws(self, inst, dem, args, mem, ai):
        def hit(T): self.hits.append(inst); return ({T}, False)
        if self.dataset and re.search(r'H5::\w+::(openDataSet|openGroup)\(', dem): return hit('H5::FileIException')
        if self.dataset and re.search(r'H5::DataSet::DataSet\(H5::H5(Object|Location)', dem): return hit('H5::DataSetIException')
        if self.attribute and re.search(r'H5::\w+::openAttribute\(', dem): return hit('H5::AttributeIException')
        if self.open and self.kind != 'c' and re.search(r'H5::H5File::(H5File\((char const\*|std::)|openFile\()', dem): return hit('H5::FileIException')
        if self.dataset and re.search(r'(map|unordered_map)<.*>::at\(', dem): return hit('std::out_of_range')
        return None

    def call(self, inst, dem, args, mem, ai):
        I = lambda v: frozenset([('i', v)])
        c = inst.callee or ''
        if self.dataset:
            if re.search(r'::(nameExists|exists)\(', dem) and 'H5::' in dem or c in ('H5Lexists', 'H5Oexists_by_name'): self.hits.append(inst); return I(0)
            if c in ('H5Dopen2', 'H5Dopen1', 'H5Dopen', 'H5Oopen'): self.hits.append(inst); return I(-1)
            m = re.search(r'(map|unordered_map)<.*>::(\w+)\(', dem)
            if m and m.group(2) in ('find', 'lower_bound', 'equal_range'): self.hits.append(inst); return frozenset([('mapend',)])
            if m and m.group(2) in ('end', 'cend'): return frozenset([('mapend',)])
            if m and m.group(2) in ('count', 'contains'): self.hits.append(inst); return I(0)
            if re.search(r'(bool )?std::operator(==|!=)\(.*_iterator<', dem) and len(args) == 2:
                va = frozenset().union(*[ai.load(mem, t, 'ptr') for t in args[0]]); vb = frozenset().union(*[ai.load(mem, t, 'ptr') for t in args[1]])
                if va == vb == frozenset([('mapend',)]): return I(-1 if '==' in dem else 0)
        if self.attribute and (re.search(r'::attrExists\(', dem) or c in ('H5Aexists', 'H5Aexists_by_name')): self.hits.append(inst); return I(0)
        if self.open and self.kind != 'h5':
            if re.search(r'std::basic_[io]?fstream<.*>::(open\(|basic_[io]?fstream\((char const\*|std::__cxx11))', dem): self.hits.append(inst)
            if re.search(r'std::basic_ios<.*>::exceptions\(std', dem): self.exc = True
            if re.search(r'std::basic_[io]*f?(stream|filebuf)<.*>::is_open\(\)', dem): self.hits.append(inst); return I(0)
            if re.search(r'std::basic_ios<.*>::(fail|bad|operator!)\(\)', dem): self.hits.append(inst); return I(1)
            if re.search(r'std::basic_ios<.*>::(good|operator bool)\(\)', dem): self.hits.append(inst); return I(0)
            if c in ('fopen', 'fopen64'): self.hits.append(inst); return frozenset([('null',)])
            if re.search(r'std::basic_filebuf<.*>::open\(', dem): self.hits.append(inst); return frozenset([('null',)])
            if c in ('access', 'stat', 'open'): return I(-1)
        return h5.hook(inst, dem, args, mem, ai)


def analyse(fn, fault, **kw):
    def cmp(pred, a, b):
        if pred in ('eq', 'ne') and ('mapend',) in (a, b):
            if a == b: return pred == 'eq'
        return None
    class A(AbsInt): h5rank = None; h5dims_out = []
    return A(fn, callhook=fault.call, throws=fault.throws, cmp=cmp, **kw)


def judge(ctx, m, key, what, fn, ai, fault, mayreturn=False):
    if ai.diverged: ctx.undecided(key, 'analysis did not converge', fn); return
    rets = [fn.insts[i] for i in ai.rets if fn.insts[i].blk.id in ai.reached]
    esc = [(fn.insts[i], T) for i, T in ai.escapes]
    foreign = [(i, T) for i, T in esc if T != '?' and T != BASE and BASE not in m.allbases(T)]
    unk = [(i, T) for i, T in esc if T == '?']
    for i, T in foreign:
        org = next((h for h in fault.hits), i)
        ctx.bad(key, org.loc(), '%s: %s of the underlying library escapes (raised at %s)' % (what, T, org.loc()), fn)
    if foreign: return
    if not mayreturn and rets:
        if not fault.hits or fault.exc: ctx.undecided(key, 'no operation that can fail was found', fn); return
        # is the return reached because of a virtual call that was not resolved?
        ctx.bad(key, fault.hits[0].loc() if fault.hits else fn.loc(), '%s: returns normally although %s failed' % (what, m.dem(fault.hits[0].callee).split('(')[0].split('::')[-1]), fn)
        return
    if unk: ctx.undecided(key, 'rethrows an unknown exception', fn); return
    if not esc and not rets: ctx.undecided(key, 'no outcome', fn); return
    ctx.ok(key, fn)


def run(ctx):
    ctx.rule('exact exception flow: with the HDF5 call that looks up the dataset/attribute or opens the file assumed to raise its documented exception (or the stream/lookup test to fail), every path of every reader/opener must leave through a SOFTLibException; no return, no foreign exception')
    m = ctx.module('--only', r'SFile')
    n = 0
    for cls in ('SFile_HDF5', 'SFile_MAT', 'SFile_SDT'):
        for short in VARS + ['GetMultiArray']:
            for fn in m.method(cls, short):
                if short.startswith('GetArray') : continue
                f = Fault(dataset=True); ai = analyse(fn, f); n += 1
                judge(ctx, m, '%s.%s:missing' % (cls, short), '%s::%s of a variable that does not exist' % (cls, short), fn, ai, f)
        for short in ATTR:
            for fn in m.method(cls, short):
                f = Fault(dataset=True); ai = analyse(fn, f); n += 1
                judge(ctx, m, '%s.%s:missing-owner' % (cls, short), '%s::%s of a dataset that does not exist' % (cls, short), fn, ai, f)
                if cls == 'SFile_HDF5':
                    f = Fault(attribute=True); ai = analyse(fn, f)
                    judge(ctx, m, '%s.%s:missing' % (cls, short), '%s::%s of an attribute that does not exist' % (cls, short), fn, ai, f)
        for short, want in (('HasVariable', ('i', 0)), ('GetDataType', None)):
            for fn in m.method(cls, short):
                f = Fault(dataset=True); ai = analyse(fn, f); n += 1
                key = '%s.%s:missing' % (cls, short)
                judge(ctx, m, key, '%s::%s of a variable that does not exist' % (cls, short), fn, ai, f, mayreturn=True)
                w = want or ('i', dict(m.enums['SFile::sfile_data_type']['vals'])['SFILE_DATA_UNDEFINED'])
                rt = ai.ret_terms()
                if rt and f.hits and all(t[0] == 'i' for t in rt) and any(t != w and not (short == 'HasVariable' and bool(t[1]) == bool(w[1])) for t in rt):
                    ctx.bad(key + ':value', fn.loc(), '%s::%s answers %s for a variable that does not exist' % (cls, short, sorted(t[1] for t in rt)), fn)
                elif rt == {w}: ctx.ok(key + ':value', fn)
                else: ctx.undecided(key + ':value', str(rt)[:80], fn)
        modes = dict(m.enums['sfile_mode']['vals'])
        for fn in m.method(cls, 'Open'):
            for mn, mv in modes.items():
                f = Fault(open=True); ai = analyse(fn, f, arg_terms={fn.this + 2: ('i', mv)}); n += 1
                judge(ctx, m, '%s.Open(%s)' % (cls, mn), '%s::Open(%s) of a file that cannot be opened' % (cls, mn), fn, ai, f)
                # a file that can be opened by one of the libraries involved but not by the other
                for kind in ('c', 'h5'):
                    f = Fault(open=True, kind=kind); ai = analyse(fn, f, arg_terms={fn.this + 2: ('i', mv)})
                    if not f.hits: continue
                    judge(ctx, m, '%s.Open(%s):%s' % (cls, mn, kind), '%s::Open(%s) when %s fails' % (cls, mn, 'the file stream' if kind == 'c' else 'HDF5'), fn, ai, f)
            f = Fault(); ai = analyse(fn, f, arg_terms={fn.this + 2: ('i', 1 + max(modes.values()))})
            f.hits = [fn.blocks[fn.entry].insts[0]]
            bad = [i for i in ai.rets if fn.insts[i].blk.id in ai.reached]
            if bad: ctx.bad('%s.Open(unknown mode)' % cls, fn.loc(), '%s::Open returns normally for an unknown mode' % cls, fn)
            else: ctx.ok('%s.Open(unknown mode)' % cls, fn)
    n += types(ctx, m)
    ctx.need('failure cases', n, 60)


def types(ctx, m):
    n = 0
    tv = dict(m.enums['sfile_type']['vals'])
    known = {'SFILE_TYPE_HDF5', 'SFILE_TYPE_MATLAB', 'SFILE_TYPE_SDT'}
    for fn in m.method('SFile', 'Create'):
        k = [j for j, a in enumerate(fn.sig[1:]) if 'sfile_type' in a]
        if not k: continue
        for name, v in list(tv.items()) + [('out of range', 1 + max(tv.values()))]:
            if name in known: continue
            key = 'SFile.Create(%s)' % name
            f = Fault(); n += 1
            ai = analyse(fn, f, arg_terms={k[0] + fn.this: ('i', v)})
            rets = [fn.insts[i] for i in ai.rets if fn.insts[i].blk.id in ai.reached]
            if rets: ctx.bad(key, fn.loc(), 'SFile::Create returns normally for file type %s' % name, fn)
            elif all(T == BASE or BASE in m.allbases(T) for _, T in ai.escapes) and ai.escapes: ctx.ok(key, fn)
            else: ctx.undecided(key, str(ai.escapes), fn)
    for fn in m.method('SFile', 'GetFileType'):
        def ch(inst, dem, args, mem, ai):
            if re.search(r'(bool|int) std::operator(==|!=)<char|basic_string<.*>::compare\(', dem): return frozenset([('i', 0 if '==' in dem else 1)])
            return h5.hook(inst, dem, args, mem, ai)
        ai = AbsInt(fn, callhook=ch, eh='catch'); n += 1
        rt = ai.ret_terms(); key = 'SFile.GetFileType(unknown extension)'
        if rt == {('i', tv['SFILE_TYPE_UNKNOWN'])}: ctx.ok(key, fn)
        elif rt and all(t[0] == 'i' for t in rt): ctx.bad(key, fn.loc(), 'SFile::GetFileType gives type %s for an unknown extension' % sorted(t[1] for t in rt), fn)
        else: ctx.undecided(key, str(rt), fn)
    for fn in m.method('SFile', 'TypeOfFile'):
        def ch(inst, dem, args, mem, ai):
            if re.search(r'basic_string<.*>::(find_last_of|rfind|find)\(', dem): return frozenset([('i', -1)])
            return h5.hook(inst, dem, args, mem, ai)
        ai = AbsInt(fn, callhook=ch, eh='catch'); n += 1
        rt = ai.ret_terms(); key = 'SFile.TypeOfFile(no extension)'
        if rt == {('i', tv['SFILE_TYPE_UNKNOWN'])}: ctx.ok(key, fn)
        elif rt and all(t[0] == 'i' for t in rt): ctx.bad(key, fn.loc(), 'SFile::TypeOfFile gives type %s for a name without extension' % sorted(t[1] for t in rt), fn)
        else: ctx.undecided(key, str(rt)[:90], fn)
    return n
