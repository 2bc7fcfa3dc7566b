"""Builds the analysed program: configures /repo's current working tree with its own
CMakeLists (in a scratch folder), compiles every translation unit of the library (plus
the template witnesses of /verif/witness) to LLVM bitcode with clang, and dumps the
inlined root views with irx.  No code of the repository is executed."""
import re, hashlib, json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.path.abspath(os.environ.get('VERIF_REPO', '/repo'))
LLVM = '/usr/lib/llvm-18'


class AnalysisError(Exception):
    """The analysis itself could not be carried out (never a verdict)."""


def build_irx():
    bdir = os.path.join(VERIF, 'build')
    os.makedirs(bdir, exist_ok=True)
    src = os.path.join(HERE, 'irx.cpp')
    h = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
    exe = os.path.join(bdir, 'irx-' + h)
    if os.path.exists(exe):
        return exe
    tmp = exe + '.%d' % os.getpid()
    cmd = ['clang++', '-O1', '-std=c++17', '-fno-rtti', '-fno-exceptions', '-w',
           '-I' + LLVM + '/include', '-D__STDC_CONSTANT_MACROS', '-D__STDC_FORMAT_MACROS',
           '-D__STDC_LIMIT_MACROS', src, '-o', tmp, '-L' + LLVM + '/lib', '-lLLVM-18']
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise AnalysisError('building irx failed:\n' + p.stderr)
    os.replace(tmp, exe)
    for f in os.listdir(bdir):
        if f.startswith('irx-') and f != os.path.basename(exe) and '.' not in f:
            os.unlink(os.path.join(bdir, f))
    return exe


def _clang_cmd(entry, extra):
    toks = entry['command'].split(' -MD ')[0].split()[1:]
    keep = []
    for t in toks:
        if t.startswith(('-D', '-I', '-isystem', '-std', '-f', '-U')) or t.startswith('/'):
            keep.append(t)
    return ['clang++'] + keep + extra


def compile_all(scratch, want_witness=True):
    cfg = os.path.join(scratch, 'cfg')
    p = subprocess.run(['cmake', '-S', REPO, '-B', cfg, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug',
                        '-DBUILD_TESTS=OFF', '-DCMAKE_CXX_FLAGS=-Wno-error'],
                       capture_output=True, text=True,
                       env=dict(os.environ, CC='/usr/bin/gcc', CXX='/usr/bin/g++'))
    if p.returncode:
        raise AnalysisError('cmake configure failed:\n' + p.stdout + p.stderr)
    p = subprocess.run(['ninja', '-C', cfg, '-t', 'compdb'], capture_output=True, text=True)
    db = [e for e in json.loads(p.stdout) if e['file'].endswith('.cpp')]
    seen, jobs = set(), []
    gccinc = ['-idirafter', os.path.join(HERE, 'include')]
    flags = ['-w', '-g', '-O1', '-funroll-loops', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c'] + gccinc
    base = None
    for e in db:
        f = os.path.realpath(os.path.join(e['directory'], e['file']))
        if f in seen or not f.startswith(os.path.realpath(REPO) + '/src/'):
            continue
        seen.add(f)
        o = os.path.join(scratch, 'bc', os.path.relpath(f, REPO).replace('/', '_') + '.bc')
        jobs.append((f, o, _clang_cmd(e, flags) + ['-o', o, f]))
        base = _clang_cmd(e, flags)
    if len(jobs) < 40:
        raise AnalysisError('only %d translation units found' % len(jobs))
    wit = os.path.join(VERIF, 'witness')
    wbase = [t for t in base]
    for w in want_witness:
        p = os.path.join(wit, w + '.cpp')
        src = open(p).read()
        m = re.search(r'^// variants: (.*)$', src, re.M)
        for v in (m.group(1).split() if m else ['']):
            o = os.path.join(scratch, 'bc', 'witness_%s_%s.bc' % (w, v))
            fl = re.search(r'^// flags: (.*)$', src, re.M)
            jobs.append((p + (':' + v if v else ''), o, wbase + (fl.group(1).split() if fl else []) + (['-DW_' + v] if v else []) + ['-o', o, p]))
    os.makedirs(os.path.join(scratch, 'bc'), exist_ok=True)

    def run(j):
        q = subprocess.run(j[2], capture_output=True, text=True)
        return j[0], j[1], q.returncode, q.stderr
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(run, jobs))
    return res, wbase


def extract(irx_args=(), tag='views', witness=()):
    """-> (path of jsonl, scratch to remove, dict with unit info)"""
    exe = build_irx()
    cache = os.environ.get('VERIF_DEVCACHE')
    key = None
    if cache:
        h = hashlib.sha256()
        for root in (os.path.join(REPO, 'src'), os.path.join(REPO, 'include'), os.path.join(VERIF, 'witness'), HERE):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith(('.cpp', '.h', '.tcc', '.txt', '.in')):
                        h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
        h.update(REPO.encode()); h.update(repr((tuple(irx_args), tag, tuple(witness))).encode()); h.update(exe.encode())
        key = os.path.join(cache, h.hexdigest()[:24])
        if os.path.exists(key + '.jsonl'):
            return key + '.jsonl', None, json.load(open(key + '.meta'))
    scratch = tempfile.mkdtemp(prefix='softlib-sa-')
    try:
        res, _ = compile_all(scratch, witness)
        bad = [r for r in res if r[2]]
        meta = {'units': [os.path.relpath(r[0], REPO) if r[0].startswith(REPO) else r[0] for r in res if not r[2]],
                'failed': [[r[0], r[3][-4000:]] for r in bad]}
        libbad = [b for b in bad if b[0].startswith(os.path.realpath(REPO))]
        if libbad:
            raise AnalysisError('clang could not compile:\n' + '\n'.join(b[0] + '\n' + b[3][-2000:] for b in libbad))
        out = os.path.join(scratch, tag + '.jsonl')
        cmd = [exe, '--repo', os.path.realpath(REPO) + '/', '--repo', os.path.join(VERIF, 'witness') + '/', '-o', out] + list(irx_args) + \
              [r[1] for r in res if not r[2]]
        p = subprocess.run(cmd, capture_output=True, text=True)
        if p.returncode:
            raise AnalysisError('irx failed:\n' + p.stderr[-4000:])
        if key:
            os.makedirs(cache, exist_ok=True)
            shutil.copy(out, key + '.jsonl'); json.dump(meta, open(key + '.meta', 'w'))
        return out, scratch, meta
    except BaseException:
        shutil.rmtree(scratch, ignore_errors=True)
        raise
