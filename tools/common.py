"""Shared infrastructure of the checks: building from /repo's working tree, running TLC, evidence, known findings."""
import concurrent.futures, hashlib, json, os, re, shutil, subprocess, sys, time, fcntl, struct, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
LLVM = '/usr/lib/llvm-18'
JOBS = os.cpu_count() or 4
sys.path.insert(0, os.path.join(VERIF, 'tools'))


class CheckError(Exception):
    """error of the machinery itself (neither held nor violated)"""


class BuildFailure(Exception):
    """code of the repository (or code generated by it) does not compile"""


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:24]


def tree_hash(*dirs):
    h = hashlib.sha256()
    for d in dirs:
        for root, ds, fs in os.walk(d):
            ds[:] = sorted(x for x in ds if x not in ('tests', 'testfiles', '.git', '_build'))
            for f in sorted(fs):
                p = os.path.join(root, f)
                if os.path.islink(p): continue
                h.update(os.path.relpath(p, d).encode()); h.update(open(p, 'rb').read())
    return h.hexdigest()[:24]


def lib_hash():
    return tree_hash(os.path.join(REPO, 'lib'))


def run(cmd, **kw):
    kw.setdefault('stdout', subprocess.PIPE); kw.setdefault('stderr', subprocess.STDOUT)
    return subprocess.run(cmd, **kw)


BASE_FLAGS = ['-std=gnu++17', '-w', '-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER', '-DCPP_UTILITIES_USE_STANDARD_FILESYSTEM', '-DREFLECTIVE_RAPIDJSON_STATIC']
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=undefined,float-cast-overflow', '-fno-omit-frame-pointer']


def includes():
    return ['-I' + os.path.join(HARNESS, 'stub'), '-I' + HARNESS, '-I' + os.path.join(REPO, 'lib/include'), '-isystem', '/usr/include/martchus-c++utilities']


class Lock:
    def __init__(self, path): self.path = path
    def __enter__(self):
        os.makedirs(os.path.dirname(self.path), exist_ok=True)
        self.f = open(self.path, 'w'); fcntl.flock(self.f, fcntl.LOCK_EX)
    def __exit__(self, *a):
        self.f.close()


def parallel(fn, items):
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(fn, items))


def compile_objects(sources, outdir, flags, what):
    def one(src):
        obj = os.path.join(outdir, os.path.basename(src) + '.o')
        r = run(['g++'] + flags + ['-c', src, '-o', obj])
        return obj, r
    res = parallel(one, sources)
    for obj, r in res:
        if r.returncode:
            raise BuildFailure('%s does not compile:\n%s' % (what, r.stdout.decode(errors='replace')[-6000:]))
    return [o for o, _ in res]


def cached(key, build):
    """returns a directory filled by build(tmpdir); keyed by content"""
    final = os.path.join(BUILD, key)
    if os.path.exists(os.path.join(final, '.ok')):
        os.utime(final)
        return final
    with Lock(os.path.join(BUILD, 'lock.' + key)):
        if os.path.exists(os.path.join(final, '.ok')): return final
        prune()
        shutil.rmtree(final, ignore_errors=True)
        os.makedirs(final)
        try:
            build(final)
        except BaseException:
            shutil.rmtree(final, ignore_errors=True)
            raise
        open(os.path.join(final, '.ok'), 'w').close()
    return final


def prune(keep=24):
    try:
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if os.path.isdir(d) and os.path.exists(os.path.join(d, '.ok'))), key=os.path.getmtime)
        for d in ds[:-keep]: shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def generator():
    """builds the real code generator from /repo's working tree; returns the path of the executable"""
    gen = os.path.join(REPO, 'generator')
    key = 'gen-' + sha(tree_hash(gen, os.path.join(REPO, 'lib')), open(os.path.join(HARNESS, 'stub/resources/config.h'), 'rb').read())

    def build(d):
        srcs = sorted(os.path.join(gen, f) for f in os.listdir(gen) if f.endswith('.cpp'))
        flags = BASE_FLAGS + ['-O0', '-I' + os.path.join(HARNESS, 'stub'), '-I' + gen, '-I' + os.path.join(REPO, 'lib/include'),
                              '-isystem', '/usr/include/martchus-c++utilities', '-isystem', LLVM + '/include']
        objs = compile_objects(srcs, d, flags, 'the code generator')
        r = run(['g++'] + objs + ['-o', os.path.join(d, 'generator'), '-Wl,-rpath,' + LLVM + '/lib', LLVM + '/lib/libclang-cpp.so.18.1', LLVM + '/lib/libLLVM.so', '-lmartchus-c++utilities'])
        if r.returncode: raise BuildFailure('the code generator does not link:\n' + r.stdout.decode(errors='replace')[-4000:])
        for o in objs: os.unlink(o)
    return os.path.join(cached(key, build), 'generator')


CLANG_OPTS = ['-resource-dir', LLVM + '/lib/clang/18', '-std=c++17', '-w']


def clang_opts(extra=()):
    return CLANG_OPTS + ['-I' + os.path.join(HARNESS, 'stub'), '-I' + HARNESS, '-I' + os.path.join(REPO, 'lib/include'), '-isystem', '/usr/include/martchus-c++utilities',
                         '-DCPP_UTILITIES_USE_NATIVE_FILE_BUFFER', '-DREFLECTIVE_RAPIDJSON_STATIC'] + list(extra)


def run_generator(inp, out, gens=('json',), extra_clang=(), extra_args=(), cwd=None):
    cmd = [generator(), '--input-file', inp, '--output-file', out, '--generators'] + list(gens) + list(extra_args) + ['--clang-opt'] + clang_opts(extra_clang)
    r = run(cmd, cwd=cwd, timeout=300)
    if r.returncode:
        raise BuildFailure('the code generator failed (%d):\n%s' % (r.returncode, r.stdout.decode(errors='replace')[-4000:]))


# ---- running harness programs ------------------------------------------------------------------------------------------
SAN_ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:detect_stack_use_after_return=0', UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1:exitcode=77', TSAN_OPTIONS='halt_on_error=1:exitcode=66:report_thread_leaks=0')


def run_cases(exe, cases, workdir, timeout=600, chunk=None):
    """runs cases (dicts) with the harness; returns list of observations (dict; {'crash':...} when the process died)"""
    os.makedirs(workdir, exist_ok=True)
    n = len(cases)
    if not n: return []
    parts = max(1, min(JOBS, n // 20 or 1))
    bounds = [(i * n // parts, (i + 1) * n // parts) for i in range(parts)]

    def one(b):
        lo, hi = b
        cf, of = os.path.join(workdir, 'cases.%d' % lo), os.path.join(workdir, 'obs.%d' % lo)
        with open(cf, 'w') as f:
            for c in cases[lo:hi]: f.write(json.dumps(c, separators=(',', ':')) + '\n')
        if os.path.exists(of): os.unlink(of)
        res, skip, crashes = {}, 0, 0
        while skip < hi - lo:
            try:
                r = run([exe, cf, of, str(skip)], env=SAN_ENV, timeout=timeout)
                rc, err = r.returncode, r.stdout.decode(errors='replace')
            except subprocess.TimeoutExpired:
                rc, err = 'timeout', 'timeout'
            res = {}
            if os.path.exists(of):
                for line in open(of, 'rb'):
                    try: o = json.loads(line)
                    except ValueError: continue
                    res[o['n']] = o
            for k, v in crashed.items(): res.setdefault(k - lo, v) if lo <= k < hi else None
            if rc == 0: break
            if rc == 3: raise CheckError('harness rejected a case: ' + err[-500:])
            nxt = skip
            while nxt in res: nxt += 1
            m = re.search(r'(AddressSanitizer: [\w-]+|SUMMARY: ThreadSanitizer: [^\n]*|runtime error: [^\n]*|terminate called[^\n]*\n?[^\n]*)', err)
            crashed[lo + nxt] = {'n': nxt, 'crash': '%s %s' % (rc, m.group(1) if m else err[-300:])}
            res[nxt] = crashed[lo + nxt]
            skip = nxt + 1
            crashes += 1
            if crashes > 40: break
        return [res.get(i, {'n': i, 'crash': 'not run'}) for i in range(hi - lo)]
    crashed = {}
    out = []
    for r in parallel(one, bounds): out += r
    return out


# ---- TLC ------------------------------------------------------------------------------------------------------------------
class TlcResult:
    pass


def tlc(module, cfg, workdir, workers=None, timeout=800, extra=(), files=(), env=None, cont=False, heap='6g'):
    """runs TLC on spec/<module>.tla with config text cfg in workdir; returns TlcResult"""
    os.makedirs(workdir, exist_ok=True)
    for f in os.listdir(SPEC):
        if f.endswith('.tla'): shutil.copy(os.path.join(SPEC, f), workdir)
    with open(os.path.join(workdir, module + '.cfg'), 'w') as f: f.write(cfg)
    meta = os.path.join(workdir, 'states')
    shutil.rmtree(meta, ignore_errors=True)
    cp = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
    if not os.path.exists(cp.split(':')[1]): cp = tla_classpath()
    cmd = ['java', '-Djava.io.tmpdir=' + workdir, '-XX:+UseParallelGC', '-Xss64m', '-Xmx' + heap, '-cp', cp, 'tlc2.TLC', '-config', module + '.cfg', '-workers', str(workers or JOBS), '-deadlock', '-noGenerateSpecTE',
           '-metadir', meta, '-lncheck', 'final'] + (['-continue'] if cont else []) + list(extra) + [module + '.tla']
    t0 = time.time()
    try:
        r = run(cmd, cwd=workdir, timeout=timeout, env=dict(os.environ, **(env or {})))
    except subprocess.TimeoutExpired as e:
        raise CheckError('TLC timed out on %s' % module)
    shutil.rmtree(meta, ignore_errors=True)
    res = TlcResult()
    res.out = r.stdout.decode(errors='replace'); res.rc = r.returncode; res.wall = time.time() - t0
    m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', res.out)
    res.generated, res.distinct = (int(m[-1][0].replace(',', '')), int(m[-1][1].replace(',', ''))) if m else (0, 0)
    m = re.search(r'depth of the complete state graph search is (\d+)', res.out)
    res.depth = int(m.group(1)) if m else 0
    res.violated = re.findall(r'(?:Invariant|Action property|Temporal properties|property) ?(\w*) (?:is|was|were) violated', res.out)
    res.ok = 'Model checking completed. No error has been found.' in res.out
    return res


def decide_obs(module, cfg, work, n, timeout):
    """runs an observation acceptance module; returns (indices of rejected observations, TlcResult)

    An observation the specification can not even be evaluated for (e.g. an index which is out of range) is none it allows. TLC stops in this case so it is
    run again for the remaining observations."""
    path, rejected = os.path.join(work, 'obs.ndjson'), set()
    lines = open(path).read().splitlines(True)
    for attempt in range(12):
        r = tlc(module, cfg, work, cont=True, timeout=timeout)
        rej = {int(x) for x in re.findall(r'<<\s*"REJECT",\s*(\d+)', r.out)}
        todo = len(lines)
        if r.generated >= 2 * todo and ('Error:' not in r.out or rej):
            return sorted(k - 1 for k in rej | rejected), r
        m = re.search(r'Evaluating invariant \w+ failed|threw an unexpected exception|StackOverflow', r.out)
        m = re.search(r'\bnum \|-> (\d+)', r.out[m.start():]) if m else None
        if m: rej.add(int(m.group(1)))
        if not rej: break
        rejected |= rej
        lines = [l for l in lines if json.loads(l)['num'] not in rejected]
        with open(path, 'w') as f: f.write(''.join(lines))
        if not lines: return sorted(k - 1 for k in rejected), r
    if rejected and len(lines) < n: return sorted(k - 1 for k in rejected), r     # callers deal with corrupted observations which have not been rejected
    raise CheckError("TLC did not evaluate all observations:\n" + "\n".join(l for l in r.out.split("\n") if re.search(r"rror|xception|Attempted|line \d+|REJECT", l))[:3000] + r.out[-600:])


_cp = None


def tla_classpath():
    global _cp
    if _cp is None:
        t = run(['bash', '-c', 'cat "$(command -v tlc)"']).stdout.decode(errors='replace')
        m = re.search(r'-cp "?([^" ]+)', t)
        _cp = m.group(1) if m else '/opt/veriftools/tla/tla2tools.jar'
    return _cp
