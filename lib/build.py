"""Builds the engine and the harnesses from /repo's current working tree, outside /repo.

Objects are cached by content hash (compile flags + source + all headers), so a changed tree is
always recompiled and an unchanged one is not.
"""
import concurrent.futures as cf, glob, hashlib, os, re, shutil, subprocess, sys, tempfile, threading, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
SRC = os.path.join(REPO, 'src')
CUDD = os.path.join(SRC, 'symbolic_search', 'cudd-3.0.0')
NPROC = os.cpu_count() or 4

class BuildError(Exception): pass

FL = {
  'fast':  dict(cc='gcc', cxx='g++', flags=['-O1', '-DNDEBUG', '-g0']),
  'debug': dict(cc='gcc', cxx='g++', flags=['-O1', '-g1']),  # asserts on
  'asan':  dict(cc='clang', cxx='clang++', flags=['-O1', '-g1', '-DNDEBUG', '-fno-omit-frame-pointer',
             '-D_GLIBCXX_DEBUG', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr']),
}
_hcache = {}
def _hash(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode()); h.update(b'\0')
    return h.hexdigest()[:32]
def _read(p):
    with open(p, 'rb') as f: return f.read()
def _headers_hash(cudd):
    k = ('h', cudd)
    if k not in _hcache:
        fs = []
        for r, d, f in os.walk(SRC):
            if r.startswith(CUDD): 
                if not cudd: continue
            fs += [os.path.join(r, x) for x in f if x.endswith(('.h', '.hh', '.hpp', '.ggo'))]
        fs += glob.glob(os.path.join(VERIF, 'harness', '*.h')) + glob.glob(os.path.join(VERIF, 'harness', '*.hpp'))+ glob.glob(os.path.join(VERIF, 'lib', '*.hpp'))
        fs = [f for f in fs if not f.endswith('/src/cmdline.h')]
        _hcache[k] = _hash(*[x for f in sorted(fs) for x in (f, _read(f))])
    return _hcache[k]
def _run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode: raise BuildError(' '.join(cmd) + '\n' + r.stdout.decode(errors='replace')[-6000:])

def gen_cmdline():
    "cmdline.{c,h} are generated from options.ggo; ours are generated outside /repo"
    ggo = os.path.join(SRC, 'options.ggo'); d = os.path.join(BUILD, 'gen', _hash(_read(ggo)))
    if not os.path.exists(os.path.join(d, 'cmdline.c')):
        t = d + '.%d' % os.getpid(); os.makedirs(t)
        shutil.copy(ggo, t)
        _run(['gengetopt', '--include-getopt', '--default-optional', '--unamed-opts', '-i', 'options.ggo'], cwd=t)
        try: os.rename(t, d)
        except OSError: shutil.rmtree(t)
    return d
def engine_sources(sat, bdd):
    g = lambda p: sorted(glob.glob(os.path.join(SRC, p)))
    s = g('*.cpp') + g('search/*.cpp') + g('search/fringes/*.cpp') + g('heuristics/*.cpp') + g('heuristics/rcHeuristics/*.cpp')
    s += g('heuristics/landmarks/*.cpp') + g('heuristics/landmarks/lm*/*.cpp') + g('translation/*.cpp')
    cm = _read(os.path.join(SRC, 'intDataStructures', 'CMakeLists.txt')).decode()
    s += [os.path.join(SRC, 'intDataStructures', x) for x in re.findall(r'[\w-]+\.cpp', cm)]
    if sat: s += g('sat/*.cpp')
    if bdd: s += g('symbolic_search/*.cpp')
    return s
def cudd_sources():
    out = []
    for d in ('cudd', 'util', 'st', 'epd', 'mtr', 'dddmp'):
        t = _read(os.path.join(CUDD, d, 'Included.am')).decode().replace('\\\n', ' ')
        lib = {'cudd': 'cudd_libcudd_la_SOURCES', 'dddmp': 'dddmp_libdddmp_la_SOURCES'}.get(d)
        if d == 'dddmp': names = [x for x in re.findall(r'(dddmp/[\w-]+\.c)\b', t) if '/test' not in x]
        elif lib: m = re.search(lib + r'\s*\+?=(.*)', t); names = re.findall(r'(%s/[\w-]+\.c)\b' % d, m.group(1))
        else: 
            names=[]
            for m in re.finditer(r'\w+_SOURCES\s*\+?=(.*)', t):
                if 'test' in m.group(0).split('=')[0]: continue
                names += re.findall(r'(%s/[\w-]+\.c)\b' % d, m.group(1))
        out += [os.path.join(CUDD, x) for x in dict.fromkeys(names)]
    return out
def incs(sat, bdd):
    gen = gen_cmdline()
    i = [gen] + [os.path.join(SRC, x) for x in ('', 'search', 'symbolic_search', 'heuristics', 'intDataStructures', 'translation')]
    if sat: i.append(os.path.join(SRC, 'sat'))
    if bdd: i += [os.path.join(CUDD, 'cudd'), os.path.join(CUDD, 'cplusplus')] + [os.path.join(CUDD,x) for x in ('st','epd','mtr','util','dddmp')] + [os.path.join(VERIF, 'harness', 'cuddcfg')]
    return ['-I' + x for x in i]
def _obj(src, cmd, extra):
    key = _hash(' '.join(cmd), _read(src), extra)
    o = os.path.join(BUILD, 'obj', key[:2], key + '.o')
    if os.path.exists(o): return o
    os.makedirs(os.path.dirname(o), exist_ok=True)
    t = o + '.%d.%d.tmp.o' % (os.getpid(), threading.get_ident())
    _run(cmd + ['-c', src, '-o', t]); os.rename(t, o); return o
def compile_all(jobs):
    ex = cf.ThreadPoolExecutor(NPROC)
    # big files first
    order = sorted(range(len(jobs)), key=lambda i: -os.path.getsize(jobs[i][0]))
    res = [None] * len(jobs)
    fut = {i: ex.submit(_obj, *jobs[i]) for i in order}
    try:
        for i in order: res[i] = fut[i].result()
    finally:
        for f in fut.values(): f.cancel()
        ex.shutdown()
    return res
CFGH = os.path.join(VERIF, 'harness', 'cuddcfg', 'config.h')
def _jobs(flavour, sat, bdd, rename_main, extra_defs, only=None):
    f = FL[flavour]; I = incs(sat, bdd); hh = _headers_hash(bdd); jobs = []
    defs = ['-std=c++17', '-w', '-DIL_STD', '-DCMAKE_NO_ILP'] + ([] if sat else ['-DCMAKE_NO_SAT']) + ([] if bdd else ['-DCMAKE_NO_BDD']) + list(extra_defs)
    # compiled from a copy, so that a stale src/cmdline.h next to it is not picked up
    se0 = os.path.join(SRC, 'SearchEngine.cpp'); sd = os.path.join(BUILD, 'gen', 'se-' + _hash(_read(se0))); se = os.path.join(sd, 'SearchEngine.cpp')
    if not os.path.exists(se):
        os.makedirs(sd, exist_ok=True); shutil.copy(se0, se + '.%d' % os.getpid()); os.rename(se + '.%d' % os.getpid(), se)
    for s in engine_sources(sat, bdd):
        if only and not any(re.search(o, s) for o in only): continue
        if s == se0: s = se
        d = defs + (['-Dmain=panda_engine_main'] if rename_main and s == se else [])
        # only SearchEngine depends on what is linked in; keep other objects shared between builds
        if s != se: d = [x for x in d if not x.startswith('-DCMAKE_NO_SAT') and not x.startswith('-DCMAKE_NO_BDD')]
        jobs.append((s, [f['cxx']] + f['flags'] + d + I, hh))
    jobs.append((os.path.join(gen_cmdline(), 'cmdline.c'), [f['cc']] + f['flags'] + ['-w', '-DCMDLINE_PARSER_PACKAGE="x"'][:1] + I, hh))
    return jobs
def cudd_jobs(flavour, dddmp=True, defs=()):
    f = FL[flavour]; hh = _headers_hash(True)
    I = ['-I' + os.path.join(VERIF, 'harness', 'cuddcfg')] + ['-I' + os.path.join(CUDD, x) for x in ('cudd', 'st', 'epd', 'mtr', 'util', 'dddmp')]
    return [(s, [f['cc']] + f['flags'] + ['-w', '-DHAVE_CONFIG_H'] + (['-fno-sanitize=shift-base,signed-integer-overflow', '-UNDEBUG'] if flavour == 'asan' else []) + list(defs) + I, hh) for s in cudd_sources() if dddmp or '/dddmp/' not in s] + \
           [(os.path.join(CUDD, 'cplusplus', 'cuddObj.cc'), [f['cxx']] + f['flags'] + ['-w', '-DHAVE_CONFIG_H'] + (['-UNDEBUG'] if flavour == 'asan' else []) + list(defs) + I, hh)]
def build(name, flavour='fast', sat=False, bdd=False, harness=None, engine=True, cudd=None, extra_defs=(), hflags=(), only=None, mini=True):
    """returns path of the executable. harness: list of sources (relative to /verif) which provide main."""
    os.makedirs(BUILD, exist_ok=True)
    f = FL[flavour]; jobs = []
    if engine: jobs += _jobs(flavour, sat, bdd, bool(harness), extra_defs, only)
    if cudd is None: cudd = bdd
    if cudd: jobs += cudd_jobs(flavour)
    hs = [os.path.join(VERIF, h) for h in (harness or [])]
    if sat and mini: hs.append(os.path.join(VERIF, 'harness', 'ipasir_mini.cpp'))
    I = incs(sat, bdd or cudd) if engine or cudd else []
    for h in hs:
        jobs.append((h, [f['cxx']] + f['flags'] + ['-std=c++17', '-w'] + list(hflags) + list(extra_defs) + I + ['-I' + os.path.join(VERIF, 'lib'), '-I' + os.path.join(VERIF, 'harness')], _headers_hash(bool(cudd))))
    objs = compile_all(jobs)
    exe = os.path.join(BUILD, 'bin', name + '-' + _hash(flavour, *objs))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True); t = exe + '.%d' % os.getpid()
        _run([f['cxx']] + f['flags'] + objs + ['-lpthread', '-lm', '-o', t]); os.rename(t, exe)
    return exe
def plain(name, src, flags=('-O2',)):
    "a stand-alone C++ tool of /verif (no engine code)"
    os.makedirs(BUILD, exist_ok=True)
    o = compile_all([(os.path.join(VERIF, src), ['g++', '-std=c++17', '-w'] + list(flags) + ['-I' + os.path.join(VERIF, 'lib')], _headers_hash(False))])
    exe = os.path.join(BUILD, 'bin', name + '-' + _hash(*o))
    if not os.path.exists(exe):
        os.makedirs(os.path.dirname(exe), exist_ok=True); t = exe + '.%d' % os.getpid()
        _run(['g++'] + o + ['-lpthread', '-o', t]); os.rename(t, exe)
    return exe
if __name__ == '__main__':
    import time
    t = time.time()
    a = sys.argv[1]
    if a == 'fast': print(build('engine', 'fast', sat=True))
    if a == 'bdd': print(build('engine-bdd', 'fast', sat=True, bdd=True))
    if a == 'asan': print(build('engine-asan', 'asan', sat=True, bdd=True))
    print(time.time() - t)
