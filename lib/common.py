"""Shared machinery of the checks: tiers, seeds, parallel cases, evidence, known findings, verdict lines."""
import json, os, resource, signal, subprocess, sys, time, traceback, hashlib, shutil, tempfile, multiprocessing as mp, multiprocessing.connection as mpc
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
import build
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
SCALE = float(os.environ.get('VERIF_SCALE', '1'))
JOBS = int(os.environ.get('VERIF_JOBS', str(os.cpu_count() or 4)))

class HarnessError(Exception): pass
class R:
    "outcome of one execution"
    def __init__(s, rc, out, err, timeout, wall): s.rc, s.out, s.err, s.timeout, s.wall = rc, out, err, timeout, wall
    @property
    def crashed(s): return (not s.timeout) and s.rc < 0
def run(cmd, cpu=20, mem_gb=4, stdin=None, env=None, cwd=None, wall=None, maxout=20_000_000):
    """Runs a command under a CPU-time limit (so machine load does not matter) and a generous wall limit."""
    def pre():
        resource.setrlimit(resource.RLIMIT_CPU, (int(cpu), int(cpu) + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if mem_gb: resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
        resource.setrlimit(resource.RLIMIT_FSIZE, (2**30, 2**30))
    e = dict(os.environ); e.pop('VERIF_SEED', None)
    if env: e.update({k: str(v) for k, v in env.items()})
    t = time.time()
    p = subprocess.Popen(cmd, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=e, cwd=cwd, preexec_fn=pre, start_new_session=True)
    to = False
    try: o, er = p.communicate(stdin.encode() if isinstance(stdin, str) else stdin, timeout=wall or (cpu * 6 + 30))
    except subprocess.TimeoutExpired:
        to = True
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        o, er = p.communicate()
    if p.returncode in (-signal.SIGXCPU,) or (p.returncode == -signal.SIGKILL): to = True
    return R(p.returncode, o[:maxout].decode(errors='replace'), er[:maxout].decode(errors='replace'), to, time.time() - t)

class Viol:
    "a violation: sig identifies it for known-findings matching; files are saved for replay"
    def __init__(s, sig, msg, files=None, cmd=None): s.sig, s.msg, s.files, s.cmd = sig, msg, files or {}, cmd
class Case:
    "result of one case, sent back from a worker"
    def __init__(s): s.viol = []; s.counts = {}; s.sets = {}; s.sample = None; s.evals = 0; s.nontrivial = []; s.fatal = None
    def n(s, k, v=1): s.counts[k] = s.counts.get(k, 0) + v
    def seen(s, k, v): s.sets.setdefault(k, set()).add(v)
    def bad(s, sig, msg, files=None, cmd=None): s.viol.append(Viol(sig, msg, files, cmd))

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p): return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop]

_G = {}
def _w(args):
    f, i, seed, ctx = args
    try:
        c = Case(); f(c, i, seed, _G['ctx'] if '_ctx' == ctx else ctx); return c
    except Exception:
        c = Case(); c.fatal = traceback.format_exc(); return c
def _worker(conn, arg):
    "child process: takes index lists, answers one result per index, ends on an empty list or a closed pipe"
    try:
        while True:
            idx = conn.recv()
            if not idx: break
            for i in idx: conn.send(_w(arg(i)))
    except (EOFError, BrokenPipeError, ConnectionResetError): pass
    finally:
        sys.stdout.flush(); sys.stderr.flush(); os._exit(0)
def parallel(arg, indices, chunk):
    """Results of _w(arg(i)) in order of completion, from JOBS forked workers with a pipe each. No threads and no shared
    queue or lock: a worker that is killed (memory, a crash) costs one case, which is reported, and never blocks the others."""
    it = iter(indices); W = {}
    def take():
        r = []
        for i in it:
            r.append(i)
            if len(r) == chunk: break
        return r
    def start(todo):
        a, b = mp.Pipe(); pid = os.fork()
        if pid == 0:
            a.close()
            for c in W: c.close()
            signal.signal(signal.SIGINT, signal.SIG_DFL); _worker(b, arg)
        b.close(); W[a] = [pid, todo]; a.send(todo)
    try:
        for _ in range(JOBS):
            t = take()
            if not t: break
            sys.stdout.flush(); sys.stderr.flush(); start(t)
        while W:
            for c in mpc.wait(list(W)):
                w = W[c]
                try: res = c.recv()
                except (EOFError, ConnectionResetError):
                    c.close(); del W[c]; _, st = os.waitpid(w[0], 0)
                    res = Case(); res.fatal = 'worker process ended with status %d in case %s' % (st, w[1][:1]); rest = w[1][1:] or take()
                    if rest: start(rest)
                    yield res; continue
                w[1].pop(0)
                if not w[1]:
                    w[1] = take()
                    if w[1]: c.send(w[1])
                    else: c.close(); del W[c]; os.waitpid(w[0], 0)
                yield res
    finally:
        for c, w in W.items():
            try: os.kill(w[0], signal.SIGKILL)
            except ProcessLookupError: pass
            c.close(); os.waitpid(w[0], 0)
class Check:
    def __init__(s, prop, rule, level='exploration', assumptions=()):
        s.prop, s.rule, s.level, s.assumptions = prop, rule, level, list(assumptions)
        s.t0 = time.time(); s.counts = {}; s.sets = {}; s.samples = []; s.evals = 0; s.nontriv = set(); s.viol = []; s.known = load_known(prop); s.hit = {}; s.extra = {}
        s.rdir = os.path.join(VERIF, 'evidence', 'replay', prop); s.errors = []
        shutil.rmtree(s.rdir, ignore_errors=True)
        s.tmp = tempfile.mkdtemp(prefix='vp-%s-' % prop, dir=os.environ.get('VERIF_TMP', '/tmp'))
    def n(s, quick, thorough): return max(1, int((quick if TIER == 'quick' else thorough) * SCALE))
    def cases(s, f, count, ctx=None, limit_viol=3, chunk=None, label=None, base=0):
        "runs f(case, i, seed, ctx) for i<count in worker processes; deterministic seeds"
        if s.viol and len(s.viol) >= limit_viol: return
        salt = int(hashlib.sha256((s.prop + (label or f.__name__)).encode()).hexdigest()[:8], 16)
        _G['ctx'] = ctx
        def arg(i): return (f, i, (SEED * 1000003 + i) * 4294967291 + salt, '_ctx')
        ch = chunk or max(1, min(16, count // (JOBS * 8) or 1))
        fatal = 0
        for c in parallel(arg, range(base, base + count), ch):
            s.absorb(c)
            if c.fatal: fatal += 1
            if len(s.viol) >= limit_viol or fatal > 5: break
    def absorb(s, c):
        if c.fatal: s.errors.append(c.fatal)
        for k, v in c.counts.items(): s.counts[k] = s.counts.get(k, 0) + v
        for k, v in c.sets.items(): s.sets.setdefault(k, set()).update(v)
        s.evals += c.evals; s.nontriv.update(c.nontrivial)
        if c.sample is not None and len(s.samples) < 4:
            t = json.dumps(c.sample, default=str); s.samples.append(c.sample if len(t) < 3000 else t[:3000] + '...')
        for v in c.viol: s.violation(v)
    def violation(s, v):
        for k in s.known:
            if _match_known(k, v): s.hit.setdefault(k['id'], []).append(v); return
        s.viol.append(v)
    def tempdir(s): return s.tmp
    def finish(s, need=()):
        """need: names of counters that must be positive, or the run observed nothing and gives no answer"""
        cov = dict(evaluations=s.evals, distinct_nontrivial=len(s.nontriv), rule=s.rule, samples=s.samples or ['(none)'],
                   observed=dict(sorted(s.counts.items())), distinct={k: len(v) for k, v in sorted(s.sets.items())})
        cov.update(s.extra)
        ev = dict(property=s.prop, tier=TIER, seed=SEED, level=s.level, coverage=cov, assumptions=s.assumptions, wall_s=round(time.time() - s.t0, 2), violations=len(s.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', s.prop + '.json'), 'w') as f: json.dump(ev, f, indent=1, default=str)
        shutil.rmtree(s.tmp, ignore_errors=True)
        for k in s.known:
            if k['id'] in s.hit: print('KNOWN-FINDING: property=%s %s' % (s.prop, k['what']))
        if s.viol:
            for i, v in enumerate(s.viol[:5]):
                d = os.path.join(s.rdir, str(i)); os.makedirs(d, exist_ok=True)
                for n, t in v.files.items():
                    with open(os.path.join(d, n), 'w' if isinstance(t, str) else 'wb') as f: f.write(t)
                with open(os.path.join(d, 'README'), 'w') as f: f.write('%s\nsignature: %s\n%s\ncommand: %s\n' % (s.prop, v.sig, v.msg, v.cmd))
                print('  [%s] %s' % (v.sig, v.msg[:600].replace('\n', ' | ')))
                print('VIOLATION property=%s replay=%s' % (s.prop, d))
            sys.stdout.flush(); os._exit(1)
        if s.errors:
            print('HARNESS ERROR (no verdict):\n' + s.errors[0], file=sys.stderr); os._exit(3)
        miss = [k for k in need if s.counts.get(k, 0) <= 0]
        if miss:
            print('HARNESS ERROR: nothing observed for %s; %s' % (miss, s.counts), file=sys.stderr); os._exit(4)
        print('OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (s.prop, TIER, SEED, s.evals, len(s.nontriv), time.time() - s.t0))
        print(json.dumps(cov['observed'])); sys.stdout.flush(); os._exit(0)
def _match_known(k, v):
    m = k.get('match', {})
    if 'sig' in m and m['sig'] != v.sig: return False
    if 'input_sha' in m:
        t = v.files.get('input.htn', '')
        if hashlib.sha256(t.encode()).hexdigest() not in m['input_sha']: return False
    if 'msg' in m and m['msg'] not in v.msg: return False
    return bool(m)

class Ref:
    "client of the reference solver (one subprocess per worker process)"
    def __init__(s, exe): s.exe = exe; s.p = None; s.pid = None
    def ask(s, line):
        if s.p is None or s.pid != os.getpid():
            s.p = subprocess.Popen([s.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True); s.pid = os.getpid()
        s.p.stdin.write(line + '\n'); s.p.stdin.flush(); r = s.p.stdout.readline()
        if not r: s.p = None; raise HarnessError('reference solver died on ' + line)
        return r.split()
    def solve(s, path, nodes=20000, depth=-1, size=12, full=False):
        w = s.ask('solve %s %d %d %d %d' % (path, nodes, depth, size, full)); return dict(finite=w[6] == '1', status=int(w[0]), cost=int(w[1]), exact=w[2] == '1', len=int(w[3]), nodes=int(w[4]), cut=w[5] == '1')
def main_guard(f):
    try: f()
    except SystemExit: raise
    except build.BuildError as e:
        print('BUILD ERROR (no verdict)\n' + str(e), file=sys.stderr); sys.exit(5)
    except Exception:
        traceback.print_exc(); sys.exit(3)
