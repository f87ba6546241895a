"""I01: scripted sessions of the interactive mode against a simulation of progression semantics."""
import os, random, re, resource, subprocess, sys, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, Ref
import prog_util as U
class Sim:
    "a task network with its state; nodes are numbered, pred maps a node to all nodes before it"
    def __init__(s, I): s.I = I; s.state = frozenset(I.s0); s.task = {0: I.init}; s.pred = {0: frozenset()}; s.next = 1
    def copy(s):
        c = Sim.__new__(Sim); c.I = s.I; c.state = s.state; c.task = dict(s.task); c.pred = dict(s.pred); c.next = s.next; return c
    def unc(s): return [n for n in s.task if not s.pred[n]]
    def appl(s, n): return set(s.I.actions[s.task[n]].prec) <= s.state
    def apply(s, n):
        c = s.copy(); a = s.I.actions[s.task[n]]; c.state = frozenset((set(s.state) - set(a.dele)) | set(a.add)); c.drop(n); return c
    def drop(s, n):
        del s.task[n]; del s.pred[n]
        for m in s.pred: s.pred[m] = s.pred[m] - {n}
    def decompose(s, n, m):
        c = s.copy(); r = htn.closure(len(m.subs), m.ord); ids = [c.next + i for i in range(len(m.subs))]; c.next += len(m.subs)
        for i, t in enumerate(m.subs): c.task[ids[i]] = t; c.pred[ids[i]] = s.pred[n] | frozenset(ids[j] for j in range(len(m.subs)) if r[j][i])
        for x in s.task:
            if n in s.pred[x]: c.pred[x] = c.pred[x] | frozenset(ids)
        c.drop(n); return c
    def auto(s):
        "executable actions without effects are progressed through, and so is the only possible step if it is an action"
        while True:
            u = s.unc(); na = s.I.na; e = [n for n in u if s.task[n] < na and not s.I.actions[s.task[n]].add and not s.I.actions[s.task[n]].dele and s.appl(n)]
            if not e:
                if any(s.task[n] >= na for n in u): return s
                e = [n for n in u if s.appl(n)]
                if len(e) != 1: return s
            s = s.apply(e[0])
    def key(s): return (s.state, tuple(sorted((s.task[n], tuple(sorted(s.task[p] for p in s.pred[n]))) for n in s.task)), tuple(sorted((n, s.task[n]) for n in s.task)))
    def shown(s): return sorted(s.I.tname(s.task[n]) for n in s.unc())
class Gone(Exception): pass
class Session:
    def __init__(s, exe, path):
        def pre(): resource.setrlimit(resource.RLIMIT_CPU, (10, 12)); resource.setrlimit(resource.RLIMIT_AS, (3 << 30,) * 2)
        s.p = subprocess.Popen([exe, '-I', path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, preexec_fn=pre, start_new_session=True)
        s.log = []; s.dog = threading.Timer(90, s.p.kill); s.dog.start()
    def line(s):
        l = s.p.stdout.readline()
        if l == '': raise Gone()
        s.log.append(l.rstrip('\n')); return l.rstrip('\n')
    def send(s, t):
        s.log.append('>>> %s' % t)
        try: s.p.stdin.write('%s\n' % t); s.p.stdin.flush()
        except BrokenPipeError: raise Gone()
    def end(s):
        "closes the input and waits for the end; returns the remaining output"
        s.log.append('>>> EOF')
        try: s.p.stdin.close()
        except BrokenPipeError: pass
        r = s.p.stdout.read(); s.log += r.split('\n'); s.p.wait(); s.dog.cancel(); return r
    def kill(s): s.p.kill(); s.p.wait(); s.dog.cancel()
class Bad(Exception): pass
def options(ses):
    r = []
    while True:
        l = ses.line(); m = re.match(r'^(\d+) (.*)$', l)
        if not m: return r, l
        if int(m.group(1)) != len(r): raise Bad('choices are not numbered consecutively: ' + l)
        r.append(m.group(2))
def invalid(c, ses, rng, lo, hi):
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        t = rng.choice([str(hi + 1), str(hi + rng.randint(1, 10**6)), str(lo - 1), 'x', '99999999999999999999', str(lo - rng.randint(1, 1000))]); ses.send(t)
        if ses.line() != 'Invalid choice.': raise Bad('answer to the choice %s of %d..%d: %s' % (t, lo, hi, ses.log[-1]))
        c.n('invalid_choices')
def play(c, rng, I, ses):
    while ses.line() != 'YouPlan!' and not ses.log[-1].endswith('YouPlan!'): pass
    cands = [Sim(I)]; names = {}
    for t in range(I.ntasks()): names.setdefault(I.tname(t), []).append(t)
    for step in range(60):
        opts, l = options(ses); c.n('displays_compared'); sh = sorted(opts)
        ok = [x for x in cands if x.shown() == sh]
        if not ok: raise Bad('offered %s, possible are %s' % (sh, cands[0].shown()))
        cands = ok
        if l == 'No tasks left.':
            if opts: raise Bad('no tasks left after showing some')
            c.n('empty_networks'); return 'empty'
        if l != 'What to do?': raise Bad('unexpected line: ' + l)
        if not opts: raise Bad('asks although nothing is left')
        fits = [i for i, o in enumerate(opts) if any(I.tname(x.task[n]) == o and (x.task[n] >= I.na or x.appl(n)) for x in cands for n in x.unc())]
        if len(opts) > 1:
            invalid(c, ses, rng, -2, len(opts) - 1); r = rng.random()
            if r < 0.02: ses.send(-1); c.n('quits'); return 'quit'
            if r < 0.04: ses.send(-2); c.n('quits'); return 'quit'
            if r < 0.06: return 'eof'
            if not fits: return 'eof'
            k = rng.choice(fits); ses.send(k)
        else:
            k = 0; c.n('automatic_choices')
            if not fits: return 'stuck'
        name = opts[k]; nx = []
        if names[name][0] >= I.na:
            t = names[name][0]; ms, l = options(ses); want = sorted(m.name for m in I.methods if m.task == t); c.n('method_lists_compared')
            if sorted(ms) != want: raise Bad('methods offered for %s: %s, it has %s' % (name, ms, want))
            if not want:
                if l != 'This task has no method.': raise Bad('unexpected line: ' + l)
                if len(opts) == 1: return 'stuck'
                continue
            if l != 'Which method to use?': raise Bad('unexpected line: ' + l)
            q = 0
            if len(ms) > 1: invalid(c, ses, rng, 0, len(ms) - 1); q = rng.randrange(len(ms)); ses.send(q)
            meth = [m for m in I.methods if m.name == ms[q] and m.task == t][0]
            for x in cands:
                for n in x.unc():
                    if x.task[n] == t: nx.append(x.decompose(n, meth).auto())
            c.n('decompositions_chosen')
        else:
            a = I.actions[names[name][0]]
            cur = None; got = {}
            for kind, v in (('prec', a.prec), ('add', a.add), ('del', [f for f in a.dele if f not in a.add])):
                if ses.line() != kind + ':': raise Bad('unexpected line: ' + ses.log[-1])
                got = [ses.line() for _ in v]
                if sorted(got) != sorted('- %d %s' % (f, I.facts[f]) for f in v): raise Bad('%s of %s shown as %s' % (kind, name, got))
            for x in cands:
                for n in x.unc():
                    if x.task[n] == names[name][0] and x.appl(n): nx.append(x.apply(n).auto())
            c.n('actions_chosen')
        seen = set(); cands = []
        for x in nx:
            if x.key() not in seen: seen.add(x.key()); cands.append(x)
        cands = cands[:200]
        if any(len(x.task) > 14 for x in cands): return 'big'
        c.counts['longest'] = max(c.counts.get('longest', 0), step)
    return 'long'
def i01(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); I, q = U.make(rng, ctx['ref'], path, tries=2, nodes=2000)
    if len(set(m.name for m in I.methods)) < len(I.methods) or len({I.tname(t) for t in range(I.ntasks())}) < I.ntasks(): c.n('ambiguous_names'); return
    for _ in range(3):
        ses = Session(ctx['exe'], path); c.evals += 1; st = None
        F = lambda: {'input.htn': htn.text(I), 'session.txt': '\n'.join(ses.log)}
        before = c.counts.get('displays_compared', 0)
        try: st = play(c, rng, I, ses)
        except Bad as e: ses.kill(); c.bad('dialogue', str(e), F(), '-I'); return
        except Gone:
            ses.p.wait(); ses.dog.cancel(); c.bad('ended', 'ended with status %d during the dialogue' % ses.p.returncode, F(), '-I'); return
        finally: c.counts['displays_longest'] = 0; c.counts.pop('displays_longest'); L = c.counts.pop('longest', 0); c.seen('steps_of_session', L)
        c.n('sessions_' + st)
        if c.counts.get('displays_compared', 0) - before > 2: c.nontrivial.append(hash((htn.text(I), '\n'.join(ses.log))))
        if st in ('quit', 'eof', 'empty', 'stuck'):
            if st in ('stuck',): ses.kill(); continue
            r = ses.end()
            if st == 'eof' and re.search(r'^(What to do|\d+ )', r, re.M): c.bad('after-eof', 'continued after the end of the input: ' + r[:200], F(), '-I'); return
            if ses.p.returncode != 0: c.bad('status', 'ended with status %d (%s)' % (ses.p.returncode, st), F(), '-I'); return
        else: ses.kill()
    if i < 2: c.sample = dict(session=ses.log[-40:])
def main():
    C = Check('I01', 'adaptive random sessions (valid and invalid choices, early ends) on random problems; non-trivial = distinct session with more than two displays')
    C.cases(i01, C.n(1200, 30000), dict(ref=Ref(build.plain('reftool', 'lib/reftool.cpp')), exe=build.build('engine', 'fast', sat=True), tmp=C.tmp))
    C.finish(['displays_compared', 'method_lists_compared', 'actions_chosen', 'invalid_choices', 'automatic_choices', 'empty_networks', 'sessions_eof', 'quits'])
if __name__ == '__main__': common.main_guard(main)
