"""T01-T03: monitors for planning by translation to classical planning; the classical planner is the stand-in harness/minifd.cpp."""
import copy, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, Ref
import prog_util as U
TO = ['to', 'to_cyc', 'deep', 'to+tight', 'choice+to', 'choice+to_cyc', 'to+mprec', 'to_cyc+tight', 'to+sas', 'to+strips', 'to+zero', 'to+mprec+strips']
PS = ['parseq', 'parseq+tight', 'parseq_cyc', 'parseq+same', 'parseq+mprec', 'parseq+strips', 'parseq_cyc+sas']
PO = ['po', 'mixed', 'po_cyc', 'acyc', 'wide', 'same', 'po+mprec', 'poch', 'po+tight', 'po+strips', 'mixed+sas', 'choice+po', 'wide+tight', 'long', 'long+strips', 'long+effy']
def pick(rng, kind=None):
    kind = kind or rng.choice(['to', 'ps', 'po', 'po'])
    return kind, {'to': TO, 'ps': PS, 'po': PO}[kind]
def types(kind, rng):
    "translation type that is meaningful for the problem class"
    if kind == 'to': return rng.choice([[], ['--transtype', 'to'], ['--transtype', 'push', '--forceTransType'], ['--transtype', 'postrips', '--forceTransType'], ['--transtype', 'pocond', '--forceTransType']])
    if kind == 'ps': return rng.choice([[], ['--transtype', 'parallelseq'], ['--transtype', 'push', '--forceTransType'], ['--transtype', 'postrips', '--forceTransType'], ['--transtype', 'pocond', '--forceTransType']])
    return rng.choice([['--transtype', 'push'], ['--transtype', 'push', '--forceTransType'], ['--transtype', 'postrips', '--forceTransType'], ['--transtype', 'pocond', '--forceTransType'], [], ['--transtype', 'to'], ['--transtype', 'postrips'], ['--transtype', 'pocond']])
def call(ctx, o, path, rng, cpu=5, stale=(), **env):
    base = path + '.t'; log = base + '.log'
    for x in ('.log', '.sas', '.sas.plan', '.sas.plan.1'):
        if os.path.exists(base + x): os.remove(base + x)
    for x in stale: # left by an earlier run
        with open(base + x, 'w') as f: f.write('(left-over[0])\n; cost = 1 (unit cost)\n')
    if rng.random() < 0.3: env['MINIFD_NUMBERED'] = 1
    opt = ['-2', '--downward', ctx['fd'], '--sasfile', base + '.sas'] + o
    e = dict(MINIFD_LOG=log, MINIFD_SEED=rng.randint(0, 999), MINIFD_STATES=15000, MINIFD_ORDER=rng.choice(['bfs', 'bfs', 'dfs'])); e.update(env)
    r = U.go(ctx['exe'], opt, path, cpu=cpu, env=e, wall=20); r.opt = opt
    L = [l.split(' ', 2) for l in open(log)] if os.path.exists(log) else []
    r.calls = [l[2] for l in L if l[1] == 'CALL']; r.res = [l[2].strip() for l in L if l[1] == 'RESULT']; r.mal = [l[2].strip() for l in L if l[1] == 'MALFORMED']
    r.sas = open(base + '.sas').read() if os.path.exists(base + '.sas') else ''
    for x in ('.log', '.sas', '.sas.plan', '.sas.plan.1'):
        if os.path.exists(base + x): os.remove(base + x)
    return r
def augmented(I):
    "the PO STRIPS encoding represents a method without a last task by the same method with an additional empty last task"
    J = copy.deepcopy(I); k = J.na; J.actions.append(htn.Action('emptyTask', 0, [], [], []))
    sh = lambda t: t if t < k else t + 1
    J.init = sh(J.init)
    for m in J.methods:
        n = len(m.subs); m.task = sh(m.task); m.subs = [sh(t) for t in m.subs]
        if n < 2: continue
        C = htn.closure(n, m.ord)
        if not any(all(x == y or C[x][y] for x in range(n)) for y in range(n)): m.subs.append(k); m.ord = list(m.ord) + [(x, n) for x in range(n)]
    return J
def save(I, o, r): d = U.save(I, o, r); d['task.sas'] = r.sas[:300000]; return d
def basic(c, r, I, o, prop):
    c.evals += 1
    if r.mal: c.bad('malformed-task', 'the generated classical task is malformed: ' + r.mal[0], save(I, o, r), ' '.join(r.opt)); return False
    if r.rc < 0 and not r.timeout: c.bad('crash', 'engine terminated by signal %d' % -r.rc, save(I, o, r), ' '.join(r.opt)); return False
    if r.timeout: c.n('runs_stopped_by_cpu_limit'); return False
    return True
def t01(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); kind, profs = pick(rng)
    I, q = U.make(rng, ctx['ref'], path, profs=profs, want=lambda q: q['status'] == 1, tries=3)
    if q['status'] != 1: c.n('not_solvable'); return
    for _ in range(4):
        o = types(kind, rng) + ['--iterate'] + (['--realCosts'] if rng.random() < 0.5 else []) + (['--pgb', str(rng.randint(1, 5))] if rng.random() < 0.4 else [])
        r = call(ctx, o, path, rng, MINIFD_STATES=5000)
        if not basic(c, r, I, o, 'T01'): continue
        ps = htn.parse_plans(r.out); pl = [x for x in r.res if x.startswith('plan')]
        if pl and not ps: c.bad('no-plan', 'the classical planner found a plan but no plan was printed', save(I, o, r), ' '.join(r.opt)); return
        if ps and not pl: c.bad('plan-from-nowhere', 'a plan was printed although the classical planner found none', save(I, o, r), ' '.join(r.opt)); return
        for p in ps:
            e = htn.validate(I, p); c.n('plans_validated'); c.n('decompositions_checked', len(p.dec)); c.n('plans_' + kind)
            if len(p.acts) >= 2: c.nontrivial.append(hash((htn.text(I), p.raw)))
            if e: c.bad('invalid-plan', e, save(I, o, r), ' '.join(r.opt)); return
            m = re.match(r'plan \d+ cost (-?\d+)', pl[-1])
            if '--realCosts' in o:
                c.n('costs_compared')
                if int(m.group(1)) != p.cost: c.bad('plan-cost', 'classical plan costs %s, its HTN plan costs %d' % (m.group(1), p.cost), save(I, o, r), ' '.join(r.opt)); return
        c.seen('configs', (kind, tuple(o)))
        if i < 4: c.sample = dict(options=' '.join(o), output=r.out[-300:])
def t02(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); kind, profs = pick(rng)
    I, q = U.make(rng, ctx['ref'], path, profs=profs + ['unsolv+' + rng.choice(profs)], want=(lambda q: q['status'] == 1) if i % 3 else (lambda q: q['status'] == 0 and q['nodes'] > 3), tries=3)
    if q['status'] == -1: c.n('reference_unknown'); return
    t = types(kind, rng); k0 = rng.randint(1, 3); solved = None
    for k in range(k0, k0 + 4):
        o = t + ['--pgb', str(k)]; r = call(ctx, o, path, rng)
        if not basic(c, r, I, o, 'T02'): return
        if not r.res or r.res[-1] == 'limit': c.n('classical_planner_gave_up'); return
        has = r.res[-1].startswith('plan'); c.n('tasks_solvable' if has else 'tasks_unsolvable'); c.seen('configs', (kind, tuple(t), k))
        c.nontrivial.append(hash((htn.text(I), tuple(o))))
        if has and q['status'] == 0: c.bad('unsound', 'bound %d: the classical task has a plan, the problem has no solution' % k, save(I, o, r), ' '.join(r.opt)); return
        if solved is not None and not has: c.bad('not-monotone', 'solvable at bound %d but not at %d' % (solved, k), save(I, o, r), ' '.join(r.opt)); return
        if has and solved is None: solved = k
        if not has and q['status'] == 1:
            if 'Basic PO Strips' in r.out: htn.write(augmented(I), path + '.aug'); w = ctx['ref'].solve(path + '.aug', 20000, -1, k); c.n('augmented_reference')
            else: w = ctx['ref'].solve(path, 20000, -1, k)
            if w['status'] == 1: c.bad('incomplete', 'bound %d: the classical task has no plan, but a solution needs at most %d tasks' % (k, k), save(I, o, r), ' '.join(r.opt)); return
        if i < 3: c.sample = dict(options=' '.join(o), result=r.res[-1], reference=q['status'])
def t03(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); kind, profs = pick(rng)
    I, q = U.make(rng, ctx['ref'], path, profs=profs, want=lambda q: q['status'] == 1 and q['nodes'] < 500, tries=3)
    if q['status'] != 1: c.n('not_solvable'); return
    t = types(kind, rng); it = rng.random() < 0.75; step = rng.choice([1, 1, 2, 3]); pgb = rng.choice([0, 0, 1, 2, 4])
    o = t + (['--iterate'] if it else []) + (['--pgbsteps', str(step)] if step > 1 or rng.random() < 0.3 else []) + (['--pgb', str(pgb)] if pgb else [])
    fail = []; n = rng.randint(0, 4)
    for j in range(n): fail.append('%d:%d' % (j, rng.choice([12, 12, 11, 5, 2, 23])))
    if rng.random() < 0.15: fail.append('%d:%d' % (n, 1))
    stale = [x for x in ('.sas.plan', '.sas.plan.1') if rng.random() < 0.3]
    if stale: c.n('runs_with_left_over_plan_files')
    r = call(ctx, o, path, rng, stale=stale, MINIFD_FAIL=' '.join(fail), MINIFD_STATES=2000)
    if not basic(c, r, I, o, 'T03'): return
    seq = [[int(x) for x in m.split()] for m in re.findall(r'Number of actions: -?\d+ pgb:((?: -?\d+)+)', r.out)]
    c.n('calls_observed', len(r.calls)); c.seen('configs', tuple(o)); sv = save(I, o, r); cmd = ' '.join(r.opt)
    if len(seq) != len(r.calls): c.bad('calls', '%d encodings, %d planner calls' % (len(seq), len(r.calls)), sv, cmd); return
    if not seq: c.bad('no-call', 'the external planner was never called', sv, cmd); return
    if pgb and any(x != pgb for x in seq[0]): c.bad('first-bound', 'first bound %s instead of %d' % (seq[0], pgb), sv, cmd); return
    for a, b in zip(seq, seq[1:]):
        c.n('increments_checked')
        if [x + step for x in a] != b: c.bad('step', 'bounds %s then %s, step is %d' % (a, b, step), sv, cmd); return
    plans = [k for k, x in enumerate(r.res) if x.startswith('plan')]; printed = len(htn.parse_plans(r.out))
    if plans and (plans[0] != len(r.res) - 1 or printed != 1 or r.rc != 0): c.bad('stop', 'plan in call %s of %d, %d plans printed, status %d' % (plans, len(r.res), printed, r.rc), sv, cmd); return
    if not plans and "found a solution" in r.out: c.bad("plan", "a solution is reported without planner success", sv, cmd); return
    if not plans and printed: c.bad('plan', 'plan printed without planner success', sv, cmd); return
    if not plans and r.rc == 0: c.bad('exit', 'status 0 without a plan', sv, cmd); return
    if not it and len(r.calls) != 1: c.bad('iterated', '%d calls without iteration' % len(r.calls), sv, cmd); return
    if it and not plans and 'Reached max PGB' not in r.out: c.bad('gave-up', 'iteration stopped after %d calls without a plan and below the maximum' % len(r.calls), sv, cmd); return
    c.n('runs_with_plan' if plans else 'runs_without_plan')
    if len(seq) > 1: c.nontrivial.append(hash((htn.text(I), tuple(o), tuple(fail))))
    if i < 3: c.sample = dict(options=' '.join(o), failures=fail, bounds=seq)
INFO = {
 'T01': (t01, (330, 10000), 'random problems x translation types x bounds x random classical plans; non-trivial = distinct printed plan with >=2 actions', ['plans_validated', 'plans_to', 'plans_ps', 'plans_po', 'costs_compared']),
 'T02': (t02, (3000, 40000), 'random problems x translation types, four consecutive bounds each, decided exhaustively; non-trivial = distinct (problem, type, bound)', ['tasks_solvable', 'tasks_unsolvable']),
 'T03': (t03, (400, 8000), 'random call sequences with injected planner outcomes; non-trivial = distinct run with at least two calls', ['increments_checked', 'runs_with_plan', 'runs_without_plan', 'runs_with_left_over_plan_files']),
}
def main():
    prop = sys.argv[1]; f, (a, b), rule, need = INFO[prop]
    C = Check(prop, rule, assumptions=['problems are in grounder normal form', 'the classical planner is an exhaustive stand-in for Fast Downward'])
    ctx = dict(exe=U.engine(), fd=build.plain('minifd', 'harness/minifd.cpp'), ref=Ref(build.plain('reftool', 'lib/reftool.cpp')), tmp=C.tmp)
    C.cases(f, C.n(a, b), ctx); C.finish(need)
common.main_guard(main)
