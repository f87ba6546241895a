"""P01-P06: black-box monitors for progression search."""
import os, random, re, sys, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, common, htn
from common import Check, Ref, run

from prog_util import *
def p01(c, i, seed, ctx):
    rng = random.Random(seed); path = mkpath(ctx)
    I, q = make(rng, ctx['ref'], path, want=lambda q: q['status'] == 1)
    for _ in range(4):
        o = config(rng) ; r = go(ctx['exe'], o, path, cpu=1); s = conv(c, r, I, [ctx['exe']] + o, 'P01')
        if s != 'Solved': continue
        ps = htn.parse_plans(r.out)
        if len(ps) != 1: c.bad('no-plan', 'solved but %d plans printed' % len(ps), save(I, o, r), ' '.join(o)); continue
        e = htn.validate(I, ps[0]); c.n('plans_validated'); c.n('plan_actions', len(ps[0].acts)); c.n('decompositions_checked', len(ps[0].dec))
        if len(ps[0].acts) >= 2: c.nontrivial.append(hash((htn.text(I), ps[0].raw)))
        c.seen('configs', tuple(o[:-2]))
        if e: c.bad('invalid-plan', e, save(I, o, r), ' '.join(o))
        if i < 3: c.sample = dict(options=' '.join(o), plan=ps[0].raw[:400])
def productive(I):
    ok = set(range(I.na)); ch = True
    while ch:
        ch = False
        for m in I.methods:
            if m.task not in ok and all(s in ok for s in m.subs): ok.add(m.task); ch = True
    return len(ok) == I.ntasks()
def p02(c, i, seed, ctx):
    rng = random.Random(seed); path = mkpath(ctx)
    sub = rng.random()
    I, q = make(rng, ctx['ref'], path, want=(lambda q: q['status'] == 1) if sub < 0.65 else (lambda q: q['status'] == 0), full=True)
    if q['status'] == 1: c.n('reference_solvable')
    elif q['status'] == 0: c.n('reference_unsolvable')
    else: c.n('reference_unknown')
    if i % 40 == 7: I, q = htn.explode(rng); htn.write(I, path); c.n('exploding_estimates')
    for k in range(5):
        o = config(rng)
        if i % 40 == 7 and k: o = ['-H', 'rc2(add;%s%s)' % (rng.choice(['distance', 'cost', 'mixed']), rng.choice(['', ';no']))] + o[o.index('-g') if '-g' in o else len(o):]
        default = k == 0
        if default: o = [x for x in o if x not in VISI and x != '-V']
        r = go(ctx['exe'], o, path, cpu=1); s = conv(c, r, I, [ctx['exe']] + o, 'P02')
        if s is None: continue
        if s == 'Proven unsolvable' and approx(o, r.out): c.n('approximate_pruning_runs'); continue
        if s == 'Proven unsolvable' and q['status'] == 1: c.bad('wrong-unsolvable', 'claims unsolvable, reference has a plan of length %d cost %d' % (q['len'], q['cost']), save(I, o, r), ' '.join(o))
        if s == 'Solved' and q['status'] == 0: c.bad('wrong-solved', 'claims solved, the problem is unsolvable', save(I, o, r), ' '.join(o))
        if s in ('Timeout', 'limit') and default and not any('invert' in x for x in o) and q['finite'] and q['nodes'] < 1500 and productive(I):
            # confirm before reporting: same run with far more time
            o2 = o; r = go(ctx['exe'], o2, path, cpu=60); s2 = 'limit' if r.timeout else st(r.out)
            if s2 in ('Timeout', 'limit'): c.bad('no-termination', 'reference explores the whole space with %d nodes, the engine does not finish' % q['nodes'], save(I, o, r), ' '.join(o2))
        if s in ('Solved', 'Proven unsolvable') and q['status'] >= 0: c.n('verdicts_compared'); c.seen('configs', tuple(o[:-2]))
        if nontriv(I, q): c.nontrivial.append(hash(htn.text(I)))
    if i < 3: c.sample = dict(options=' '.join(o), reference=q)
ADM = ['zero', 'rc2(lmc;cost)', 'rc2(lmc;cost;no)', 'rc2(h=lmc;est=cost;taskcount=no)', 'rc2(filter;cost)']
def p03(c, i, seed, ctx):
    rng = random.Random(seed); path = mkpath(ctx)
    I, q = make(rng, ctx['ref'], path, over=dict(cost=rng.choice(['zero', 'small', 'large', 'large', 'unit'])), want=lambda q: q['status'] == 1 and q['exact'], profs=['choice', 'choice+po', 'choice+to_cyc', 'choice+parseq', 'choice+po_cyc', 'choice+mprec'] + PROFS)
    if not (q['status'] == 1 and q['exact']): c.n('reference_without_exact_optimum'); return
    for k in range(4):
        o = ['-H', rng.choice(ADM if k else ADM[1:3])]
        for _ in range(rng.choice([0, 0, 1, 2])): o += ['-H', rng.choice(HEUR)]
        w = 1 if rng.random() < 0.7 else rng.choice([2, 3, 5])
        o += ['-g', 'action', '-w', str(w)] + visi(rng) + ['-S', str(rng.randint(0, 999))]
        r = go(ctx['exe'], o, path, cpu=1); s = conv(c, r, I, [ctx['exe']] + o, 'P03')
        if s != 'Solved' or approx(o, r.out): continue
        ps = htn.parse_plans(r.out)
        if len(ps) != 1 or htn.validate(I, ps[0]): c.bad('invalid-plan', 'plan is not valid', save(I, o, r), ' '.join(o)); continue
        cost = ps[0].cost; c.n('optima_compared' if w == 1 else 'bounds_compared')
        if q['nodes'] > 20: c.nontrivial.append(hash(htn.text(I)))
        if cost > w * q['cost']: c.bad('suboptimal', 'plan cost %d, optimum %d, weight %d' % (cost, q['cost'], w), save(I, o, r), ' '.join(o))
        if cost < q['cost']: raise common.HarnessError('reference optimum %d beaten by %d\n%s' % (q['cost'], cost, htn.text(I)))
        if i < 3: c.sample = dict(options=' '.join(o), cost=cost, optimum=q['cost'])
def p04(c, i, seed, ctx):
    rng = random.Random(seed); path = mkpath(ctx)
    I, q = make(rng, ctx['ref'], path, over=dict(cost=rng.choice(['large', 'small', 'zero'])), want=lambda q: q['status'] == 1)
    for _ in range(3):
        o = config(rng) ; r = go(ctx['exe'], o, path, cpu=1); s = conv(c, r, I, [ctx['exe']] + o, 'P04')
        if s != 'Solved': continue
        ps = htn.parse_plans(r.out); L = num(r'^- Found solution of length (-?\d+)', r.out); C = num(r'^- Total costs of actions: (-?\d+)', r.out)
        if len(ps) != 1: c.bad('no-plan', 'no plan printed', save(I, o, r), ' '.join(o)); continue
        names = {a.name: a.cost for a in I.actions}; c.n('plans_compared')
        cost = sum(names.get(n, 0) for _, n in ps[0].acts)
        if len(ps[0].acts) >= 2 and cost: c.nontrivial.append(hash((htn.text(I), ps[0].raw)))
        if L != len(ps[0].acts) + len(ps[0].dec): c.bad('length', 'reported length %s, printed plan has %d actions and %d decompositions' % (L, len(ps[0].acts), len(ps[0].dec)), save(I, o, r), ' '.join(o))
        if C != cost: c.bad('cost', 'reported cost %s, printed plan costs %d' % (C, cost), save(I, o, r), ' '.join(o))
        r2 = go(ctx['exe'], o + ['-N'], path); c.evals += 1
        if r2.timeout or st(r2.out) == 'Timeout': continue
        f = lambda x: (st(x), num(r'^- Found solution of length (-?\d+)', x), num(r'^- Total costs of actions: (-?\d+)', x))
        if f(r.out) != f(r2.out): c.bad('no-plan-output', '-N changes the answer: %s vs %s' % (f(r.out), f(r2.out)), save(I, o, r2), ' '.join(o))
        if '==>' in r2.out: c.bad('no-plan-output', '-N still prints the plan', save(I, o, r2), ' '.join(o))
        c.n('silent_runs_compared')
        if i < 3: c.sample = dict(options=' '.join(o), length=L, cost=C)
DROP = re.compile(r'time|Time|seconds|nodes per second|Reading input|nodes/sec|memory|Memory|\bRAM\b')
NUMT = re.compile(r'[0-9][0-9.e+-]* ?(ms|s|us)\b')
def norm(t): return '\n'.join(NUMT.sub('<t>', l) for l in t.split('\n') if not DROP.search(l))
def p05(c, i, seed, ctx):
    rng = random.Random(seed); path = mkpath(ctx)
    I, q = make(rng, ctx['ref'], path)
    mode = rng.random()
    if mode < 0.75: o = config(rng); 
    elif mode < 0.92: o = ['-s', '-S', str(rng.randint(0, 99))] + [x for x in ('-B', '-M', '-m', '-o') if rng.random() < 0.4] + ['-P', rng.choice(['none', 'ff', 'h2'])]
    else: o = ['-2', '--onlyGenerate', '--transtype', rng.choice(['push', 'to', 'postrips', 'pocond', 'parallelseq'])]
    base = None
    for k in range(3):
        env = {'MALLOC_PERTURB_': rng.choice([0, 85, 170, 255, 3]), 'PAD': 'x' * rng.randint(0, 3000), 'IPASIR_SEED': 5, 'IPASIR_MAXSOLVE': 5, 'IPASIR_MAXCONF': 20000, 'MALLOC_ARENA_MAX': rng.choice(['1', '4']), 'MALLOC_TOP_PAD_': rng.choice([0, 4096, 131072])}
        oo = list(o); stdin = None
        if '-2' in o: sf = path + '.sas'; oo += ['--sasfile', sf]
        oo += ['-t', rng.choice(['1', '2', '3'])]
        cmd = [ctx['exe']] + oo
        if rng.random() < 0.4: stdin = htn.text(I)
        else: cmd = cmd + [path]
        r = run(cmd, env=env, stdin=stdin); c.evals += 1
        if r.timeout or st(r.out) == 'Timeout': c.n('runs_without_result'); return
        if r.rc < 0: c.bad('abnormal-exit', 'engine ended with status %d' % r.rc, save(I, o, r), ' '.join(cmd)); return
        t = norm(r.out)
        if '-2' in o:
            if os.path.exists(sf): t += open(sf).read(); os.remove(sf)
        c.n('runs_compared_sat' if '-s' in o else 'runs_compared_translation' if '-2' in o else 'runs_compared_progression')
        if base is None: base = (t, cmd, env)
        elif t != base[0]:
            import difflib
            d = '\n'.join(list(difflib.unified_diff(base[0].split('\n'), t.split('\n'), lineterm='', n=0))[:12])
            f = save(I, o, r); f['first.txt'] = base[0]; f['second.txt'] = t
            c.bad('not-reproducible', 'outputs differ: ' + d, f, '%s | env %s vs %s' % (' '.join(cmd), base[2], env)); return
    if nontriv(I, q): c.nontrivial.append(hash((htn.text(I), tuple(o))))
    if i < 3: c.sample = dict(options=' '.join(o), lines_compared=base[0].count('\n'))
# problems whose search never ends
def endless(rng):
    I = htn.Inst(); I.facts = ['f0', 'f1', 'g']; I.vars = [(k, k, 'v%d' % k) for k in range(3)]; n = rng.randint(2, 5)
    I.actions = [htn.Action('a%d' % k, rng.randint(1, 3), [], [rng.randrange(2)] if k % 2 else [], [rng.randrange(2)] if k % 3 == 0 else []) for k in range(n)]
    for a in I.actions: a.dele = [x for x in a.dele if x not in a.add]
    I.actions.append(htn.Action('never', 1, [2], [0], [])); I.abs = ['__top', 'T']; nv = n; T = n + 2; I.init = n + 1; I.s0 = [0]; I.goal = []
    k = rng.choice(['rec', 'po'])
    I.methods = [htn.Method('__top_method', n + 1, [T], [])] + [htn.Method('r%d' % j, T, [j, T, nv] if rng.random() < .5 else [j, T, j, nv], [(0, 1), (1, 2)]) for j in range(n)] + [htn.Method('stop', T, [nv], [])]
    for m in I.methods:
        if len(m.subs) == 4: m.ord = [(0, 1), (1, 2), (2, 3)] if k == 'rec' else [(0, 1)]
    return I
def p06(c, i, seed, ctx):
    rng = random.Random(seed); path = mkpath(ctx)
    if i % 4 != 3:
        I = endless(rng); htn.write(I, path); t = rng.choice([1, 1, 2, 3]) if i % 4 else 0
        h = rng.choice(['zero', 'modDepth', 'cost', 'mixedModDepth'])
        o = ['-H', h, '-g', rng.choice(['path', 'action', 'mixed', 'none'])] + (['--suboptimal'] if rng.random() < .4 else []) + visi(rng) + (['-t', str(t)] if t else ['-t', '0'])
        o = [x for x in o if x not in ('-V', '-O', '--noGIcheck')]
        t0 = time.time(); r = run([ctx['exe']] + o + [path], cpu=40 if t else 4, wall=(60 if t else 10), mem_gb=12); w = time.time() - t0; c.evals += 1
        if not t:
            # limit 0 means no limit: the search must not end by itself
            if not r.timeout and st(r.out) is not None: c.bad('zero-limit', 'limit 0 ended the search after %.1fs: %s' % (w, st(r.out)), save(I, o, r), ' '.join(o))
            c.n('unlimited_runs'); return
        if r.rc in (-6, 134, -9) and 'bad_alloc' in r.err: c.n('out_of_memory'); return
        s = st(r.out); c.n('limited_runs'); c.nontrivial.append(hash((htn.text(I), tuple(o))))
        if r.timeout: c.bad('not-stopped', 'still running %.0fs after start with limit %d' % (w, t), save(I, o, r), ' '.join(o)); return
        if s != 'Timeout': c.bad('wrong-status', 'status %s instead of Timeout' % s, save(I, o, r), ' '.join(o)); return
        m = re.search(r'Search time ([0-9.e+-]+) seconds', r.out); se = float(m.group(1)) if m else w
        if w < t - 0.05 or se < t - 0.05: c.bad('too-early', 'stopped after %.2fs (search time %.2fs) with limit %d' % (w, se, t), save(I, o, r), ' '.join(o))
        if se > t + 12: c.bad('too-late', 'search time %.2fs with limit %d' % (se, t), save(I, o, r), ' '.join(o))
        c.n('timeouts_observed')
        if i < 8: c.sample = dict(options=' '.join(o), limit=t, wall=round(w, 2))
    else:
        for _ in range(6):
            I, q = make(rng, ctx['ref'], path, tries=2)
            if q['status'] < 0 or q['nodes'] > 500: continue
            o = ['-H', rng.choice(['zero', 'rc2(ff)']), '-g', 'path'] + [['-t', '0'], ['-t', '60'], []][rng.randrange(3)]
            r = run([ctx['exe']] + o + [path], cpu=4); c.evals += 1
            if r.timeout: continue
            c.n('short_runs')
            if st(r.out) == 'Timeout': c.bad('spurious-timeout', 'timeout reported in a short search', save(I, o, r), ' '.join(o))
INFO = {
 'P01': (p01, (500, 12000), 'random grounded HTN problems (33 profiles) x random progression options; non-trivial = printed plan with >=2 actions, distinct by input and plan', ['plans_validated', 'decompositions_checked']),
 'P02': (p02, (450, 15000), 'random problems x 5 random option sets, verdict compared with an exhaustive reference solver; non-trivial = reference expanded >4 nodes, distinct inputs', ['verdicts_compared', 'status_Proven_unsolvable', 'status_Solved']),
 'P03': (p03, (500, 15000), 'random problems with costs x admissible configurations, plan cost compared with the exact optimum; non-trivial = reference expanded >20 nodes', ['optima_compared', 'bounds_compared']),
 'P04': (p04, (400, 9000), 'random problems x random options; reported length/cost against printed plan and model; non-trivial = >=2 actions and positive cost', ['plans_compared', 'silent_runs_compared']),
 'P05': (p05, (500, 9000), 'the same run three times under different malloc fill patterns, environment sizes, time limits and stdin/file input; non-trivial = reference expanded >4 nodes', ['runs_compared_progression', 'runs_compared_sat']),
 'P06': (p06, (32, 200), 'endless problems (recursion without reachable goal) under limits 0-3 s, and short searches under limits that must not trigger; non-trivial = distinct endless run', ['timeouts_observed', 'short_runs', 'unlimited_runs']),
}
def main():
    prop = sys.argv[1]; f, (a, b), rule, need = INFO[prop]
    C = Check(prop, rule, assumptions=['problems are in grounder normal form (methods non-empty, SAS+ groups exactly-one, no add/delete conflict)', 'small problems: at most ~20 facts, ~20 actions, plans up to ~12 actions'])
    ctx = dict(exe=engine(), ref=Ref(build.plain('reftool', 'lib/reftool.cpp')), tmp=C.tmp)
    n = C.n(a, b); k = (8 if n < 100 else 4)
    C.cases(f, n, ctx); C.finish(need)
common.main_guard(main)
