"""S01-S03: monitors for SAT-based planning. The SAT solver is a stand-in that returns random models."""
import math, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, Ref, run
import prog_util as U
PROFS = ['to', 'po', 'mixed', 'to_cyc', 'po_cyc', 'parseq', 'acyc', 'deep', 'wide', 'strips', 'sas', 'mprec', 'tight', 'unsolv', 'same', 'choice', 'to+tight', 'po+mprec', 'to+mprec', 'wide+same',
         'choice+po', 'choice+to_cyc', 'to_cyc+tight', 'po_cyc+tight', 'to_cyc+sas', 'to_cyc+strips', 'acyc+mprec', 'mixed+mprec+tight', 'to+deep+tight', 'wide+tight', 'poch', 'poch+tight', 'poch+mprec', 'poch+same', 'effy+to', 'effy+to_cyc', 'effy+deep', 'effy+po']
FLAGS = ('-B', '-M', '-m')
def opts(rng, extra=()):
    o = ['-s'] + [x for x in FLAGS + tuple(extra) if rng.random() < 0.4] + ['-P', rng.choice(['none', 'ff', 'h2'])]
    return o
def depthblocks(out):
    "list of (depth, cost or None, verdict, text)"
    res = []
    parts = re.split(r'(?=Generating formula for depth )', re.sub(r'\x1b\[[0-9;]*m', '', out))[1:]
    for p in parts:
        m = re.match(r'Generating formula for depth (\d+)(?: and cost (-?\d+))?\s', p); v = None
        if not m: continue
        m2 = re.search(r'Solver state: (SAT|UNSAT)', p)
        if m2: v = m2.group(1)
        elif 'Initial abstract task is pruned' in p: v = 'UNSAT'
        res.append((int(m.group(1)), None if m.group(2) is None else int(m.group(2)), v, p))
    return res
def finished(c, r, I, o):
    "False if the run tells nothing; crashes are violations"
    c.evals += 1
    if r.timeout: c.n('runs_stopped_by_cpu_limit'); return bool(r.out)
    if r.rc in (77, 78): c.n('runs_ended_by_solver_budget'); return True
    if r.rc == 80: c.bad('bad-literal', 'the formula contains an invalid literal', U.save(I, o, r), ' '.join(o)); return False
    if r.rc == 79: raise common.HarnessError('SAT stand-in: model check failed')
    if r.rc == 0 and 'Solver state' not in r.out.rsplit('Generating formula', 1)[-1] and 'Not yet implemented' in r.out: c.bad('gave-up', 'planner gave up: ' + re.search('.*Not yet implemented.*', r.out).group(0), U.save(I, o, r), ' '.join(o)); return False
    if r.rc != 0: c.bad('abnormal-exit', 'engine ended with status %d: %s' % (r.rc, (r.err or r.out)[-300:]), U.save(I, o, r), ' '.join(o)); return False
    return True
def env(rng, solves=7): return {'IPASIR_SEED': rng.randint(0, 10**6), 'IPASIR_MAXSOLVE': solves, 'IPASIR_MAXCONF': 15000}
def s01(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx)
    I, q = U.make(rng, ctx['ref'], path, profs=PROFS, want=lambda q: q['status'] == 1, tries=3)
    if q['status'] != 1: c.n('not_solvable'); return
    for _ in range(4):
        o = opts(rng, ('-o',)); r = U.go(ctx['exe'], o, path, cpu=3, env=env(rng))
        if not finished(c, r, I, o): continue
        for p in htn.parse_plans(r.out):
            if r.timeout and 'unterminated plan' in p.problems: continue
            e = htn.validate(I, p); c.n('plans_validated'); c.n('decompositions_checked', len(p.dec))
            if len(p.acts) >= 2: c.nontrivial.append(hash((htn.text(I), p.raw)))
            if e: c.bad('invalid-plan', e, U.save(I, o, r), ' '.join(o)); break
        c.seen('configs', tuple(o))
        if i < 3: c.sample = dict(options=' '.join(o), output=r.out[-400:])
def s02(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx)
    I, q = U.make(rng, ctx['ref'], path, profs=PROFS, want=(lambda q: q['status'] == 1) if i % 4 else (lambda q: q['status'] == 0), tries=3)
    ref = {}
    for k in range(4):
        o = opts(rng); r = U.go(ctx['exe'], o, path, cpu=2 if q['status'] == 1 else 1, env=env(rng))
        if not finished(c, r, I, o): continue
        for d, _, v, _ in depthblocks(r.out[:400000]):
            if v is None: continue
            if d > 7: break
            if d not in ref: ref[d] = ctx['ref'].solve(path, 20000, d, 20)['status']
            if ref[d] == -1: c.n('reference_unknown'); continue
            c.n('depths_compared_' + v); c.seen('configs', tuple(o))
            if d > 1: c.nontrivial.append(hash((htn.text(I), d)))
            if (v == 'SAT') != (ref[d] == 1): c.bad('wrong-%s' % v, 'depth %d: formula is %s, reference says %s' % (d, v, 'solvable' if ref[d] == 1 else 'unsolvable'), U.save(I, o, r), ' '.join(o)); break
        if i < 3: c.sample = dict(options=' '.join(o), verdicts=[(d, v) for d, _, v, _ in depthblocks(r.out)], reference=ref)
def scaled(x): return int(1 + math.log(x)) if x else 0
def s03(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx)
    I, q = U.make(rng, ctx['ref'], path, profs=['choice', 'choice+po', 'choice+to', 'choice+to_cyc', 'choice+mprec', 'to', 'po', 'choice+wide', 'choice+parseq', 'acyc', 'mixed', 'poch', 'poch+mprec'], over=dict(cost=rng.choice(['large', 'large', 'small', 'unit'])), want=lambda q: q['status'] == 1, tries=3)
    if q['status'] != 1: c.n('not_solvable'); return
    J = htn.Inst(); J.__dict__.update(I.__dict__); J.actions = [htn.Action(a.name, scaled(a.cost), a.prec, a.add, a.dele) for a in I.actions]
    sp = path + '.scaled'; htn.write(J, sp); opt = {}
    for k in range(3):
        o = opts(rng) + (['-o'] if k != 1 else []) + (['--orderOutput'] if rng.random() < 0.7 or k == 1 else [])
        r = U.go(ctx['exe'], o, path, cpu=3, env=env(rng, 12))
        if not finished(c, r, I, o): continue
        save = U.save(I, o, r); cmd = ' '.join(o); blocks = depthblocks(r.out); last = None
        cost = {a.name: a.cost for a in I.actions}; tcost = dict(cost)
        for d, b, v, t in blocks:
            if v is None: break
            if b is not None: # bounded optimisation step: exact semantics of the bound
                if d not in opt:
                    z = ctx['ref'].solve(sp, 20000, d, 20); opt[d] = (None if z['status'] == -1 or (z['status'] == 1 and not z['exact']) else (z['cost'] if z['status'] == 1 else 10**9))
                if opt[d] is not None:
                    c.n('bounded_steps_compared_' + v); c.nontrivial.append(hash((htn.text(I), d, b)))
                    if (v == 'SAT') != (opt[d] <= b): c.bad('wrong-bound', 'depth %d, scaled cost bound %d: %s, but the cheapest such plan costs %s' % (d, b, v, opt[d]), save, cmd); return
            if v != 'SAT': continue
            ps = htn.parse_plans(t); m = re.search(r'Total cost of solution: (-?\d+) true cost: (-?\d+)', t)
            if len(ps) != 1 or ps[0].problems or m is None:
                if not (r.timeout or r.rc): c.bad('no-plan', 'satisfiable but no plan printed', save, cmd)
                return
            p = ps[0]; e = htn.validate(I, p)
            if e: c.bad('invalid-plan', e, save, cmd); return
            sc, tc = int(m.group(1)), int(m.group(2)); c.n('plans_checked')
            if tc != p.cost: c.bad('true-cost', 'printed true cost %d, actions cost %d' % (tc, p.cost), save, cmd); return
            if sc != sum(scaled(cost[n]) for _, n in p.acts): c.bad('scaled-cost', 'printed scaled cost %d, actions have %d' % (sc, sum(scaled(cost[n]) for _, n in p.acts)), save, cmd); return
            if b is not None:
                if sc > b: c.bad('bound-exceeded', 'scaled cost %d over bound %d' % (sc, b), save, cmd); return
                if last is not None and sc >= last: c.bad('not-decreasing', 'scaled cost %d after %d' % (sc, last), save, cmd); return
                c.n('optimisation_plans')
            last = sc
            if '--orderOutput' in o:
                got = set(); seen = set(); ids = {x for x, _ in p.acts}
                for line in t[t.index('<==') + 3: t.index('Total cost of solution')].strip().split('\n'):
                    w = line.split()
                    if not w: continue
                    if not all(x.lstrip('-').isdigit() for x in w): c.bad('order-format', 'unreadable order line ' + line, save, cmd); return
                    w = [int(x) for x in w]; seen.add(w[0])
                    if w[1] != len(w) - 2: c.bad('order-format', 'wrong count in ' + line, save, cmd); return
                    got |= {(w[0], y) for y in w[2:]}
                c.n('order_relations_compared'); c.n('order_pairs', len(got))
                if seen != ids: c.bad('order-actions', 'order lines for %s, plan has %s' % (sorted(seen), sorted(ids)), save, cmd); return
                e = htn.order_mismatch(I, p, got)
                if e: c.bad('order', e, save, cmd); return
            if i < 3: c.sample = dict(options=cmd, costs=(sc, tc))
INFO = {
 'S01': (s01, (1100, 20000), 'random solvable problems x random SAT options x random models; non-trivial = distinct printed plan with >=2 actions', ['plans_validated', 'decompositions_checked']),
 'S02': (s02, (400, 12000), 'random problems; every depth the planner decides is compared with an exhaustive depth-bounded reference; non-trivial = distinct (problem, depth>1)', ['depths_compared_SAT', 'depths_compared_UNSAT']),
 'S03': (s03, (400, 10000), 'random problems with costs, optimisation and order output; bounded steps against the reference optimum; non-trivial = distinct (problem, depth, bound)', ['plans_checked', 'optimisation_plans', 'order_relations_compared', 'bounded_steps_compared_UNSAT', 'bounded_steps_compared_SAT']),
}
def main():
    prop = sys.argv[1]; f, (a, b), rule, need = INFO[prop]
    C = Check(prop, rule, assumptions=['problems are in grounder normal form', 'the SAT solver is a CDCL stand-in (every model is checked against the clauses); unsatisfiability is trusted'])
    ctx = dict(exe=U.engine(), ref=Ref(build.plain('reftool', 'lib/reftool.cpp')), tmp=C.tmp)
    C.cases(f, C.n(a, b), ctx); C.finish(need)
if __name__ == "__main__": common.main_guard(main)
