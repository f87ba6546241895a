"""B01, B02: monitors for symbolic planning with decision diagrams."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, Ref
import prog_util as U
PROFS = ['to', 'to_cyc', 'deep', 'to+tight', 'choice+to', 'choice+to_cyc', 'to+mprec', 'to_cyc+tight', 'to+sas', 'to+strips', 'to+zero', 'to+mprec+strips', 'to_cyc+zero', 'choice+to+zero', 'deep+tight', 'to_cyc+sas']
def make(rng, ctx, path, profs, want):
    "as U.make, with at most two subtasks per method"
    best = None
    for _ in range(3):
        p = rng.choice(profs); I = htn.binarise(htn.gen(rng, p), rng); htn.write(I, path); q = ctx['ref'].solve(path, 8000, -1, 10, False)
        s = min(q['nodes'], 300) ** 0.5 + 4 * max(0, q['len']) - (30 if q['status'] == -1 else 0) + rng.random() * 3 + (0 if want(q) else -200)
        if best is None or s > best[0]: best = (s, I, q)
    htn.write(best[1], path); return best[1], best[2]
def call(ctx, path, rng): return U.go(ctx['exe'], ['-b', '-S', str(rng.randint(0, 99))], path, cpu=6, wall=30)
def ok(c, r, I):
    c.evals += 1
    if r.timeout: c.n('runs_stopped_by_cpu_limit'); return False
    if r.rc != 0: c.bad('abnormal-exit', 'engine ended with status %d: %s' % (r.rc, (r.err or r.out)[-300:]), U.save(I, '', r), '-b'); return False
    return True
def b01(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx)
    I, q = make(rng, ctx, path, PROFS, lambda q: q['status'] == 1)
    if q['status'] != 1: c.n('not_solvable'); return
    r = call(ctx, path, rng)
    if not ok(c, r, I): return
    ps = htn.parse_plans(r.out); c.n('plans', len(ps)); c.seen('profiles', I.tags['profile'])
    for p in ps:
        e = htn.validate(I, p); c.n('plans_validated'); c.n('decompositions_checked', len(p.dec))
        if len(p.acts) >= 2: c.nontrivial.append(hash((htn.text(I), p.raw)))
        if e: c.bad('invalid-plan', e, U.save(I, '', r), '-b'); return
    if i < 3: c.sample = dict(output=r.out[-300:])
def b02(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); unsolv = i % 4 == 0
    I, q = make(rng, ctx, path, [p + '+unsolv' for p in PROFS] if unsolv else PROFS, lambda q: q['status'] == (0 if unsolv else 1) and q['exact'])
    if q['status'] == -1 or (q['status'] == 1 and not q['exact']): c.n('reference_unknown'); return
    r = call(ctx, path, rng)
    if not ok(c, r, I): return
    ps = htn.parse_plans(r.out); un = 'Problem is unsolvable' in r.out
    if q['status'] == 0:
        if ps: c.bad('plan-for-unsolvable', 'plan printed for an unsolvable problem', U.save(I, '', r), '-b')
        if un: c.n('unsolvability_verdicts')
        else: c.bad('no-verdict', 'ended without verdict: ' + r.out[-200:], U.save(I, '', r), '-b')
        return
    if un: c.bad('wrong-unsolvable', 'a solution of cost %d exists' % q['cost'], U.save(I, '', r), '-b'); return
    if not ps: c.bad('no-plan', 'no plan printed: ' + r.out[-300:], U.save(I, '', r), '-b'); return
    c.n('optimal_costs_compared'); c.nontrivial.append(hash(htn.text(I)))
    by = {a.name: a.cost for a in I.actions}; cost = sum(by.get(n, 0) for _, n in ps[0].acts)
    if cost != q['cost']: c.bad('suboptimal', 'plan costs %s, optimum is %d' % (cost, q['cost']), U.save(I, '', r), '-b'); return
    m = re.search(r'Cost: search=(-?\d+) extracted=(-?\d+)', r.out); g = re.search(r'Goal reached! Length=(\d+)', r.out)
    if not m or not g or {int(m.group(1)), int(m.group(2)), int(g.group(1))} != {cost}: c.bad('printed-cost', 'printed costs %s / %s, plan costs %d' % (m and m.groups(), g and g.group(1), cost), U.save(I, '', r), '-b'); return
    if i < 5: c.sample = dict(cost=q['cost'], profile=I.tags['profile'])
COLLIDE = ['collide', 'collide+zero', 'collide+tight', 'collide+large', 'collide+to_cyc']
def collide(c, i, seed, ctx):
    "the search itself on problems that reach the same states again and again: extraction often fails there (known finding B02-extraction), so that a plan is not demanded"
    rng = random.Random(seed); path = U.mkpath(ctx); unsolv = i % 5 == 0
    I, q = make(rng, ctx, path, [p + '+unsolv' for p in COLLIDE] if unsolv else COLLIDE, lambda q: q['status'] == (0 if unsolv else 1) and q['exact'])
    if q['status'] == -1 or (q['status'] == 1 and not q['exact']): c.n('reference_unknown'); return
    r = call(ctx, path, rng); c.evals += 1
    if r.timeout: c.n('runs_stopped_by_cpu_limit'); return
    un = 'Problem is unsolvable' in r.out; g = re.search(r'Goal reached! Length=(\d+)', r.out); ps = htn.parse_plans(r.out)
    if q['status'] == 0:
        if g or ps: c.bad('plan-for-unsolvable', 'goal reached for an unsolvable problem', U.save(I, '', r), '-b')
        elif not un: c.bad('no-verdict', 'ended without verdict: ' + r.out[-200:], U.save(I, '', r), '-b')
        c.n('collide_unsolvable'); return
    if un: c.bad('wrong-unsolvable', 'a solution of cost %d exists' % q['cost'], U.save(I, '', r), '-b'); return
    if not g: c.bad('no-goal', 'search ended without verdict: status %d %s' % (r.rc, r.out[-300:]), U.save(I, '', r), '-b'); return
    c.n('collide_costs_compared'); c.nontrivial.append(hash(htn.text(I)))
    if int(g.group(1)) != q['cost']: c.bad('suboptimal', 'search claims cost %s, optimum is %d' % (g.group(1), q['cost']), U.save(I, '', r), '-b'); return
    if not ps: c.n('collide_not_extracted'); return
    e = htn.validate(I, ps[0]); by = {a.name: a.cost for a in I.actions}; cost = sum(by.get(n, 0) for _, n in ps[0].acts); c.n('collide_plans')
    if e: c.bad('invalid-plan', e, U.save(I, '', r), '-b')
    elif cost != q['cost']: c.bad('suboptimal', 'plan costs %d, optimum is %d' % (cost, q['cost']), U.save(I, '', r), '-b')
CORPUS = os.path.join(common.VERIF, 'corpus', 'B02')
def corpus(c, i, seed, ctx):
    "problems on which a defect was found"
    fn = os.path.join(CORPUS, sorted(os.listdir(CORPUS))[i]); q = ctx['ref'].solve(fn, 100000, -1, 12, False); r = U.go(ctx['exe'], ['-b'], fn, cpu=20)
    t = {'input.htn': open(fn).read(), 'output': r.out}; c.evals += 1
    if r.rc != 0 or q['status'] != 1 or not q['exact']: c.bad('corpus', 'status %d %s' % (r.rc, q), t, '-b'); return
    ps = htn.parse_plans(r.out); m = re.search(r'Cost: search=(-?\d+) extracted=(-?\d+)', r.out); c.n('corpus_problems')
    if not ps: c.bad('no-plan', 'no plan printed for %s: %s' % (os.path.basename(fn), r.out[-100:]), t, '-b')
    elif not m or {int(x) for x in m.groups()} != {q['cost']}: c.bad('suboptimal', '%s, optimum %d' % (m and m.groups(), q['cost']), t, '-b')
INFO = {'B01': (b01, (1000, 20000), 'random totally ordered problems; non-trivial = distinct printed plan with >=2 actions', ['plans_validated']),
        'B02': (b02, (1000, 20000), 'random totally ordered problems with exhaustively computed optimum; non-trivial = distinct solved problem', ['optimal_costs_compared', 'unsolvability_verdicts'])}
def main():
    prop = sys.argv[1]; f, (a, b), rule, need = INFO[prop]
    C = Check(prop, rule, assumptions=['problems are in grounder normal form'])
    ctx = dict(exe=build.build('engine-bdd', 'fast', sat=True, bdd=True), ref=Ref(build.plain('reftool', 'lib/reftool.cpp')), tmp=C.tmp)
    if prop == 'B02': C.cases(corpus, len(os.listdir(CORPUS)), ctx, limit_viol=99)
    if prop == 'B02': C.cases(collide, C.n(700, 20000), ctx); need = need + ['collide_costs_compared', 'collide_unsolvable', 'collide_plans']
    C.cases(f, C.n(a, b), ctx, limit_viol=int(os.environ.get('VERIF_LIMIT', '3'))); C.finish(need)
common.main_guard(main)
