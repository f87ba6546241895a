"""H04, H05: landmarks and delete-relaxed reachability of random search nodes against their definitions (harness/lm.cpp)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, run
from nodes import parse, SAN
import prog_util as U
INFO = {
 'H04': ('h04', 25, (3000, 40000), 'derived_landmarks', ['causal_comparisons', 'restricted_comparisons', 'andor_comparisons', 'local_comparisons', 'local_landmarks', 'iterations', 'derived_landmarks', 'unreachable_targets'], 'landmark generators on search nodes of random walks against "underivable without it"; non-trivial = run with a landmark that is neither a target nor initially true'),
 'H05': ('h05', 25, (5000, 80000), 'unreachable_nodes', ['reachability_compared', 'unreachable_nodes', 'useful_facts'], 'planning graph on search nodes of random walks, restricted to random task sets, against a fixpoint; non-trivial = run with something unreachable'),
}
def case(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); mode, steps, _, nt, _, _ = INFO[ctx['prop']]; p = rng.choice(U.PROFS); I = htn.gen(rng, p); htn.write(I, path); s = rng.randint(1, 10**9)
    cmd = [ctx['exe'], mode, path, str(s), str(steps)]; r = run(cmd, cpu=40, env=SAN, mem_gb=None); cn = parse(c, r, ctx['prop'], {'input.htn': htn.text(I)}, ' '.join(cmd[1:])); c.seen('profiles', p)
    if cn is None: return
    if cn.get(nt): c.nontrivial.append(hash((htn.text(I), s)))
    if i < 3: c.sample = dict(profile=p, **cn)
def main():
    prop = sys.argv[1]; mode, steps, (a, b), nt, need, rule = INFO[prop]
    C = Check(prop, rule, assumptions=['problems are in grounder normal form', 'the landmark generators are exercised through their classes: only builds with CPLEX use them in a search'])
    ctx = dict(exe=build.build('lm', 'asan', harness=['harness/lm.cpp']), tmp=C.tmp, prop=prop)
    C.cases(case, C.n(a, b), ctx, limit_viol=int(os.environ.get('VERIF_LIMIT', '3'))); C.finish(need)
if __name__ == '__main__': common.main_guard(main)
