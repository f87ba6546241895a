"""S06 decomposition trees of the SAT planner (harness/pdt.cpp)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, run
from nodes import parse, SAN
from sat import PROFS as SATPROFS
PROFS = SATPROFS + 3 * ['sog', 'sog+same', 'sog+mixed', 'many+to', 'many', 'chain+many+to', 'sog+to', 'crowd+to', 'crowd+to'] + ['crowd']
def case(c, i, seed, ctx):
    rng = random.Random(seed); path = os.path.join(ctx['tmp'], '%d.htn' % os.getpid()); p = rng.choice(PROFS); I = htn.gen(rng, p); htn.write(I, path); s = rng.randint(1, 10**9)
    cmd = [ctx['exe'], path, str(s)]; r = run(cmd, cpu=60, env=SAN, mem_gb=None); cn = parse(c, r, 'S06', {'input.htn': htn.text(I)}, ' '.join(cmd[1:])); c.seen('profiles', p)
    if cn is None: return
    if cn.get('nodes_expanded', 0) > 1: c.nontrivial.append(hash((htn.text(I), s)))
    if i < 3: c.sample = dict(profile=p, **cn)
def main():
    C = Check('S06', 'random problems; trees expanded level by level as the planner does, with and without separate leafs for actions without effects; non-trivial = more than one node expanded')
    ctx = dict(exe=build.build('pdt', 'asan', sat=True, harness=['harness/pdt.cpp']), tmp=C.tmp)
    C.cases(case, C.n(2200, 60000), ctx)
    C.finish(['nodes_expanded', 'methods', 'ordered_pairs', 'unordered_pairs', 'inherited', 'leafs_ordered', 'leafs_unordered', 'pruned', 'kept', 'prunings', 'executions_explored', 'pruned_relaxed', 'pruned_invariants', 'separate_effectless_leafs', 'partial_order', 'total_order'])
if __name__ == '__main__': common.main_guard(main)
