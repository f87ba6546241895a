"""S07 formulas of the SAT planner (harness/formula.cpp)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, run
from nodes import parse, SAN
from sat import PROFS as SATPROFS
PROFS = SATPROFS + ['sog', 'sog+same', 'sog+mixed', 'many+to', 'many', 'chain+many+to', 'sog+to']
def case(c, i, seed, ctx):
    rng = random.Random(seed); path = os.path.join(ctx['tmp'], '%d.htn' % os.getpid()); p = rng.choice(PROFS); I = htn.gen(rng, p); htn.write(I, path); s = rng.randint(1, 10**9)
    cmd = [ctx['exe'], path, str(s)]; r = run(cmd, cpu=60, env=SAN, mem_gb=None); cn = parse(c, r, 'S07', {'input.htn': htn.text(I)}, ' '.join(cmd[1:])); c.seen('profiles', p)
    if cn is None: return
    if cn.get('solutions_asked'): c.nontrivial.append(hash((htn.text(I), s)))
    if i < 3: c.sample = dict(profile=p, **cn)
def main():
    C = Check('S07', 'random problems and options; the formula of every depth, as recorded by a stand-in solver, is asked for a model with exactly the actions of decompositions of that depth at the leafs; non-trivial = some decomposition could be executed', assumptions=['unsatisfiability is judged by our own solver'])
    ctx = dict(exe=build.build('formula', 'fast', sat=True, mini=False, harness=['harness/formula.cpp']), tmp=C.tmp)
    C.cases(case, C.n(1200, 30000), ctx)
    C.finish(['formulas', 'clauses', 'decompositions', 'executable', 'complete_enumerations', 'solutions_asked', 'non_solutions_asked', 'non_decompositions_asked', 'declared_unsolvable', 'block_compression', 'mutexes', 'pruning_0', 'pruning_1', 'pruning_2', 'partial_order', 'total_order', 'separate_effectless_leafs'])
if __name__ == '__main__': common.main_guard(main)
