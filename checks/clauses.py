"""S05: the clause helpers of the SAT planner, their emitted clauses recorded by a stand-in solver and all models projected to the given variables."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common
from common import Check, run
from nodes import parse
def case(c, i, seed, ctx):
    s = seed % 10**12; cmd = [ctx['exe'], str(s), '150']
    r = run(cmd, cpu=60); cn = parse(c, r, 'S05', {}, ' '.join(cmd[1:]))
    if cn is None: return
    for k in cn:
        if k.startswith('call_'): c.seen('helpers', k)
    if cn.get('contingent_formulas'): c.nontrivial.append(s)
    if i < 3: c.sample = cn
def main():
    C = Check('S05', 'random mixtures of helper calls (150 formulas of up to 9 variables and 6 large cardinality constraints per process); the recorded clauses are solved for every assignment of the given variables; non-trivial = process with contingent formulas')
    ctx = dict(exe=build.build('clauses', 'fast', sat=True, mini=False, harness=['harness/clauses.cpp']))
    C.cases(case, C.n(200, 10000), ctx); C.finish(['assignments', 'contingent_formulas', 'large_formulas', 'at_most_one_of_256_or_more', 'call_atMostK', 'call_atMostOne', 'call_andImpliesSet'])
if __name__ == '__main__': common.main_guard(main)
