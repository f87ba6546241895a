"""H03 classical heuristics on random STRIPS-like models against their definitions."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common
from common import Check, run
from nodes import parse, SAN
def case(c, i, seed, ctx):
    s = seed % 10**12; cmd = [ctx['exe'], str(s), '80']
    r = run(cmd, cpu=60, env=SAN, mem_gb=None); cn = parse(c, r, 'H03', {}, 'hs %d 80' % s)
    if cn is None: return
    if cn.get('positive_estimates'): c.nontrivial.append(s)
    if i < 3: c.sample = cn
def main():
    C = Check('H03', 'random STRIPS-like models (80 per process, 4-11 states each), the additive, FF, filter and LM-cut heuristics against least fixpoints, optimal relaxed costs by search, and cuts tested as landmarks, under ASan/UBSan; non-trivial = process with positive estimates')
    ctx = dict(exe=build.build('hs', 'asan', harness=['harness/hs.cpp']))
    C.cases(case, C.n(400, 20000), ctx)
    C.finish(['evaluations', 'unreachable_goals', 'reachable_goals', 'ff_exact', 'lmcut_above_max', 'lmcut_optimal', 'optimal_relaxed_costs', 're_evaluations', 'cuts', 'models_with_actions_without_preconditions', 'models_with_exploding_values', 'cut_values'])
if __name__ == '__main__': common.main_guard(main)
