"""D03 supporting containers and number types of the decision-diagram library: random histories under sanitizers against models."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common
from common import Check, run
from nodes import parse, SAN
MODES = [('st', 80), ('epd', 60), ('apa', 40), ('count', 5), ('mtr', 120)]
NEED = ['comparisons', 'st_mode_0', 'st_mode_1', 'st_mode_2', 'st_mode_3', 'generated', 'foreach', 'deleted_in_foreach', 'copies', 'special_values', 'zero_operands', 'epd_EpdMultiply', 'epd_EpdAdd3', 'epd_EpdSubtract2', 'epd_EpdDivide3',
        'apa_ApaAdd', 'apa_ApaSubtract', 'apa_ApaShortDivision', 'apa_ApaIntDivision', 'apa_ApaShiftRight', 'apa_ApaCompare', 'apa_ApaCompareRatios', 'apa_ApaPrintExponential', 'apa_ApaStringDecimal',
        'non_constant_functions', 'arithmetic_diagrams', 'count_Cudd_ApaPrintMinterm', 'count_Cudd_EpdCountMinterm', 'count_Cudd_LdblCountMinterm', 'managers_closed',
        'groups_made', 'groups_refused', 'groups_found', 'groups_not_found', 'groups_dissolved', 'groups_swapped', 'trees_copied', 'trees_reordered', 'orders_printed', 'descriptions_read', 'descriptions_refused']
def case(c, i, seed, ctx):
    m, h = MODES[i % len(MODES)]; s = seed % 10**12; cmd = [ctx['exe'], m, str(s), str(h)]
    r = run(cmd, cpu=60, env=dict(SAN, ASAN_OPTIONS=SAN['ASAN_OPTIONS'].replace('detect_leaks=0', 'detect_leaks=1')), mem_gb=None); cn = parse(c, r, 'D03', {}, ' '.join(cmd[1:])); c.seen('parts', m)
    if cn is None: return
    if cn.get('comparisons'): c.nontrivial.append((m, s))
    if i < 5: c.sample = dict(part=m, **cn)
def main():
    C = Check('D03', 'random histories on hash tables, group trees, extended- and arbitrary-precision numbers and minterm counts over thousands of variables under ASan/UBSan/LSan, with the assertions of the library active; every result compared with a map, a family of intervals or exact big-number arithmetic')
    ctx = dict(exe=build.build('support', 'asan', engine=False, cudd=True, harness=['harness/support.cpp']))
    C.cases(case, C.n(1200, 60000), ctx); C.finish(NEED)
if __name__ == '__main__': common.main_guard(main)
