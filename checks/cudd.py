"""C01 decision diagram operations, C02 the same with reordering, garbage collection, groups and new variables in between: random histories under sanitizers."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common
from common import Check, run
from nodes import parse, SAN
INFO = {'C01': ('c01', (600, 30000), ['comparisons', 'operations', 'canonicity_pairs', 'conservation_checks', 'reference_counts_checked', 'full_rechecks', 'garbage_collections', 'managers_closed', 'non_constant_results']),
        'C02': ('c02', (600, 30000), ['comparisons', 'operations_after_reordering', 'disturbances', 'reorderings', 'zdd_reorderings', 'shuffles', 'new_variables', 'variable_groups', 'group_checks', 'automatic_reordering_on', 'conservation_checks', 'reference_counts_checked', 'garbage_collections', 'table_checks'])}
KNOWN = 'two-literal-clauses-reordered'
def case(c, i, seed, ctx):
    mode = INFO[ctx['prop']][0]; s = seed % 10**12; cmd = [ctx['exe'], mode, str(s), '3', '300']
    r = run(cmd, cpu=60, env=SAN, mem_gb=None)
    m = re.search(r'^@VIOL %s\|(.*)$' % KNOWN, r.out, re.M)
    if m: c.bad(KNOWN, m.group(1), {'stdout.txt': r.out[-100000:]}, ' '.join(cmd[1:])); r.out = r.out.replace(m.group(0), '')
    cn = parse(c, r, ctx['prop'], {}, ' '.join(cmd[1:]))
    if cn is None: return
    for k in cn:
        if k.startswith('op_'): c.seen('operations', k)
        if k.startswith('reorder_'): c.seen('reordering_methods', k)
    if cn.get('non_constant_results'): c.nontrivial.append(s)
    if i < 3: c.sample = cn
def main():
    prop = sys.argv[1]; mode, (a, b), need = INFO[prop]
    C = Check(prop, 'random histories (3 per process, 300 operations each) on a CUDD manager under ASan/UBSan; every result compared with truth tables, tables and reference counts audited; non-trivial = process with non-constant results')
    ctx = dict(exe=build.build('cudd_fuzz', 'asan', engine=False, cudd=True, harness=['harness/cudd_fuzz.cpp']), prop=prop)
    C.cases(case, C.n(a, b), ctx); C.finish(need)
if __name__ == '__main__': common.main_guard(main)
