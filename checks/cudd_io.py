"""C03 diagrams stored, loaded, transferred and exported denote the functions they did before."""
import os, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common
from common import Check, run
from nodes import parse, SAN
def case(c, i, seed, ctx):
    s = seed % 10**12; d = tempfile.mkdtemp(prefix='verif-io-'); big = '1' if i % 8 == 0 else '0'; cmd = [ctx['exe'], str(s), '60', d, big]
    try:
        r = run(cmd, cpu=60, env=SAN, mem_gb=None); files = {}
        if '@VIOL' in r.out or '@DONE' not in r.out:
            for f in sorted(os.listdir(d))[:4]: files['left-' + f] = open(os.path.join(d, f), errors='replace').read()[:100000]
        cn = parse(c, r, 'C03', files, 'cudd_io %d 60 DIR %s' % (s, big))
    finally: shutil.rmtree(d, ignore_errors=True)
    if cn is None: return
    for k in cn:
        if k.startswith('format_'): c.seen('formats', k)
        if k.startswith('match_'): c.seen('variable_matchings', k)
    if cn.get('loads') and cn.get('comparisons'): c.nontrivial.append(s)
    if i < 3: c.sample = cn
def main():
    C = Check('C03', 'random diagrams (BDD, ADD, ZDD) written to dddmp, CNF, BLIF, DDcal, factored form, prefix, SMV, dot, daVinci files and sparse matrices, read back by the library or by independent parsers and compared as functions, under ASan/UBSan; the unique tables and reference counts audited after each step; non-trivial = process that loaded and compared diagrams')
    ctx = dict(exe=build.build('cudd_io', 'asan', engine=False, cudd=True, harness=['harness/cudd_io.cpp']))
    C.cases(case, C.n(240, 12000), ctx)
    C.finish(['comparisons', 'loads', 'stores', 'add_stores', 'cnf_loads', 'audits', 'managers_closed', 'loads_into_another_manager'])
if __name__ == '__main__': common.main_guard(main)
