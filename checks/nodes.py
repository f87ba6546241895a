"""In-process monitors over the engine's own data structures (harness/nodes.cpp): V01, V02, H01, H02, M01, M03, M04."""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, run
import prog_util as U
def parse(c, r, prop, files, cmd, only=None):
    "takes over what the harness observed; returns its counters or None"
    c.evals += 1
    if r.timeout: c.n('stopped_by_cpu_limit'); return None
    cn = {m.group(1): int(m.group(2)) for m in re.finditer(r'^@CNT (\S+) (-?\d+)$', r.out, re.M)}
    for k, v in cn.items(): c.n(k, v)
    for m in re.finditer(r'^@VIOL ([^|\n]*)\|(.*)$', r.out, re.M):
        if only is None or m.group(1) in only: c.bad(m.group(1), m.group(2), dict(files, **{'stdout.txt': r.out[-100000:], 'stderr.txt': r.err[-20000:]}), cmd); return None
    if '@DONE' not in r.out:
        m = re.search(r'(ERROR: AddressSanitizer: [\w-]+|runtime error: [^\n]*)', r.err)
        c.bad('crash', 'ended with status %d: %s' % (r.rc, m.group(1) if m else r.err[-200:]), dict(files, **{'stdout.txt': r.out[-100000:], 'stderr.txt': r.err[-20000:]}), cmd); return None
    return cn
SAN = {'ASAN_OPTIONS': 'detect_leaks=0:exitcode=99:detect_stack_use_after_return=0', 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99'}
BIG = ['po', 'mixed', 'po_cyc', 'parseq', 'parseq_cyc', 'wide+same', 'po+mprec', 'same+zero+parseq', 'po_cyc+tight', 'to', 'to_cyc', 'deep', 'wide', 'same', 'choice+po', 'po+pad', 'to+pad', 'parseq+pad', 'parseq+vocab', 'po+vocab', 'to+vocab', 'parseq+vocab+pow2', 'to+vocab+pow2', 'po+vocab+pow2', 'parseq+pow2', 'parseq+vocab+pow2']
INFO = { # harness mode, flavour, profiles, steps, (quick, thorough), violation signatures, required observations, rule
 'V01': ('visi', 'fast', BIG, 700, (1300, 30000), ['merged'], ['rejected', 'total_order_runs', 'sequences_runs', 'partial_order_runs'], 'random walks over search nodes inserted into visited lists with random options, compared with an exact isomorphism table; non-trivial = run with at least one revisit'),
 'V02': ('visi', 'fast', BIG, 700, (1300, 30000), ['missed', 'cheaper-rejected'], ['revisits', 'rejected', 'reopened', 'total_order_runs', 'sequences_runs', 'partial_order_runs'], 'as V01; exact option combinations; non-trivial = run with at least one revisit'),
 'H01': ('h01', 'fast', U.PROFS, 60, (3000, 50000), None, ['declared_dead_ends', 'dead_ends_confirmed', 're_evaluations', 'solvable_nodes'], 'heuristics evaluated on random search nodes whose solvability the reference decides; non-trivial = run with a solvable node'),
 'H02': ('h02', 'fast', U.PROFS, 60, (3000, 50000), None, ['admissibility_comparisons', 'positive_estimates', 'exact_estimates'], 'LM-cut relaxed-composition and zero estimates on random search nodes against exact remaining cost; non-trivial = run with a positive estimate compared'),
 'M03': ('m03', 'asan', U.PROFS, 60, (2500, 40000), None, ['nodes_checked', 'implicit_applications', 'sibling_groups', 'task_counters_checked', 'step_reachability_checked'], 'random expansions compared with the reference successor function, node contents snapshotted; non-trivial = run with a sibling group'),
 'M01': ('m01', 'fast', U.PROFS, 0, (3000, 50000), None, ['items_compared', 'index_entries', 'orderings_compared', 'linearisations_compared', 'closures_compared', 'mutex_groups_compared', 'invariants_compared'], 'model in memory after reading random files against an independent reader; non-trivial = distinct file'),
 'M04': ('m04', 'fast', U.PROFS, 0, (3000, 50000), None, ['scc_checks', 'cyclic_problems', 'acyclic_problems', 'top_order_edges', 'min_values', 'total_order', 'parallel_sequences', 'partial_order', 'reachability_sets'], 'structural analyses of random problems against brute force; non-trivial = distinct problem'),
}
NT = {'V01': 'revisits', 'V02': 'revisits', 'H01': 'solvable_nodes', 'H02': 'positive_estimates', 'M03': 'sibling_groups', 'M04': 'scc_checks', 'M01': 'items_compared'}
def case(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); prop = ctx['prop']; mode, _, profs, steps, _, sigs, _, _ = INFO[prop]
    p = rng.choice(profs); I = htn.gen(rng, p); htn.write(I, path); s = rng.randint(1, 10**9)
    cmd = [ctx['exe'], mode, path, str(s), str(steps)]; r = run(cmd, cpu=20, env=SAN if INFO[prop][1] == 'asan' else None, mem_gb=None if INFO[prop][1] == 'asan' else 4)
    cn = parse(c, r, prop, {'input.htn': htn.text(I)}, ' '.join(cmd[1:]), sigs); c.seen('profiles', p)
    if cn is None: return
    if cn.get(NT[prop]): c.nontrivial.append(hash((htn.text(I), s)))
    if i < 3: c.sample = dict(profile=p, **cn)
def main():
    prop = sys.argv[1]; mode, fl, profs, steps, (a, b), sigs, need, rule = INFO[prop]
    C = Check(prop, rule, assumptions=['problems are in grounder normal form'])
    ctx = dict(exe=build.build('nodes', fl, harness=['harness/nodes.cpp']), tmp=C.tmp, prop=prop)
    C.cases(case, C.n(a, b), ctx, limit_viol=int(os.environ.get('VERIF_LIMIT', '3'))); C.finish(need)
if __name__ == '__main__': common.main_guard(main)
