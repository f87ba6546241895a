"""S04 inferred invariants evaluated on every reachable state (harness/inv.cpp)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, run
import prog_util as U
from nodes import parse, SAN
PROFS = U.PROFS + ['sas', 'strips', 'sas+mprec', 'chain', 'tight', 'sas+wide', 'classical', 'sas+to_cyc', 'sas+chain']
def case(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); p = rng.choice(PROFS); I = htn.gen(rng, p)
    if rng.random() < 0.15: # an action may delete a fact that it also adds
        for a in I.actions:
            if rng.random() < 0.4: a.dele += [f for f in a.add if rng.random() < 0.6]; c.n('actions_deleting_what_they_add', len(set(a.add) & set(a.dele)))
    htn.write(I, path); s = rng.randint(1, 10**9)
    cmd = [ctx['exe'], path, str(s)]; r = run(cmd, cpu=60, env=SAN, mem_gb=None); cn = parse(c, r, 'S04', {'input.htn': htn.text(I)}, ' '.join(cmd[1:])); c.seen('profiles', p)
    if cn is None: return
    if cn.get('spaces_explored') and cn.get('synthesised_invariants'): c.nontrivial.append(hash(htn.text(I)))
    if i < 3: c.sample = dict(profile=p, **cn)
def main():
    C = Check('S04', 'random problems; the invariants extracted from the input, closed under resolution and synthesised, and those of random layers of allowed actions, evaluated on every state reachable by executable actions; non-trivial = fully explored problem with synthesised invariants', assumptions=['the mutex groups and invariants in the input are true (checked on the reachable states)'])
    ctx = dict(exe=build.build('inv', 'asan', sat=True, harness=['harness/inv.cpp']), tmp=C.tmp)
    C.cases(case, C.n(900, 25000), ctx)
    C.finish(['spaces_explored', 'states', 'extracted_invariants', 'resolution_derived', 'synthesised_invariants', 'pairs_exclusive', 'layers', 'actions_pruned', 'layer_transitions', 'layer_invariants', 'actions_deleting_what_they_add'])
if __name__ == '__main__': common.main_guard(main)
