"""B03 symbolic transition relations and state encodings against explicit computation (harness/tr.cpp)."""
import os, random, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, run
import prog_util as U
from nodes import parse, SAN
PROFS = ['to', 'sas', 'sas', 'strips', 'mixed', 'sas+mprec', 'sas+tight', 'overlap', 'overlap+sas', 'chain', 'parseq+sas', 'choice']
def case(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); p = rng.choice(PROFS); I = htn.gen(rng, p, ngroups=rng.choice([(0, 2), (1, 3), (0, 0)])); htn.write(I, path); s = rng.randint(1, 10**9)
    cmd = [ctx['exe'], path, str(s), '120']; r = run(cmd, cpu=60, mem_gb=None); cn = parse(c, r, 'B03', {'input.htn': htn.text(I)}, ' '.join(cmd[1:])); c.seen('profiles', p)
    if cn is None: return
    if cn.get('non_empty_images') and cn.get('states', 0) > 3: c.nontrivial.append(hash(htn.text(I)))
    if i < 3: c.sample = dict(profile=p, **cn)
def main():
    C = Check('B03', 'random problems; images and preimages of random sets of states under single actions, sequences and unions of actions, state encodings, decodings and variable copies, compared state by state with explicit computation; non-trivial = problem with a non-empty image and more than three states', assumptions=['every action keeps exactly one fact of each multi-valued variable true'])
    ctx = dict(exe=build.build('tr', 'fast', bdd=True, harness=['harness/tr.cpp']), tmp=C.tmp)
    C.cases(case, C.n(500, 15000), ctx)
    C.finish(['states_encoded', 'images', 'non_empty_images', 'non_empty_preimages', 'sets_decoded', 'step_sequences', 'merged_relations', 'copies_compared', 'auxiliary_copies', 'partial_states', 'multi_valued_variables'])
if __name__ == '__main__': common.main_guard(main)
