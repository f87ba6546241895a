"""D01 containers, D02 dictionaries: random operation histories against standard containers, under sanitizers."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common
from common import Check, run
from nodes import parse, SAN
INFO = {'D01': ('d01', (300, 20000), ['comparisons', 'clears', 'growths', 'set_operations', 'deletions_while_iterating', 'removing_iterations', 'heap_pops', 'utility_calls']),
        'D02': ('d02', (400, 20000), ['new_keys', 'known_keys', 'rechecks', 'histories_compressed', 'histories_compressed_hashed', 'histories_sequence', 'histories_hash'])}
def case(c, i, seed, ctx):
    mode = INFO[ctx['prop']][0]; s = seed % 10**12; cmd = [ctx['exe'], mode, str(s), '60']
    r = run(cmd, cpu=60, env=SAN, mem_gb=None); cn = parse(c, r, ctx['prop'], {}, ' '.join(cmd[1:]))
    if cn is None: return
    for k in cn:
        if k.startswith('histories_'): c.nontrivial.append((s, k))
    if i < 3: c.sample = cn
def main():
    prop = sys.argv[1]; mode, (a, b), need = INFO[prop]
    C = Check(prop, 'random operation histories (60 per process) under ASan/UBSan; every observable result compared with standard containers; non-trivial = (process, container) with at least one completed history')
    ctx = dict(exe=build.build('ds', 'asan', harness=['harness/ds.cpp']), prop=prop)
    C.cases(case, C.n(a, b), ctx); C.finish(need)
if __name__ == '__main__': common.main_guard(main)
