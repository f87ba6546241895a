"""writes MANIFEST.json from the table below and properties.jsonl"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EXPL = 'Runs the real code on generated workloads; a violation is a concrete replayable execution. Silence says nothing about inputs not generated (small problems, fixed seeds per run).'
C = {}
def chk(p, cmd, tech, note=EXPL): C[p] = dict(property=p, quick_cmd=cmd, thorough_cmd='env VERIF_TIER=thorough ' + cmd, technique=tech, level='exploration', level_note=note)
chk('P01', 'python3 checks/prog.py P01', 'runtime monitoring: independent plan validator over generated problems and options')
chk('P02', 'python3 checks/prog.py P02', 'runtime monitoring: verdicts against an exhaustive reference solver')
chk('P03', 'python3 checks/prog.py P03', 'runtime monitoring: plan costs against the reference optimum')
chk('P04', 'python3 checks/prog.py P04', 'runtime monitoring: printed figures against the printed plan and the model')
chk('P05', 'python3 checks/prog.py P05', 'runtime monitoring: differential runs under perturbed memory and environment')
chk('P06', 'python3 checks/prog.py P06', 'runtime monitoring: endless and short searches under time limits')
chk('S01', 'python3 checks/sat.py S01', 'runtime monitoring: plan validator over SAT plans, randomised models from an IPASIR stand-in')
chk('S02', 'python3 checks/sat.py S02', 'runtime monitoring: per-depth verdicts against a depth-bounded reference search')
chk('S03', 'python3 checks/sat.py S03', 'runtime monitoring: cost bounds, printed costs and printed order against reference optimum and decomposition')
chk('S04', 'python3 checks/inv.py', 'runtime monitoring with sanitizers: inferred invariants evaluated on every reachable state')
chk('T01', 'python3 checks/trans.py T01', 'runtime monitoring: a reference classical solver on the written task, plans mapped back and validated')
chk('T02', 'python3 checks/trans.py T02', 'runtime monitoring: bound adequacy and verdicts of written tasks against the reference search')
chk('T03', 'python3 checks/trans.py T03', 'runtime monitoring: fault injection into the external planner')
chk('B01', 'python3 checks/bdd.py B01', 'runtime monitoring: independent plan validator over plans of the symbolic search')
chk('B02', 'python3 checks/bdd.py B02', 'runtime monitoring: costs and verdicts of the symbolic search against the reference optimum')
chk('B03', 'python3 checks/tr.py', 'runtime monitoring: symbolic images, preimages and encodings compared state by state with explicit computation')
chk('R01', 'python3 checks/robust.py', 'sanitizers: AddressSanitizer and UndefinedBehaviorSanitizer build in every mode, valgrind memcheck on a sample')
chk('R02', 'python3 checks/cli.py', 'runtime monitoring: differential runs of random command lines against the planner called through its programming interface; rejection of invalid ones')
chk('V01', 'python3 checks/nodes.py V01', 'runtime monitoring: visited list in process against an exact isomorphism table (never merges what differs)')
chk('V02', 'python3 checks/nodes.py V02', 'runtime monitoring: visited list in process against an exact isomorphism table (recognises what is equal)')
chk('H01', 'python3 checks/nodes.py H01', 'runtime monitoring: dead-end claims and repeatability of heuristics on search nodes decided by the reference')
chk('H02', 'python3 checks/nodes.py H02', 'runtime monitoring: estimates of admissible heuristics against exact remaining costs')
chk('H03', 'python3 checks/hs.py', 'runtime monitoring with sanitizers: estimates against least fixpoints, optimal relaxed costs, and cuts tested as landmarks')
chk('M03', 'python3 checks/nodes.py M03', 'runtime monitoring with sanitizers: successor nodes and isolation of nodes against reference progression semantics')
chk('M04', 'python3 checks/nodes.py M04', 'runtime monitoring: structural analyses against brute force')
chk('I01', 'python3 checks/inter.py', 'runtime monitoring: adaptive scripted dialogues against simulated progression semantics')
chk('M02', 'python3 checks/export.py', 'runtime monitoring: exported files parsed by an independent reader and compared up to renaming')
chk('H04', 'python3 checks/lm.py H04', 'runtime monitoring with sanitizers: reported landmarks against derivability with each node removed')
chk('H05', 'python3 checks/lm.py H05', 'runtime monitoring with sanitizers: planning graph sets against a fixpoint, over call histories')
chk('M01', 'python3 checks/nodes.py M01', 'runtime monitoring: model in memory against an independent reader of the file')
chk('S05', 'python3 checks/clauses.py', 'runtime monitoring: emitted clauses recorded by a stand-in solver, all models projected')
chk('S06', 'python3 checks/pdt.py', 'runtime monitoring (ASan+UBSan): every expanded node, leaf order and pruning compared with the methods and with exhaustive execution of the tree')
chk('S07', 'python3 checks/formula.py', 'runtime monitoring: clauses recorded by a stand-in solver and queried for models with the actions of single decompositions, all of which are enumerated and executed by the oracle')
for p_ in ('C01', 'C02'): chk(p_, 'python3 checks/cudd.py ' + p_, 'runtime monitoring with sanitizers: random operation histories against truth tables, canonicity and exact reference-count conservation')
chk('C03', 'python3 checks/cudd_io.py', 'runtime monitoring with sanitizers: files written by the library re-interpreted by independent parsers and by loading, compared as functions')
for p_ in ('D01', 'D02'): chk(p_, 'python3 checks/ds.py ' + p_, 'runtime monitoring with sanitizers: random operation histories against standard containers')
chk('D03', 'python3 checks/support.py', 'runtime monitoring with sanitizers: random operation histories against maps, interval families and exact big-number arithmetic')
exec(open(os.path.join(V, 'tools', 'manifest_more.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'manifest_more.py')) else None
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
NA = globals().get('NA', {})
m = dict(version=1, setup_cmd='python3 tools/setup.py', checks=[C[p] for p in props if p in C],
         not_applicable=[dict(property=p, reason=NA.get(p, 'no check has been built for it yet')) for p in props if p not in C],
         notes='All checks compile /repo/src from its working tree with build rules of their own (lib/build.py) into /verif/.build; no hooks in /repo are needed. The SAT solver behind IPASIR and the external classical planner are stand-ins of /verif.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
