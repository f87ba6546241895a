"""warms the object cache; the checks build on their own what is missing"""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import build
build.plain('reftool', 'lib/reftool.cpp')
build.build('engine', 'fast', sat=True)
build.build('nodes', 'fast', harness=['harness/nodes.cpp'])
build.build('nodes', 'asan', harness=['harness/nodes.cpp'])
build.build('engine-bdd', 'fast', sat=True, bdd=True)
build.build('cli', 'fast', sat=True, bdd=True, harness=['harness/cli.cpp'])
build.build('engine-asan', 'asan', sat=True, bdd=True)
build.build('lm', 'asan', harness=['harness/lm.cpp'])
build.build('hs', 'asan', harness=['harness/hs.cpp'])
build.build('inv', 'asan', sat=True, harness=['harness/inv.cpp'])
build.build('formula', 'fast', sat=True, mini=False, harness=['harness/formula.cpp'])
build.build('pdt', 'asan', sat=True, harness=['harness/pdt.cpp'])
build.build('tr', 'fast', bdd=True, harness=['harness/tr.cpp'])
build.build('ds', 'asan', harness=['harness/ds.cpp'])
build.build('cudd_fuzz', 'asan', engine=False, cudd=True, harness=['harness/cudd_fuzz.cpp'])
build.build('support', 'asan', engine=False, cudd=True, harness=['harness/support.cpp'])
build.build('cudd_io', 'asan', engine=False, cudd=True, harness=['harness/cudd_io.cpp'])
build.build('clauses', 'fast', sat=True, mini=False, harness=['harness/clauses.cpp'])
print('ok')
