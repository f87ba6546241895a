#!/usr/bin/env python3
"""seedtest.py ID [CHECK...]: applies seeded/ID to a scratch copy of /repo, runs its demo on both trees and the given checks (default: that of its property) on the copy."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = '/tmp/seed/work-%d' % os.getpid()
def tree(d, patch):
    os.makedirs(d); subprocess.check_call('git -C /repo archive HEAD | tar x -C ' + d, shell=True)
    if patch: subprocess.check_call(['git', 'apply', '--unsafe-paths', '--directory=' + d.lstrip('/'), patch] if False else ['patch', '-s', '-p1', '-d', d, '-i', patch])
    os.makedirs(d + '/_build')
    env = dict(os.environ, VERIF_REPO=d)
    exe = subprocess.check_output([sys.executable, '-c', 'import sys; sys.path.insert(0, "%s/lib"); import build; print(build.build("engine-nosat", "fast", bdd=True))' % V], env=env, text=True).split()[-1]
    shutil.copy(exe, d + '/_build/pandaPIengine'); return env
def main():
    i = sys.argv[1]; s = V + '/seeded/' + i; meta = json.load(open(s + '/meta.json')); checks = sys.argv[2:] or [meta['property']]
    man = json.load(open(V + '/MANIFEST.json'))
    try:
        subprocess.check_call(['git', '-C', '/repo', 'apply', '--check', s + '/patch.diff'])
        os.makedirs(W); dd = W + '/demo'; shutil.copytree(s, dd); 
        for n in os.listdir(dd):
            if n.endswith(('.diff', '.patch')) or n == 'meta.json': os.remove(dd + '/' + n)
        a, b = W + '/a', W + '/b'; tree(a, None); env = tree(b, s + '/patch.diff')
        ra = subprocess.run(['bash', dd + '/demo.sh'], cwd=a, capture_output=True, text=True); rb = subprocess.run(['bash', dd + '/demo.sh'], cwd=b, capture_output=True, text=True)
        print(i, 'demo clean', ra.returncode, 'patched', rb.returncode, '' if ra.returncode == 0 and rb.returncode else 'BAD DEMO ' + (ra.stdout + ra.stderr)[-500:] + (rb.stdout + rb.stderr)[-500:])
        for c in checks:
            cmd = [x for x in man['checks'] if x['property'] == c]
            if not cmd: print(i, c, 'not claimed'); continue
            q = cmd[0].get('quick') or cmd[0].get('quick_cmd'); q = q if isinstance(q, str) else q['cmd']
            r = subprocess.run(q, shell=True, cwd=V, env=dict(env, VERIF_SEED=os.environ.get('VERIF_SEED', '1'), VERIF_TIER='quick'), capture_output=True, text=True)
            print(i, c, 'rc', r.returncode, 'CAUGHT' if re.search('^VIOLATION property=' + c, r.stdout, re.M) else 'missed'); print('   ', r.stdout[:300].replace('\n', '\n    '), r.stderr[-500:])
    finally: shutil.rmtree(W, ignore_errors=True)
main()
