"""R02: what the command line selects, compared with the same planner called through its programming interface; rejection of invalid command lines and inputs."""
import os, random, re, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, Ref, run
import prog_util as U
DROP = re.compile(r'time|Time|seconds|nodes per second|Reading input|nodes/sec|memory:|Memory|\bRAM\b|^@')
NUMT = re.compile(r'[0-9][0-9.e+-]* ?(ms|s|us)\b')
def norm(t): return [NUMT.sub('<t>', l).rstrip() for l in t.split('\n') if not DROP.search(l) and l.strip()]
# --- heuristics: (expression on the command line, explicit form)
def heur(rng):
    k = rng.choice(['zero', 'modDepth', 'mixedModDepth', 'cost', 'rc2', 'rc2', 'rc2'])
    if k == 'zero': return rng.choice(['zero', 'zero', 'zero()']), 'zero:0'
    if k != 'rc2':
        inv = rng.random() < .5
        return (rng.choice([k + '(invert)', k + '(true)', k + '(invert=true)', k + '(invert=invert)']) if inv else rng.choice([k, k, k + '()', k + '(false)', k + '(invert=false)'])), '%s:%d' % (k, inv)
    h = rng.choice(['ff', 'add', 'lmc', 'filter']); e = rng.choice(['distance', 'cost', 'mixed']); n = rng.choice([1, 0]); a = []
    pos = rng.randint(0, 3); full = [('h', h, h == 'ff'), ('est', e, e == 'distance'), ('taskcount', 'yes' if n else 'no', n == 1)]
    for i in range(pos): a.append(full[i][1])
    rest = [x for x in full[pos:] if not (x[2] and rng.random() < .6)]
    rng.shuffle(rest); a += ['%s=%s' % x[:2] for x in rest]
    return 'rc2' + ('(' + ';'.join(a) + ')' if a or rng.random() < .3 else ''), 'rc2:%s:%s:%d' % (h, e, n)
def form(rng, short, long, val=None):
    "one option in one of its spellings"
    if val is None: return [rng.choice((['-' + short] if short else []) + ['--' + long])]
    val = str(val); o = [['--' + long, val], ['--%s=%s' % (long, val)]]
    if short: o += [['-' + short, val]] + ([['-' + short + val]] if val[:1] not in '=-' else [])
    return rng.choice(o)
def opt(rng, L, short, long, val, default, p=.5):
    "adds the option unless it has its default value and is left out"
    if val != default or rng.random() < p * .3: L.append(form(rng, short, long, val))
def flag(rng, L, short, long, p):
    if rng.random() < p: L.append(form(rng, short, long)); return 1
    return 0
def config(rng, algo):
    "(list of options of the command line, explicit configuration)"
    L = []; seed = rng.choice([42, 42, rng.randint(0, 10**6)]); opt(rng, L, 'S', 'seed', seed, 42); limit = rng.choice([1800, 1800, 3000, 77]); opt(rng, L, 't', 'timelimit', limit, 1800)
    rint = 1; ex = []; echo = dict(seed=seed, limit=limit)
    # options of other planners must not matter, except those that are read before the planner starts
    if algo == 'progression':
        if rng.random() < .4: L.append(form(rng, 'p', 'progression'))
        hs = [heur(rng) for _ in range(rng.choice([1, 1, 1, 2, 2, 3]))]
        if len(hs) == 3 and rng.random() < .4: hs[2] = (hs[0][0], hs[0][1])
        if rng.random() < .15: hs = [('', 'rc2:ff:distance:1')]
        order = [form(rng, 'H', 'heuristic', h) for h, _ in hs if h]
        w = rng.choice([1, 1, 2, 3, 5, 0]); opt(rng, L, 'w', 'astarweight', w, 1); g = rng.choice(['path', 'path', 'action', 'mixed', 'none']); opt(rng, L, 'g', 'gValue', g, 'path')
        sub = flag(rng, L, None, 'suboptimal', .4); nov = flag(rng, L, 'V', 'noVisitedList', .12)
        fl = [1 - flag(rng, L, s, l, .25) for s, l in (('T', 'noTaskHash'), ('Q', 'noTaskSequenceHash'), ('O', 'noTopologicalOrdering'), (None, 'noOrderPairs'), (None, 'noLayers'), (None, 'noGIcheck'), (None, 'noParallelSequences'))]
        pr = 1 - flag(rng, L, 'N', 'noPlanOutput', .2)
        # the order of heuristics matters, that of all other options does not
        rng.shuffle(L); pos = sorted(rng.randint(0, len(L)) for _ in order)
        for p, o in reversed(list(zip(pos, order))): L.insert(p, o)
        explicit = []; seen = {}
        for h, s in hs: # only the same expression is computed once
            explicit.append(s)
        ex = ['progression', len(explicit)] + explicit + [g, w, sub, nov] + fl + [pr]; echo.update(g=g, w=w, sub=sub, hs=hs)
    elif algo == 'sat':
        L.append(form(rng, 's', 'sat')); bc = 1 - flag(rng, L, 'B', 'blockcompression', .4); mx = 1 - flag(rng, L, 'M', 'satmutexes', .4); p = rng.choice(['none', 'ff', 'ff', 'h2']); opt(rng, L, 'P', 'pruning', p, 'ff')
        sep = flag(rng, L, 'm', 'methodPreconditionsInSeparateLeafs', .4); op = flag(rng, L, 'o', 'optimisation', .4); oo = flag(rng, L, None, 'orderOutput', .4)
        rint = int(mx or p == 'h2'); ex = ['sat', bc, mx, p, sep, op, oo]
    elif algo == 'bdd': L.append(form(rng, 'b', 'bdd')); ex = ['bdd']
    elif algo == 'interactive': L.append(form(rng, 'I', 'interactive')); ex = ['interactive']
    elif algo == 'hddl': L.append(['--writeInputToHDDL']); ex = ['hddl']
    else:
        L.append(form(rng, '2', 'translation')); ty = rng.choice(['push', 'push', 'parallelseq', 'to', 'postrips', 'pocond']); opt(rng, L, None, 'transtype', ty, 'push'); fo = flag(rng, L, None, 'forceTransType', .5)
        pgb = rng.choice([0, 0, 1, 2, 3, 4]); opt(rng, L, None, 'pgb', pgb, 0); st = rng.choice([1, 1, 2, 3]); opt(rng, L, None, 'pgbsteps', st, 1); d = rng.choice(['none', './fd.sh', './fd.sh', './fd.sh']); dc = rng.choice(['ehc-ff()', 'ehc-ff()', 'lazy-cea()', '--search astar(blind())'])
        og = flag(rng, L, None, 'onlyGenerate', .35); it = flag(rng, L, None, 'iterate', .5); rc = flag(rng, L, None, 'realCosts', .5); sf = rng.choice(['output.sas', 'output.sas', 'x.sas', 'sub/y'])
        opt(rng, L, None, 'downward', d, 'none'); opt(rng, L, None, 'downwardConf', dc, 'ehc-ff()'); opt(rng, L, None, 'sasfile', sf, 'output.sas'); ex = ['translation', ty, fo, pgb, st, d, dc, sf, it, og, rc]
    if algo != 'progression': rng.shuffle(L)
    return L, rint, ex, echo
FD = '''#!/bin/bash
# stand-in for the external planner: records its arguments, finds no plan; the tenth call fails for good
printf '%s\\n' "$*" >> calls.txt
for x in "$@"; do [ -f "$x" ] && md5sum < "$x" >> calls.txt; done
[ $(grep -c . calls.txt) -gt 16 ] && kill $PPID 2>/dev/null
exit 12
'''
def prep(d, I):
    os.makedirs(d + '/sub'); htn.write(I, d + '/in.htn'); open(d + '/fd.sh', 'w').write(FD); os.chmod(d + '/fd.sh', 0o755)
def files(d):
    r = {}
    for p, _, fs in os.walk(d):
        for f in fs:
            try: r[os.path.relpath(os.path.join(p, f), d)] = open(os.path.join(p, f), errors='replace').read()
            except OSError: pass
    return r
ALG = ['progression'] * 6 + ['sat', 'sat', 'bdd', 'interactive', 'hddl', 'translation', 'translation', 'translation']
def select(c, i, seed, ctx, rng, d):
    algo = rng.choice(ALG); prof = U.TOPROFS if algo == 'bdd' else U.PROFS; path = os.path.join(d, 'p.htn')
    I, q = U.make(rng, ctx['ref'], path, profs=prof, tries=2, want=lambda q: q['status'] == 1)
    if algo == 'bdd': I = htn.binarise(I, rng)
    a, b = d + '/a', d + '/b'; prep(a, I); prep(b, I); L, rint, ex, echo = config(rng, algo)
    stdin = rng.random() < .25 and algo not in ('interactive', 'hddl'); talk = ' \n'.join(str(rng.randint(0, 3)) for _ in range(30)) if algo == 'interactive' else None
    cmd = [x for o in L for x in o]
    if stdin:
        if rng.random() < .4: cmd.append('-')
    else:
        p = rng.randint(0, len(L)); cmd = [x for o in L[:p] for x in o] + ['in.htn'] + [x for o in L[p:] for x in o]
    inp = htn.text(I) if stdin else talk; env = {'IPASIR_SEED': 3, 'IPASIR_MAXSOLVE': 4, 'IPASIR_MAXCONF': 3000}
    r = run([ctx['exe']] + cmd, cpu=2, env=env, stdin=inp, cwd=a); f = run([ctx['cli'], '-' if stdin else 'in.htn', str(echo['seed']), str(echo['limit']), str(rint)] + [str(x) for x in ex], cpu=2, env=env, stdin=inp, cwd=b)
    c.evals += 2
    if r.timeout or f.timeout: c.n('stopped_by_cpu_limit'); return
    sv = {'input.htn': htn.text(I), 'stdout.txt': r.out[-100000:], 'stderr.txt': r.err[-10000:], 'expected.txt': f.out[-100000:], 'configuration.txt': ' '.join(str(x) for x in ex)}; line = ' '.join(cmd)
    if (r.rc == 0) != (f.rc == 0) or (r.rc < 0) != (f.rc < 0): c.bad('status', 'ended with status %d, the planner itself with %d' % (r.rc, f.rc), sv, line); return
    m = re.search(r'Random seed: (-?\d+)', r.out); t = re.search(r'Time limit: (-?\d+)', r.out)
    if m and int(m.group(1)) != echo['seed'] or t and int(t.group(1)) != echo['limit']: c.bad('echo', 'seed or time limit shown is not the one given', sv, line); return
    if algo != 'hddl':
        if '@BEGIN' not in f.out: raise common.HarnessError('no @BEGIN\n' + f.out[-500:] + f.err[-500:])
        want = norm(f.out.split('@BEGIN', 1)[1]); got = norm(r.out)
        if algo == 'interactive': got = norm(re.sub(r'Selected Planning Algorihtm: interactive', '\n', r.out)); 
        tail = got[len(got) - len(want):] if want else []
        if tail != want:
            k = next((k for k in range(len(want)) if k >= len(tail) or tail[k] != want[k]), 0)
            c.bad('selection', 'output differs from that of the planner configured as asked for: %r instead of %r' % (tail[k:k + 3], want[k:k + 3]), sv, line); return
        c.n('lines_compared', len(want))
        if algo == 'progression':
            for k, de in re.findall(r'^@DESC (\d+) (.*)$', f.out, re.M):
                if re.search(r'^Heuristic #\d+ = ', r.out, re.M) and 'Heuristic #%s = %s' % (k, de) not in r.out and not re.search('duplicate: Nr. %s ' % k, r.out): c.bad('heuristic', 'heuristic %s should be %s' % (k, de), sv, line); return
                c.n('heuristic_descriptions')
    x, y = files(a), files(b)
    if set(x) != set(y) or any(x[k] != y[k] for k in x): c.bad('files', 'files written differ: %s' % [k for k in set(x) | set(y) if x.get(k) != y.get(k)], sv, line); return
    c.n('files_compared', len(x) - 2); c.n('selections_' + algo)
    if 'calls.txt' in x: c.n('external_calls_compared', x['calls.txt'].count('\n'))
    for o in L: c.seen('spellings', re.sub('(=|(?<=^-.)).*', '', o[0]))
    c.nontrivial.append(hash((htn.text(I), line)))
    if i < 3: c.sample = dict(command=line, explicit=' '.join(str(x) for x in ex))
def planned(o): return bool(re.search(r'^==>|^- Status:|SCCs|Search Results|Computing PDT|Selected Planning', o, re.M))
def reject(c, i, seed, ctx, rng, d):
    path = os.path.join(d, 'p.htn'); I = htn.gen(rng, rng.choice(U.PROFS)); a = d + '/a'; prep(a, I); T = htn.text(I); htn.write(I, a + '/in2.htn'); stdin = None; inp = ['in.htn']
    algo = rng.choice(['progression', 'progression', 'sat', 'translation']); L, _, _, _ = config(rng, algo); L = [o for o in L if not re.match('--(transtype|pgb)|-[HgwP]|--(heuristic|gValue|astarweight|pruning)', o[0])]
    def bad(kind):
        nonlocal inp, L, stdin, algo
        if kind == 'enumeration': s, l, v = rng.choice([('g', 'gValue', 'cost'), ('g', 'gValue', ''), ('P', 'pruning', 'h3'), (None, 'transtype', 'strips'), ('g', 'gValue', 'Path'), ('P', 'pruning', 'FF')]); L.append(form(rng, s, l, v) if v else ['--' + l + '='])
        elif kind == 'number': s, l = rng.choice([('S', 'seed'), ('t', 'timelimit'), ('w', 'astarweight'), (None, 'pgb'), (None, 'pgbsteps')]); L = [o for o in L if not o[0].startswith(('--' + l, '-' + (s or '~')))]; L.append(form(rng, s, l, rng.choice(['x', '1x', '3.5', '2 3', 'five'])))
        elif kind == 'option': L.append([rng.choice(['--nosuch', '-x', '--heuristics2', '-3', '--no-visited'])])
        elif kind == 'two_planners': L = [o for o in L if o[0] not in ('-p', '-s', '-b', '-2', '-I', '--progression', '--sat', '--bdd', '--translation', '--interactive')]; L += [[x] for x in rng.sample(['-p', '-s', '-b', '-2', '-I'], 2)]
        elif kind == 'two_files': inp = ['in.htn', rng.choice(['in2.htn', 'nosuch', 'in.htn'])]
        elif kind == 'missing_file': inp = [rng.choice(['nosuch.htn', 'sub/nosuch', 'nosuch/in.htn', 'in.htn/x'])]
        elif kind == 'directory': inp = [rng.choice(['sub', '.', '/'])]
        elif kind == 'missing_value': inp, L = [], [['in.htn']] + L + [[rng.choice(['-H', '-g', '-S', '--heuristic', '--sasfile', '--pruning'])]]
        elif kind == 'heuristic':
            L = [o for o in L if o[0] not in ('-s', '--sat', '-2', '--translation')]; h = rng.choice(['ffx', 'RC2', 'rc2(foo)', 'rc2(h=lmcut;est=cost)', 'rc3(ff)', 'zer', 'cost(invert=a=b)', 'rc2(h=ff=add)', '(ff)', 'lmc', 'ff', 'add(cost)', 'dof', 'rc2(FF)', 'rc(ff)'])
            L.append(form(rng, 'H', 'heuristic', h)); 
            if rng.random() < .4: L.insert(rng.randint(0, len(L)), form(rng, 'H', 'heuristic', heur(rng)[0]))
        elif kind == 'truncated':
            t = T.rstrip('\n'); k = rng.randint(0, len(t) - 1); k = rng.choice([k, k, 0, t.rfind('\n', 0, k + 1) + 1]); t = t[:k]; c.n('prefixes'); c.n('prefix_lines', t.count('\n'))
            if rng.random() < .5: open(a + '/in.htn', 'w').write(t)
            else: inp = rng.choice([[], ['-']]); stdin = t
        elif kind == 'hddl_stdin': L = [['--writeInputToHDDL']]; inp = []; stdin = T
        elif kind == 'repeated': s, l, v = rng.choice([('g', 'gValue', 'path'), ('w', 'astarweight', '2'), ('S', 'seed', '1')]); L = [o for o in L if not o[0].startswith(('--' + l, '-' + s))]; L += [form(rng, s, l, v), form(rng, s, l, v)]
    kind = rng.choice(['enumeration', 'number', 'option', 'two_planners', 'two_files', 'missing_file', 'directory', 'missing_value', 'heuristic', 'heuristic', 'truncated', 'truncated', 'truncated', 'hddl_stdin', 'repeated']); bad(kind)
    if kind != 'missing_value': rng.shuffle(L)
    p = rng.randint(0, len(L)) if kind != 'missing_value' else 0; cmd = [x for o in L[:p] for x in o] + inp + [x for o in L[p:] for x in o]; before = set(files(a))
    r = run([ctx['exe']] + cmd, cpu=5, stdin=stdin if stdin is not None else '', cwd=a, mem_gb=3); c.evals += 1; line = ' '.join(cmd)
    sv = {'stdout.txt': r.out[-100000:], 'stderr.txt': r.err[-10000:], 'input.htn': stdin if stdin is not None else (open(a + '/in.htn').read())}
    if r.timeout: c.bad('reject-hangs', '%s: does not end' % kind, sv, line); return
    if r.rc == 0: c.bad('accepted', '%s: status 0' % kind, sv, line); return
    if r.rc < 0 or r.rc in (134, 136, 139): c.bad('reject-crash', '%s: ended by signal, status %d' % (kind, r.rc), sv, line); return
    if not (r.err.strip() or [l for l in r.out.split('\n') if l.strip() and not re.match('Random seed|Time limit|Reading input', l)]): c.bad('silent', '%s: no message' % kind, sv, line); return
    if re.search(r'^==>|^- Status:|Search Results|Computing PDT', r.out, re.M): c.bad('planned', '%s: planned nevertheless' % kind, sv, line); return
    if set(files(a)) - before: c.bad('planned', '%s: wrote %s' % (kind, set(files(a)) - before), sv, line); return
    c.n('rejections_' + kind); c.nontrivial.append(hash((kind, line)))
def case(c, i, seed, ctx):
    rng = random.Random(seed); d = tempfile.mkdtemp(prefix='verif-cli-')
    try:
        for _ in range(3): (select if rng.random() < .6 else reject)(c, i, seed, ctx, rng, d); [shutil.rmtree(d + x, ignore_errors=True) for x in ('/a', '/b')]
    finally: shutil.rmtree(d, ignore_errors=True)
def main():
    C = Check('R02', 'random command lines (spellings, order of options, defaults given or left out, file or standard input) for all planners, outputs and files compared with the same planner configured through its programming interface; invalid command lines and inputs; non-trivial = distinct command line and input', assumptions=['problems are in grounder normal form'])
    ctx = dict(exe=build.build('engine-bdd', 'fast', sat=True, bdd=True), cli=build.build('cli', 'fast', sat=True, bdd=True, harness=['harness/cli.cpp']), ref=Ref(build.plain('reftool', 'lib/reftool.cpp')), tmp=C.tmp)
    C.cases(case, C.n(450, 20000), ctx)
    C.finish(['selections_' + a for a in set(ALG)] + ['rejections_heuristic', 'rejections_truncated', 'rejections_directory', 'files_compared', 'external_calls_compared', 'heuristic_descriptions'])
if __name__ == '__main__': common.main_guard(main)
