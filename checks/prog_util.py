"""shared by the black-box checks: option samplers, input selection, output parsing"""
import os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import build, common, htn
from common import run
HEUR = ['zero', 'modDepth', 'modDepth(invert)', 'mixedModDepth', 'mixedModDepth(invert)', 'cost', 'cost(invert)'] + \
       ['rc2(%s;%s%s)' % (h, e, t) for h in ('ff', 'add', 'lmc', 'filter') for e in ('distance', 'cost', 'mixed') for t in ('', ';no')] + \
       ['rc2(h=add;est=cost)', 'rc2(est=mixed;h=lmc;taskcount=no)', 'rc2()', 'rc2']
VISI = ['-T', '-Q', '-O', '--noLayers', '--noOrderPairs', '--noParallelSequences', '--noGIcheck']
PROFS = ['to', 'po', 'mixed', 'to_cyc', 'po_cyc', 'parseq', 'parseq_cyc', 'acyc', 'deep', 'wide', 'strips', 'sas', 'mprec', 'tight', 'unsolv', 'same', 'choice',
         'to+tight', 'po+mprec', 'wide+same', 'parseq+same', 'to_cyc+strips', 'po+zero', 'same+zero+parseq', 'acyc+mprec+large', 'choice+po', 'choice+to_cyc', 'to_cyc+tight', 'po_cyc+tight', 'same+unsolv', 'parseq+unsolv', 'parseq_cyc+tight', 'wide+unsolv', 'po+pad', 'to_cyc+pad', 'mixed+tight+pad', 'parseq+pad', 'chain', 'classical', 'classical', 'chain+po', 'chain+to_cyc', 'parseq+vocab+pow2', 'po+vocab']
def config(rng, kind='any'):
    o = []
    nh = rng.choice([1, 1, 1, 2, 3])
    for _ in range(nh): o += ['-H', rng.choice(HEUR)]
    if rng.random() < 0.1: o = []
    o += ['-g', rng.choice(['path', 'action', 'mixed', 'none'])]
    if rng.random() < 0.3: o += ['-w', rng.choice(['0', '2', '3', '7'])]
    if rng.random() < 0.4: o.append('--suboptimal')
    o += visi(rng); o += ['-S', str(rng.randint(0, 9999))]
    return o
def visi(rng):
    k = rng.random(); o = []
    if k < 0.1: o.append('-V')
    elif k < 0.75: o += [v for v in VISI if rng.random() < (0.5 if k < 0.45 else 0.2)]
    return o
def make(rng, ref, path, profs=PROFS, tries=4, over={}, want=None, nodes=8000, size=10, full=False):
    "takes the most interesting of several candidates"
    best = None
    for _ in range(tries):
        p = rng.choice(profs); I = htn.gen(rng, p, **over); htn.write(I, path); q = ref.solve(path, nodes, -1, size, full)
        s = min(q['nodes'], 300) ** 0.5 + 4 * max(0, q['len']) - (30 if q['status'] == -1 else 0) + rng.random() * 3 + (0 if want is None or want(q) else -200)
        if best is None or s > best[0]: best = (s, I, q)
    I, q = best[1], best[2]; htn.write(I, path); return I, q
def st(out):
    m = re.search(r'^- Status: (.*)$', out, re.M); return m.group(1).strip() if m else None
def num(pat, out):
    m = re.search(pat, out, re.M); return int(m.group(1)) if m else None
def save(I, cmd, r): return {'input.htn': htn.text(I), 'stdout.txt': r.out[-200000:], 'stderr.txt': r.err[-20000:]}
def engine(): return build.build('engine', 'fast', sat=True)
def go(exe, opts, path, **k):
    return run([exe] + opts + [path], **k)
def mkpath(ctx): return os.path.join(ctx['tmp'], 'w%d.htn' % os.getpid())
def nontriv(I, q): return q['nodes'] > 4

def conv(c, r, I, cmd, prop):
    "common classification: returns status or None if inconclusive/violating"
    c.evals += 1
    if r.timeout: c.n('runs_stopped_by_cpu_limit'); return 'limit'
    if r.rc != 0:
        c.bad('abnormal-exit', 'engine ended with status %d: %s' % (r.rc, (r.err or r.out)[-300:]), save(I, cmd, r), ' '.join(cmd)); return None
    s = st(r.out)
    if s not in ('Solved', 'Timeout', 'Proven unsolvable'):
        c.bad('no-status', 'no status line', save(I, cmd, r), ' '.join(cmd)); return None
    c.n('status_' + s.replace(' ', '_')); return s

def approx(o, out):
    "options documented to make duplicate detection approximate: no task sequences (total order / sequences mode), no isomorphism check (partial order)"
    po = 'mode: partial order' in out
    return ('--noGIcheck' in o and po) or ('-O' in o and not po)

TOPROFS = ['to', 'to_cyc', 'deep', 'to+tight', 'to_cyc+strips', 'choice+to', 'choice+to_cyc', 'to+mprec', 'to_cyc+tight', 'to+sas', 'to+unsolv', 'to+zero', 'to+pad', 'to_cyc+pad', 'chain+to', 'vocab+to+pow2']
def satopts(rng):
    o = ['-s'] + [x for x in ('-B', '-M', '-m', '-o', '--orderOutput') if rng.random() < 0.35] + ['-P', rng.choice(['none', 'ff', 'h2'])]
    return o + ['-S', str(rng.randint(0, 99))]
TRANS = ['push', 'parallelseq', 'to', 'postrips', 'pocond']
def transopts(rng, path):
    o = ['-2', '--onlyGenerate', '--sasfile', path + '.sas', '--transtype', rng.choice(TRANS)]
    if rng.random() < 0.5: o += ['--pgb', str(rng.randint(1, 5))]
    if rng.random() < 0.3: o.append('--realCosts')
    return o
