"""Random grounded HTN problems in grounder normal form, writer, plan parser and plan validator.
Shares no code with /repo."""
import itertools, random, re

class Action:
    __slots__ = ('name', 'cost', 'prec', 'add', 'dele')
    def __init__(s, name, cost, prec, add, dele): s.name, s.cost, s.prec, s.add, s.dele = name, cost, list(prec), list(add), list(dele)
class Method:
    __slots__ = ('name', 'task', 'subs', 'ord')
    def __init__(s, name, task, subs, ord_): s.name, s.task, s.subs, s.ord = name, task, list(subs), list(ord_)
class Inst:
    def __init__(s):
        s.facts = []; s.vars = []; s.strict = []; s.mutex = []; s.inv = []; s.actions = []; s.s0 = []; s.goal = []
        s.abs = []; s.methods = []; s.init = None; s.tags = {}
    @property
    def na(s): return len(s.actions)
    def tname(s, t): return s.actions[t].name if t < s.na else s.abs[t - s.na]
    def ntasks(s): return s.na + len(s.abs)

def text(I, comments=True):
    o = []; c = (lambda x: o.append(';; ' + x))
    def lst(v): return ' '.join(str(x) for x in list(v) + [-1])
    c('#state features'); o.append(str(len(I.facts))); o += I.facts; o.append('')
    c('Mutex Groups'); o.append(str(len(I.vars))); o += ['%d %d %s' % v for v in I.vars]; o.append('')
    c('further strict Mutex Groups'); o.append(str(len(I.strict))); o += [lst(x) for x in I.strict]; o.append('')
    c('further non strict Mutex Groups'); o.append(str(len(I.mutex))); o += [lst(x) for x in I.mutex]; o.append('')
    c('known invariants'); o.append(str(len(I.inv))); o += [lst(x) for x in I.inv]; o.append('')
    c('Actions'); o.append(str(I.na))
    for a in I.actions:
        o.append(str(a.cost)); o.append(lst(a.prec))
        for e in (a.add, a.dele): o.append(' '.join(['0 %d ' % f for f in e] + ['-1']))
    o.append(''); c('initial state'); o.append(lst(I.s0)); o.append('')
    c('goal'); o.append(lst(I.goal)); o.append('')
    c('tasks (primitive and abstract)'); o.append(str(I.ntasks()))
    for t in range(I.ntasks()): o.append('%d %s' % (t >= I.na, I.tname(t)))
    o.append(''); c('initial abstract task'); o.append(str(I.init)); o.append('')
    c('methods'); o.append(str(len(I.methods)))
    for m in I.methods:
        o.append(m.name); o.append(str(m.task)); o.append(lst(m.subs)); o.append(lst([x for p in m.ord for x in p]))
    return '\n'.join(o) + '\n'
def write(I, path):
    with open(path, 'w') as f: f.write(text(I))

def closure(n, ords):
    r = [[False] * n for _ in range(n)]
    for a, b in ords: r[a][b] = True
    for k in range(n):
        for i in range(n):
            if r[i][k]:
                for j in range(n):
                    if r[k][j]: r[i][j] = True
    return r

# ---------------------------------------------------------------- generation
DEF = dict(ngroups=(0, 2), nbin=(1, 3), nact=(3, 7), nabs=(1, 4), nmeth=(1, 3), nsub=(1, 3), order='mixed', rec=0.3, cost='small',
           goal=0.3, effless=0.15, mprec=0.25, noop=0.05, prec=(0, 2), eff=(0, 2), top=(1, 3), mutexinfo=True, sat=0.75, redundant=0.05, nosas=False, pad=0, pow2=0, s0p=0.5, late=0.0, classical=0, overlap=0.06, absp=0.35)
PROFILES = {
  'to': dict(order='to'), 'po': dict(order='po', nsub=(1, 3), rec=0.15), 'mixed': dict(order='mixed'),
  'to_cyc': dict(order='to', rec=0.7, nabs=(2, 5)), 'po_cyc': dict(order='po', rec=0.5, nsub=(1, 3)),
  'parseq': dict(order='parseq', top=(2, 3), rec=0.2), 'parseq_cyc': dict(order='parseq', top=(2, 3), rec=0.5),
  'acyc': dict(order='mixed', rec=0.0, nabs=(2, 5)), 'deep': dict(order='to', rec=0.1, nabs=(5, 9), nmeth=(1, 2), nsub=(1, 2)),
  'wide': dict(order='po', rec=0.0, nabs=(1, 3), nsub=(2, 4), nact=(3, 6), top=(2, 4)),
  'strips': dict(ngroups=(0, 0), nbin=(2, 6)), 'sas': dict(ngroups=(1, 3), nbin=(0, 1)),
  'zero': dict(cost='zero'), 'large': dict(cost='large'), 'unit': dict(cost='unit'),
  'mprec': dict(mprec=0.8, effless=0.3), 'tight': dict(prec=(1, 3), goal=0.8, sat=0.9), 'unsolv': dict(prec=(1, 3), goal=0.8, sat=0.3),
  'same': dict(order='po', nact=(1, 3), nsub=(2, 4), rec=0.1, nabs=(1, 3), top=(2, 4)), # many identical tasks in a network
  'poch': dict(order='po', nmeth=(2, 4), nsub=(2, 4), rec=0.15, nabs=(1, 3), effless=0.35),
  'chain': dict(nbin=(4, 8), ngroups=(0, 1), s0p=0.12, late=0.75, nact=(5, 10), prec=(1, 2), eff=(1, 2), effless=0.05, nmeth=(2, 4), nsub=(1, 2), cost='large', mprec=0.1, goal=0.5), # long causal chains
  'classical': dict(classical=1, nbin=(5, 9), ngroups=(0, 1), s0p=0.12, late=0.5, sat=0.4, nact=(8, 14), prec=(1, 2), eff=(1, 2), effless=0.0, mprec=0, cost='large', goal=1), # classical planning in disguise
  'overlap': dict(overlap=1, eff=(1, 3)), 'pad': dict(pad=1), 'pow2': dict(pow2=1),
  'vocab': dict(nact=(1, 3), nabs=(2, 3), nmeth=(4, 7), nsub=(1, 3), rec=0.05, prec=(0, 0), eff=(0, 1), effless=0.6, mprec=0, top=(2, 3)), # many different short networks over few tasks
  'effy': dict(prec=(0, 1), eff=(2, 4), effless=0.05, nbin=(3, 5), ngroups=(0, 1), mprec=0.05, goal=0.9, nmeth=(1, 2), nsub=(2, 3), rec=0.1), # few preconditions, opposing effects
  'sog': dict(order='po', nmeth=(3, 6), nsub=(3, 6), rec=0.15, nabs=(1, 3), nact=(2, 6), effless=0.35), # many long methods over few tasks
  'long': dict(order='po', nabs=(1, 2), nmeth=(1, 2), nsub=(3, 4), nact=(3, 5), rec=0.05, top=(1, 2), noop=0, mprec=0.1, goal=0.6), # few long methods
  'crowd': dict(nabs=(6, 9), nmeth=(6, 9), nsub=(1, 2), rec=0.7, absp=0.7, nact=(2, 4), top=(1, 2)), # many ways to reach the same tasks
  'collide': dict(order='to', nbin=(1, 3), ngroups=(0, 1), nabs=(3, 6), nmeth=(2, 4), nsub=(2, 2), rec=0.4, absp=0.6, nact=(3, 6), goal=1, prec=(0, 1), eff=(1, 2), noop=0.1, mprec=0.05, late=0.6, s0p=0.2), # the same states are reached again and again at different costs
  'many': dict(nact=(10, 16), nabs=(1, 3), nmeth=(5, 9), nsub=(1, 4), rec=0.1, prec=(0, 1)), # many actions at one position
  'choice': dict(nmeth=(2, 5), nact=(6, 12), cost='large', nsub=(1, 2)),
}
def gen(rng, profile='mixed', **over):
    P = dict(DEF)
    for q in profile.split('+'): P.update(PROFILES[q])
    P.update(over)
    R = lambda k: rng.randint(*P[k]); ch = lambda p: rng.random() < p
    I = Inst(); I.tags['profile'] = profile
    groups = []
    style = rng.randrange(3)
    for g in range(R('ngroups')):
        n = rng.choice([2, 2, 3, 3, 4, 5]); f0 = len(I.facts)
        for k in range(n): I.facts.append(['v%d_%d' % (g, k), '+at[o%d,l%d]' % (g, k), 'V%d-%d' % (g, k)][style])
        I.vars.append((f0, len(I.facts) - 1, 'var%d' % g)); groups.append(list(range(f0, len(I.facts))))
    bins = []
    nb = R('nbin')
    if not groups and nb == 0: nb = 1
    for b in range(nb):
        I.facts.append(['b%d' % b, '+p[c%d]' % b, 'B%d' % b][style]); f = len(I.facts) - 1
        I.vars.append((f, f, 'bin%d' % b)); bins.append(f)
    I.s0 = sorted([rng.choice(g) for g in groups] + [b for b in bins if ch(P['s0p'])])
    gof = {f: gi for gi, g in enumerate(groups) for f in g}
    def cost():
        c = P['cost']
        return {'unit': 1, 'zero': rng.choice([0, 0, 1, 2]), 'small': rng.choice([0, 1, 1, 1, 2, 3, 4]), 'large': rng.choice([0, 1, 3, 7, 12, 20, 35, 50])}[c]
    recent = []
    def rprec(k, like=None):
        fs = []
        used = set()
        for _ in range(k):
            f = rng.choice(recent[-4:]) if recent and ch(P['late']) else rng.randrange(len(I.facts)) if not (like and ch(P['sat'])) else rng.choice(like)
            key = ('g', gof[f]) if f in gof else f
            if key in used: continue
            used.add(key); fs.append(f)
        return fs
    na = R('nact')
    cur = list(I.s0)  # a drifting state to keep preconditions satisfiable
    for i in range(na):
        pre = rprec(R('prec'), cur if cur else None); add = []; de = []; used = set()
        if not ch(P['effless']):
            for _ in range(R('eff')):
                f = rng.randrange(len(I.facts))
                if f in gof:
                    g = gof[f]
                    if ('g', g) in used: continue
                    used.add(('g', g)); have = [x for x in pre if gof.get(x) == g]
                    if have:
                        if have[0] == f:
                            if not ch(P['redundant']): continue
                            add.append(f)
                        else: add.append(f); de.append(have[0])
                    else: add.append(f); de += [x for x in groups[g] if x != f]
                else:
                    if f in used: continue
                    used.add(f)
                    if ch(0.62):
                        if f in pre and not ch(P['redundant']): continue
                        add.append(f)
                    else: de.append(f)
        rng.shuffle(pre); rng.shuffle(add); rng.shuffle(de); recent += add
        I.actions.append(Action(['a%d' % i, 'act%d[x,y%d]' % (i, i), 'Do-it_%d' % i][style], cost(), pre, add, de))
        if set(pre) <= set(cur): cur = sorted((set(cur) - set(de)) | set(add))
    if ch(P['goal']): I.goal = sorted(rprec(rng.randint(1, 2), cur if cur else None)) if not P['classical'] else sorted(set(rng.choice(recent or [0]) for _ in range(rng.randint(1, 3))))
    # task ids are symbolic while building: ('p',i) / ('a',j)
    nabs = R('nabs'); A = [('a', j) for j in range(nabs)]
    meths = []
    noop = None
    def noopact():
        nonlocal noop
        if noop is None:
            I.actions.append(Action('__noop', 0, [], [], [])); noop = ('p', len(I.actions) - 1)
        return noop
    def orders(n, kind):
        perm = list(range(n)); rng.shuffle(perm)
        if kind == 'to':
            if ch(0.5): return [(perm[i], perm[i + 1]) for i in range(n - 1)]
            return [(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n)]
        p = rng.choice([0, 0.2, 0.4, 0.6])
        return [(perm[i], perm[j]) for i in range(n) for j in range(i + 1, n) if ch(p)]
    def okind():
        return {'to': 'to', 'po': 'po', 'mixed': rng.choice(['to', 'po']), 'parseq': 'to'}[P['order']]
    def add_method(name, task, subs, kind):
        if ch(P['noop']) and kind != 'parseqtop': subs = subs + [noopact()]
        n = len(subs); o = orders(n, kind)
        if ch(P['mprec']) and kind != 'parseqtop':
            pre = rprec(rng.randint(1, 2), cur or None)
            if pre:
                I.actions.append(Action('__method_precondition_' + name, 0, pre, [], []))
                subs = [('p', len(I.actions) - 1)] + subs; o = [(a + 1, b + 1) for a, b in o] + [(0, b) for b in range(1, n + 1)]
                if ch(0.5): # put it elsewhere in the list
                    perm = list(range(n + 1)); rng.shuffle(perm); subs2 = [None] * (n + 1)
                    for i, q in enumerate(perm): subs2[q] = subs[i]
                    subs = subs2; o = [(perm[a], perm[b]) for a, b in o]
        rng.shuffle(o); meths.append((name, task, subs, o))
    if P['classical']: # one task that applies any sequence of actions
        nabs = 1; A = [('a', 0)]
        for i in range(na): meths.append(('do%d' % i, A[0], [('p', i), A[0]], [(0, 1)]))
        meths.append(('finish', A[0], [noopact()], []))
    for j in range(0 if P['classical'] else nabs):
        for k in range(R('nmeth')):
            subs = []
            for _ in range(R('nsub')):
                r = rng.random()
                if r < P['absp'] and nabs > 1:
                    if ch(P['rec']): subs.append(rng.choice(A))
                    elif j + 1 < nabs: subs.append(('a', rng.randrange(j + 1, nabs)))
                    else: subs.append(('p', rng.randrange(na)))
                elif r < P['absp'] and ch(P['rec']): subs.append(A[j])
                else: subs.append(('p', rng.randrange(na)))
            if k == 0 and ch(0.7): subs = [x if x[0] == 'p' or x[1] > j else ('p', rng.randrange(na)) for x in subs] # mostly well-founded
            add_method('m%d_%d' % (j, k) if style != 1 else 'm-%d[k%d]' % (j, k), ('a', j), subs, okind())
    top = []
    for _ in range(1 if P['classical'] else R('top')): top.append(rng.choice(A) if ch(0.7) or P['classical'] else ('p', rng.randrange(na)))
    if P['order'] == 'parseq': # several unrelated sequences
        subs = []; o = []
        for t in top:
            ln = rng.randint(1, 2); base = len(subs)
            subs += [t] + [rng.choice(A + [('p', x) for x in range(na)]) for _ in range(ln - 1)]; o += [(base + i, base + i + 1) for i in range(ln - 1)]
        if ch(0.3) and len(subs) > 2: # out-tree / in-tree tops
            k = rng.randrange(len(subs)); o = [(k, x) for x in range(len(subs)) if x != k] if ch(0.5) else [(x, k) for x in range(len(subs)) if x != k]
        meths.append(('__top_method', 'top', subs, o))
    else: add_method('__top_method', 'top', top, okind())
    # keep what is reachable
    reach = ['top']; seen = {'top'}
    while reach:
        t = reach.pop()
        for m in meths:
            if m[1] == t:
                for s in m[2]:
                    if s not in seen: seen.add(s); reach.append(s)
    pm = {}; acts = []
    for i, a in enumerate(I.actions):
        if ('p', i) in seen: pm[('p', i)] = len(acts); acts.append(a)
    I.actions = acts
    if ch(P['overlap']): # actions deleting facts that they also add
        for a in I.actions: a.dele += [f for f in a.add if ch(0.5)]; rng.shuffle(a.dele)
    names = [x for x in A if x in seen] + ['top']; rng.shuffle(names)
    for x in names: pm[x] = len(acts) + len(I.abs); I.abs.append('__top' if x == 'top' else ['T%d', 'task%d[q]', 't-%d'][style] % x[1])
    I.init = pm['top']
    ms = [m for m in meths if m[1] in seen]; rng.shuffle(ms)
    I.methods = [Method(m[0], pm[m[1]], [pm[s] for s in m[2]], m[3]) for m in ms]
    if P['mutexinfo']: add_mutex_info(rng, I)
    if P['pad']: pad(I, rng)
    if P['pow2']: pow2(I, rng)
    if P['order'] == 'to': assert all(is_total(m) for m in I.methods)
    return I
def is_total(m):
    n = len(m.subs); r = closure(n, m.ord)
    return all(r[i][j] or r[j][i] for i in range(n) for j in range(i))
def pad(I, rng):
    "adds facts (and some actions) that are irrelevant, so that word-size boundaries are crossed"
    k = rng.choice([31, 32, 33, 63, 64, 65, 66, 80, 100, 120]) - len(I.facts)
    if k > 0:
        late = rng.random() < 0.5; nv = len(I.vars); slots = sorted(rng.randint(0, 0 if late else nv) for _ in range(k))
        facts = []; vs = []; mp = {}; extra = []; j = 0
        for vi in range(nv + 1):
            while j < k and slots[j] == vi:
                f = len(facts); facts.append('pad%d' % j); vs.append((f, f, 'padvar%d' % j)); extra.append(f); j += 1
            if vi < nv:
                a, b, n = I.vars[vi]; f = len(facts)
                for q in range(a, b + 1): mp[q] = f + q - a; facts.append(I.facts[q])
                vs.append((f, f + b - a, n))
        I.facts = facts; I.vars = vs; M = lambda v: [(mp[x] if x >= 0 else -mp[-x - 2] - 2) for x in v]
        I.strict = [M(x) for x in I.strict]; I.mutex = [M(x) for x in I.mutex]; I.inv = [M(x) for x in I.inv]
        for a in I.actions: a.prec = M(a.prec); a.add = M(a.add); a.dele = M(a.dele)
        t = [f for f in extra if rng.random() < 0.3]; I.s0 = sorted(M(I.s0) + t); I.goal = M(I.goal)
        for a in I.actions: # a few facts that are set without being of use
            if rng.random() < 0.3 and not a.name.startswith('__'): (a.add if rng.random() < 0.5 else a.dele).append(rng.choice(extra))
    if rng.random() < 0.4 and len(I.abs) > 1: # many tasks: an abstract task with one method per additional action
        addtasks(I, rng, rng.choice([16, 32, 33, 64, 70, 130, 260]))
def pow2(I, rng):
    "makes the number of tasks a power of two, or one more or less"
    k = len(I.actions) + len(I.abs) + 2; t = 4
    while t < k: t *= 2
    addtasks(I, rng, t + rng.choice([0, 0, 0, 0, 1, -1]))
def addtasks(I, rng, total):
    if len(I.abs) > 1:
        n = total - 1 - len(I.actions) - len(I.abs); old = len(I.actions)
        if n > 0:
            prec = [f for f in range(len(I.facts)) if f not in I.s0] or [0]
            for q in range(n): I.actions.append(Action('padact%d' % q, rng.randint(0, 3), [rng.choice(prec)], [], [rng.randrange(len(I.facts))]))
            I.init += n
            for m in I.methods: m.task += n; m.subs = [s + n if s >= old else s for s in m.subs]
            t = len(I.actions) + len(I.abs); I.abs.append('padtask')
            for q in range(n): I.methods.append(Method('padmethod%d' % q, t, [old + q], []))
            I.methods.append(Method('padchoice', rng.choice([x for x in range(len(I.actions), t) if x != I.init]), [t], []))
def mask(v):
    r = 0
    for x in v: r |= 1 << x
    return r
def reachable(I, limit=4000):
    "all states reachable from s0 by executable action sequences (ignoring the hierarchy); None if too many"
    A = [(mask(a.prec), mask(a.add), mask(a.dele)) for a in I.actions]
    s0 = mask(I.s0); seen = {s0}; st = [s0]
    while st:
        s = st.pop()
        for p, a, d in A:
            if s & p == p:
                t = (s & ~d) | a
                if t not in seen:
                    if len(seen) >= limit: return None
                    seen.add(t); st.append(t)
    return seen
def add_mutex_info(rng, I):
    S = reachable(I, 600)
    if S is None or rng.random() < 0.3: return
    n = len(I.facts); never = set()
    pairs = [(a, b) for a in range(n) for b in range(a) if not any(s >> a & 1 and s >> b & 1 for s in S)]
    vg = {f: (a, b) for a, b, _ in I.vars for f in range(a, b + 1)}
    pairs = [p for p in pairs if not (vg[p[0]] == vg[p[1]])]
    rng.shuffle(pairs)
    for a, b in pairs[:rng.randint(0, 3)]:
        g = [a, b]
        for c in range(n):
            if c not in g and rng.random() < 0.5 and all(not any(s >> c & 1 and s >> x & 1 for s in S) for x in g): g.append(c)
        # strict: exactly one in every reachable state
        if all(sum(s >> x & 1 for x in g) == 1 for s in S): I.strict.append(sorted(g))
        else: I.mutex.append(sorted(g))
    lits = list(range(n)) + [-i - 2 for i in range(n)]
    tv = lambda l, s: (s >> l & 1) if l >= 0 else not (s >> (-l - 2) & 1)
    for _ in range(rng.randint(0, 3)):
        c = rng.sample(lits, 2) if len(lits) >= 2 else lits
        if (c[0] if c[0] >= 0 else -c[0] - 2) == (c[1] if c[1] >= 0 else -c[1] - 2): continue
        if all(any(tv(l, s) for l in c) for s in S): I.inv.append(c)

# ---------------------------------------------------------------- plans
class Plan:
    def __init__(s): s.acts = []; s.root = None; s.dec = {}; s.raw = ''; s.succ = {}; s.problems = []
def parse_plans(out):
    "all ==> ... <== blocks"
    res = []; cur = None
    for line in out.split('\n'):
        if line.startswith('==>'): cur = Plan(); cur.raw = ''; continue
        if cur is None: continue
        if line.startswith('<=='): res.append(cur); cur = None; continue
        cur.raw += line + '\n'
        w = line.split()
        if not w: continue
        if w[0] == 'root': 
            if len(w) < 2 or not w[1].lstrip('-').isdigit(): cur.problems.append('bad root line: ' + line); continue
            cur.root = int(w[1])
        elif not w[0].lstrip('-').isdigit(): cur.problems.append('unreadable line: ' + line)
        elif '->' in w:
            k = w.index('->')
            try: cur.dec_add(int(w[0]), ' '.join(w[1:k]), w[k + 1], [int(x) for x in w[k + 2:]])
            except Exception: cur.problems.append('unreadable decomposition: ' + line)
        elif len(w) >= 2: cur.acts.append((int(w[0]), ' '.join(w[1:])))
        else: cur.problems.append('unreadable line: ' + line)
    if cur is not None: cur.problems.append('unterminated plan'); res.append(cur)
    return res
def _dec_add(s, i, task, meth, ch):
    if i in s.dec: s.problems.append('duplicate decomposition id %d' % i)
    s.dec[i] = (task, meth, ch)
Plan.dec_add = _dec_add

def validate(I, plan):
    "None if the plan is a valid solution with a valid decomposition tree, else the reason. Also sets plan.cost"
    if plan.problems: return '; '.join(plan.problems[:3])
    idx = {}
    for i, a in enumerate(I.actions): idx.setdefault(a.name, []).append(i)
    A = []
    for i, n in plan.acts:
        if n not in idx: return 'unknown action %r' % n
        if len(idx[n]) > 1: return None if False else 'ambiguous'
        A.append(idx[n][0])
    ids = [i for i, _ in plan.acts]
    if len(set(ids)) != len(ids): return 'action ids not unique'
    if set(ids) & set(plan.dec): return 'id used for action and decomposition'
    s = mask(I.s0); plan.cost = 0
    for k, a in enumerate(A):
        act = I.actions[a]; p = mask(act.prec)
        if s & p != p: return 'action %d (%s) not applicable at step %d' % (ids[k], act.name, k)
        s = (s & ~mask(act.dele)) | mask(act.add); plan.cost += act.cost
    if s & mask(I.goal) != mask(I.goal): return 'goal not reached'
    if plan.root is None: return 'no root'
    an = {n: I.na + k for k, n in enumerate(I.abs)}
    mn = {}
    for m in I.methods: mn.setdefault(m.name, []).append(m)
    pos = {i: k for k, i in enumerate(ids)}; tid = {i: A[k] for k, i in enumerate(ids)}
    if plan.root in tid: return 'root is an action'
    if plan.root not in plan.dec: return 'root not decomposed'
    for i, (t, m, c) in plan.dec.items():
        if t not in an: return 'unknown task %r' % t
        tid[i] = an[t]
    if tid[plan.root] != I.init: return 'root is not the initial task'
    visited = set(); order = []
    st = [plan.root]
    while st:
        x = st.pop()
        if x in visited: return 'id %d occurs twice in the tree' % x
        visited.add(x); order.append(x)
        if x in plan.dec:
            for c in plan.dec[x][2]:
                if c not in tid: return 'child %d not in plan' % c
                st.append(c)
    if visited != set(tid): return 'ids not in the tree: %s' % sorted(set(tid) - visited)[:5]
    leaves = {}
    for x in reversed(order):
        leaves[x] = [pos[x]] if x in pos else [l for c in plan.dec[x][2] for l in leaves[c]]
    for x in order:
        if x not in plan.dec: continue
        t, mname, ch = plan.dec[x]
        c = [m for m in mn.get(mname, []) if m.task == tid[x]]
        if not c: return 'method %r does not decompose task %r' % (mname, t)
        if not any(_match(m, ch, tid, leaves) for m in c): return 'children of %d do not fit method %r (tasks or ordering)' % (x, mname)
    return None
def _match(m, ch, tid, leaves, collect=None):
    n = len(m.subs)
    if sorted(tid[c] for c in ch) != sorted(m.subs): return False
    r = closure(n, m.ord)
    asg = [None] * n; used = [False] * n
    def before(a, b):
        la, lb = leaves[a], leaves[b]
        return not la or not lb or max(la) < min(lb)
    def rec(i):
        if i == n:
            if collect is None: return True
            collect.append([ch[k] for k in asg]); return len(collect) > 200
        for k in range(n):
            if used[k] or tid[ch[k]] != m.subs[i]: continue
            if all((not r[j][i] or before(ch[asg[j]], ch[k])) and (not r[i][j] or before(ch[k], ch[asg[j]])) for j in range(i)):
                used[k] = True; asg[i] = k
                if rec(i + 1): return True
                used[k] = False
        return False
    return rec(0)

def order_mismatch(I, plan, got):
    "compares a printed order relation over action ids with the one the (valid) decomposition tree induces; None if equal"
    idx = {a.name: k for k, a in enumerate(I.actions)}; an = {n: I.na + k for k, n in enumerate(I.abs)}
    tid = {i: idx[n] for i, n in plan.acts}; tid.update({i: an[d[0]] for i, d in plan.dec.items()}); pos = {i: k for k, (i, _) in enumerate(plan.acts)}
    ids = {}
    def lv(x):
        if x not in ids: ids[x] = {x} if x in pos else set().union(*[lv(c) for c in plan.dec[x][2]])
        return ids[x]
    lv(plan.root); leaves = {x: [pos[y] for y in v] for x, v in ids.items()}; total = set()
    for x, (t, mname, ch) in plan.dec.items():
        here = {(a, b) for a, b in got if any(a in ids[c] for c in ch) and any(b in ids[c] for c in ch) and not any(a in ids[c] and b in ids[c] for c in ch)}
        total |= here; opts = []
        for m in I.methods:
            if m.name != mname or m.task != tid[x]: continue
            col = []; _match(m, ch, tid, leaves, col); r = closure(len(m.subs), m.ord)
            for a in col: opts.append({(u, v) for i in range(len(m.subs)) for j in range(len(m.subs)) if r[i][j] for u in ids[a[i]] for v in ids[a[j]]})
        if here not in opts:
            w = min(opts, key=lambda o: len(o ^ here)) if opts else set()
            return 'below decomposition %d: printed but not implied %s, implied but not printed %s' % (x, sorted(here - w)[:5], sorted(w - here)[:5])
    if total != got: return 'pairs outside of the tree: %s' % sorted(got - total)[:5]
    return None
# ---------------------------------------------------------------- reading (for replays and shrinking)
def parse(txt):
    L = [l for l in txt.split('\n') if l.strip() and not l.startswith(';;')]; it = iter(L); I = Inst()
    lst = lambda: [int(x) for x in next(it).split()][:-1]
    I.facts = [next(it) for _ in range(int(next(it)))]
    for _ in range(int(next(it))): a, b, n = next(it).split(None, 2); I.vars.append((int(a), int(b), n))
    for tgt in (I.strict, I.mutex, I.inv):
        for _ in range(int(next(it))): tgt.append(lst())
    na = int(next(it)); raw = []
    for _ in range(na): raw.append((int(next(it)), lst(), lst()[1::2], lst()[1::2]))
    I.s0 = lst(); I.goal = lst(); nt = int(next(it)); names = []
    for _ in range(nt): names.append(next(it).split(None, 1)[1])
    for i in range(na): I.actions.append(Action(names[i], *raw[i]))
    I.abs = names[na:]; I.init = int(next(it))
    for _ in range(int(next(it))):
        n = next(it); t = int(next(it)); s = lst(); o = lst(); I.methods.append(Method(n, t, s, list(zip(o[::2], o[1::2]))))
    return I

def binarise(I, rng=None):
    "the same totally ordered problem with at most two subtasks per method, as the grounder writes it for the symbolic search"
    J = Inst(); J.__dict__.update({k: v for k, v in I.__dict__.items()}); J.abs = list(I.abs); J.methods = []; J.tags = dict(I.tags)
    for m in I.methods:
        n = len(m.subs); r = closure(n, m.ord); pos = sorted(range(n), key=lambda i: sum(r[j][i] for j in range(n))); subs = [m.subs[i] for i in pos]; task = m.task; k = 0; name = m.name
        while len(subs) > 2:
            J.abs.append('%s_rest%d' % (m.name, k)); x = I.na + len(J.abs) - 1
            J.methods.append(_two(name, task, [subs[0], x], rng)); task = x; subs = subs[1:]; name = '%s_split%d' % (m.name, k); k += 1
        J.methods.append(_two(name, task, subs, rng))
    return J
def _two(name, task, subs, rng):
    if len(subs) == 2 and rng is not None and rng.random() < 0.3: return Method(name, task, [subs[1], subs[0]], [(1, 0)])
    return Method(name, task, subs, [(0, 1)] if len(subs) == 2 else [])

def explode(rng):
    "solvable problem whose additive estimates double with every level (and so may leave the range of int)"
    I = Inst(); I.tags['profile'] = 'explode'; L = rng.randint(26, 36); C = rng.randint(1, 7); X = lambda l, k: 2 * l + k
    I.facts = ['+x[%d,%d]' % (f // 2, f % 2) for f in range(2 * L + 2)]; I.vars = [(f, f, 'v%d' % f) for f in range(2 * L + 2)]
    I.s0 = [0, 1]; I.goal = rng.choice([[], [2 * L], [2 * L, 2 * L + 1]])
    for l in range(1, L + 1):
        for k in range(2): I.actions.append(Action('a%d_%d' % (l, k), C, [X(l - 1, 0), X(l - 1, 1)], [X(l, k)], []))
    n = I.na; I.actions += [Action('noop', 0, [], [], []), Action('fin', 1, [X(L, 0), X(L, 1)], [], [])]
    I.abs = ['top', 'do']; T, D, F = I.na, I.na + 1, n + 1; I.init = T; k = rng.randint(1, 3)
    I.methods = [Method('m', T, [D] + [F] * k, [(i, i + 1) for i in range(k)]), Method('stop', D, [n], [])]
    I.methods += [Method('m%d' % a, D, [a, D], [(0, 1)]) for a in range(n)]
    if rng.random() < 0.4: # an alternative whose shortest refinement is exponentially long
        b = len(I.abs) + I.na; K = rng.randint(30, 36); I.abs += ['big%d' % j for j in range(K)]
        I.methods.append(Method('base', b, [n, n + 1], [(0, 1)])); I.methods += [Method('twice%d' % j, b + j, [b + j - 1] * 2, [(0, 1)]) for j in range(1, K)]
        I.methods.append(Method('alternative', T, [b + K - 1, D] * rng.randint(1, 2), [(0, 1)]))
    rng.shuffle(I.methods)
    return I, dict(status=1, len=4 * L, cost=C * 2 * L + k, finite=False, nodes=10**6, exact=False)
