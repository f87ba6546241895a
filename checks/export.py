"""M02: the HDDL export is read back by an independent reader and compared with the input as a structure."""
import hashlib, os, random, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, common, htn
from common import Check, Ref, run
import prog_util as U
class Bad(Exception): pass
def sexp(t):
    t = re.sub(r';[^\n]*', '', t); st = [[]]
    for k in re.findall(r'[()]|[^\s()]+', t):
        if k == '(': st.append([])
        elif k == ')':
            if len(st) < 2: raise Bad('unbalanced parentheses')
            x = st.pop(); st[-1].append(x)
        else: st[-1].append(k.lower())
    if len(st) != 1: raise Bad('unbalanced parentheses')
    return st[0]
def conj(x):
    if x == []: return []
    return x[1:] if x[0] == 'and' else [x]
class Prob:
    "names of facts, actions name->(prec,add,del), abstract tasks, methods (task, prec, subtask names, order), s0, goal, initial subtasks + order"
    pass
def network(items, order, ordered):
    names = []; ids = {}
    for it in items:
        if len(it) == 2 and isinstance(it[1], list):
            if it[0] in ids: raise Bad('identifier %s of a subtask used twice' % it[0])
            ids[it[0]] = len(names); names.append(it[1][0])
        else: names.append(it[0])
    o = []
    for r in order:
        if len(r) == 3 and r[1] == '<': a, b = r[0], r[2]
        elif len(r) == 3 and r[0] == '<': a, b = r[1], r[2]
        else: raise Bad('ordering constraint %s' % r)
        for x in (a, b):
            if x not in ids: raise Bad('ordering constraint names the unknown subtask %s' % x)
        o.append((ids[a], ids[b]))
    if ordered: o += [(i, i + 1) for i in range(len(names) - 1)]
    return names, o
def fields(l):
    r = {}; i = 0
    while i < len(l):
        if not isinstance(l[i], str) or not l[i].startswith(':'): raise Bad('keyword expected instead of %s' % (l[i],))
        if i + 1 >= len(l): raise Bad('%s has no value' % l[i])
        if l[i] in r: raise Bad('%s given twice' % l[i])
        r[l[i]] = l[i + 1]; i += 2
    return r
def net_of(f):
    it = None; ordered = False
    for k in (':subtasks', ':tasks'):
        if k in f: it = f[k]
    for k in (':ordered-subtasks', ':ordered-tasks'):
        if k in f: it = f[k]; ordered = True
    od = f.get(':ordering', f.get(':order', []))
    return network(conj(it) if it else [], conj(od), ordered)
def read_hddl(d, p):
    P = Prob(); P.facts = []; P.act = {}; P.abs = []; P.meth = []; mn = set()
    d = sexp(d); p = sexp(p)
    if len(d) != 1 or len(p) != 1: raise Bad('one definition per file expected, found %d and %d' % (len(d), len(p)))
    d, p = d[0], p[0]
    if d[0] != 'define' or d[1][0] != 'domain' or p[0] != 'define' or p[1][0] != 'problem': raise Bad('no definition')
    dn = d[1][1]
    for x in d[2:]:
        if x[0] == ':predicates': P.facts += [y[0] for y in x[1:]]
        elif x[0] == ':task': P.abs.append(x[1])
        elif x[0] == ':action':
            f = fields(x[2:])
            if x[1] in P.act: raise Bad('action %s defined twice' % x[1])
            e = conj(f.get(':effect', [])); P.act[x[1]] = ([y[0] for y in conj(f.get(':precondition', []))], [y[0] for y in e if y[0] != 'not'], [y[1][0] for y in e if y[0] == 'not'])
        elif x[0] == ':method':
            f = fields(x[2:])
            if x[1] in mn: raise Bad('method %s defined twice' % x[1])
            mn.add(x[1]); n, o = net_of(f); P.meth.append((f[':task'][0], [y[0] for y in conj(f.get(':precondition', []))], n, o))
        elif x[0] not in (':requirements', ':types', ':constants'): raise Bad('unknown section %s' % x[0])
    for l, w in ((P.facts, 'predicate'), (P.abs + list(P.act), 'task')):
        if len(set(l)) < len(l): raise Bad('%s declared twice: %s' % (w, [q for q in l if l.count(q) > 1][0]))
    P.s0 = []; P.goal = []; P.init = None
    for x in p[2:]:
        if x[0] == ':domain':
            if x[1] != dn: raise Bad('problem belongs to domain %s, not %s' % (x[1], dn))
        elif x[0] == ':htn': P.init = net_of(fields(x[1:]))
        elif x[0] == ':init': P.s0 = [y[0] for y in x[1:]]
        elif x[0] == ':goal': P.goal = [y[0] for y in conj(x[1])]
        elif x[0] not in (':objects', ':requirements'): raise Bad('unknown section %s' % x[0])
    if P.init is None: raise Bad('no initial task network')
    F = set(P.facts); T = set(P.abs) | set(P.act)
    for a, e in P.act.items():
        for l in e:
            for y in l:
                if y not in F: raise Bad('unknown predicate %s in %s' % (y, a))
    for m in P.meth:
        if m[0] not in P.abs: raise Bad('method for the unknown task %s' % m[0])
        for y in m[1]:
            if y not in F: raise Bad('unknown predicate %s in a method' % y)
    for n in [m[2] for m in P.meth] + [P.init[0]]:
        for y in n:
            if y not in T: raise Bad('undefined task %s' % y)
    for y in P.s0 + P.goal:
        if y not in F: raise Bad('unknown predicate %s in the problem' % y)
    return P
def of_inst(I):
    P = Prob(); P.facts = list(range(len(I.facts))); P.act = {i: (a.prec, a.add, a.dele) for i, a in enumerate(I.actions)}; P.abs = list(range(I.na, I.ntasks()))
    P.meth = [(m.task, [], m.subs, m.ord) for m in I.methods]; P.s0 = I.s0; P.goal = I.goal; P.init = ([I.init], []); return P
def reduce_net(P, names, ords, isnoop, isprec):
    "closed order without empty steps; a leading precondition action becomes a precondition"
    r = htn.closure(len(names), ords); prec = None
    for i in range(len(names)):
        if r[i][i]: raise Bad('cyclic ordering')
    cand = [i for i in range(len(names)) if isprec(names[i])]
    if len(cand) == 1 and all(r[cand[0]][j] for j in range(len(names)) if j != cand[0]): prec = cand[0]
    keep = [i for i in range(len(names)) if i != prec and not isnoop(names[i])]
    return (P.act[names[prec]][0] if prec is not None else []), [names[i] for i in keep], [(keep.index(a), keep.index(b)) for a in keep for b in keep if r[a][b]]
def H(*x): return hashlib.md5(repr(x).encode()).hexdigest()[:16]
def canon(P, isnoop, isprec):
    "colours of facts, actions, tasks, methods after refinement, independent of names"
    meth = []
    for t, pr, n, o in P.meth:
        q, n2, o2 = reduce_net(P, n, o, isnoop, isprec); meth.append((t, sorted(set(list(pr) + list(q)), key=str), n2, o2))
    init = reduce_net(P, P.init[0], P.init[1], isnoop, isprec)
    used = {x for m in meth for x in m[2]} | set(init[1]); act = {a: e for a, e in P.act.items() if a in used}
    fc = {f: H('f', f in set(P.s0), f in set(P.goal)) for f in P.facts}; tc = {a: 'a' for a in act}; tc.update({t: 't' for t in P.abs}); mc = [''] * len(meth)
    for _ in range(6):
        S = lambda l, c: sorted(c[x] for x in set(l))
        ta = {a: H(tc[a], S(e[0], fc), S(e[1], fc), S([x for x in e[2] if x not in e[1]], fc)) for a, e in act.items()}
        nc = []
        for t, pr, n, o in meth:
            c = [tc[x] for x in n]
            for _ in range(3): c = [H(c[i], sorted(c[a] for a, b in o if b == i), sorted(c[b] for a, b in o if a == i)) for i in range(len(n))]
            nc.append((H(tc[t], S(pr, fc), sorted(c)), c))
        for t in P.abs: ta[t] = H(tc[t], sorted(nc[i][0] for i, m in enumerate(meth) if m[0] == t))
        occ = {}
        for i, m in enumerate(meth):
            for j, x in enumerate(m[2]): occ.setdefault(x, []).append((nc[i][0], nc[i][1][j]))
        for t in ta: ta[t] = H(ta[t], sorted(occ.get(t, [])))
        fo = {f: [] for f in P.facts}
        for a, e in act.items():
            for k in range(3):
                for f in set(e[k]):
                    if k == 2 and f in e[1]: continue
                    fo[f].append((k, ta[a]))
        for i, m in enumerate(meth):
            for f in m[1]: fo[f].append((3, nc[i][0]))
        fc = {f: H(fc[f], sorted(fo[f])) for f in P.facts}; tc = ta; mc = [x[0] for x in nc]
    i = H(sorted(tc[x] for x in init[1]), len(init[2]), sorted(fc[f] for f in init[0]))
    return fc, tc, sorted(mc), i
def squeeze(n): return re.sub(r'[^a-z0-9]|[pmx]', '', n.lower())
def m02(c, i, seed, ctx):
    rng = random.Random(seed); path = U.mkpath(ctx); I = htn.gen(rng, rng.choice(U.PROFS)); col = rng.random() < 0.15
    if col: # names that differ in special characters only
        pool = ['a_b[c]', 'a[b,c]', 'a[b-c]', 'a[bmc]', 'a[b+c]', 'a[bpc]', 'a_b_c_', 'a<b>c', 'a|b|c', 'a!b?c']; rng.shuffle(pool)
        for f in range(min(len(pool), len(I.facts))):
            if rng.random() < 0.6: I.facts[f] = pool[f]
        rng.shuffle(pool); k = 0
        for a in I.actions:
            if not a.name.startswith('__') and k < len(pool) and rng.random() < 0.6: a.name = pool[k]; k += 1
        for t in range(len(I.abs)):
            if k < len(pool) and rng.random() < 0.5: I.abs[t] = pool[k]; k += 1
        c.n('exports_with_similar_names')
    htn.write(I, path); r = run([ctx['exe'], '--writeInputToHDDL', path], cpu=10); c.evals += 1; t = {}
    for x in ('.d.hddl', '.p.hddl'):
        if os.path.exists(path + x): t[x] = open(path + x).read(); os.remove(path + x)
    files = dict({'input.htn': htn.text(I), 'stdout.txt': r.out}, **{'export' + k: v for k, v in t.items()})
    if r.timeout: c.n('stopped_by_cpu_limit'); return
    if r.rc != 0 or len(t) != 2: c.bad('no-export', 'status %d, %d files written: %s' % (r.rc, len(t), r.err[-200:]), files, '--writeInputToHDDL'); return
    O = of_inst(I); onoop = lambda x: x < I.na and I.tname(x).startswith('__noop') and not any(O.act[x]); oprec = lambda x: x < I.na and I.tname(x).startswith('__method_precondition') and not O.act[x][1] and not O.act[x][2]
    try:
        P = read_hddl(t['.d.hddl'], t['.p.hddl'])
        pnoop = lambda x: x in P.act and squeeze(x).startswith('noo') and not any(P.act[x]); pprec = lambda x: x in P.act and squeeze(x).startswith('ethodrecondition') and not P.act[x][1] and not P.act[x][2]
        b = canon(P, pnoop, pprec)
    except Bad as e: c.bad('malformed', str(e), files, '--writeInputToHDDL'); return
    except (IndexError, KeyError, TypeError) as e: c.bad('malformed', 'not understood: %r' % e, files, '--writeInputToHDDL'); return
    a = canon(O, onoop, oprec)
    for w, x, y in (('initial task network', a[3], b[3]), ('methods', a[2], b[2]), ('tasks', sorted(a[1].values()), sorted(b[1].values())), ('facts', sorted(a[0].values()), sorted(b[0].values()))):
        if x != y: c.bad('different', 'the exported problem differs in its %s (%d classes in the input, %d in the export)' % (w, len(set(x)), len(set(y))), files, '--writeInputToHDDL'); return
    if not col:
        for x, y, nm in ((a[0], b[0], lambda q: I.facts[q]), (a[1], b[1], lambda q: I.tname(q))):
            n1 = sorted((v, squeeze(nm(k))) for k, v in x.items()); n2 = sorted((v, squeeze(k)) for k, v in y.items())
            if n1 != n2: c.bad('names', 'names of the input are attached to other elements: %s' % [q for q in zip(n1, n2) if q[0] != q[1]][:2], files, '--writeInputToHDDL'); return
    c.n('exports_compared'); c.n('methods_compared', len(I.methods)); c.n('orderings_compared', sum(len(m.ord) for m in I.methods)); c.nontrivial.append(hash(htn.text(I)))
    if any(onoop(s) for m in I.methods for s in m.subs): c.n('exports_with_noop')
    if any(oprec(s) for m in I.methods for s in m.subs): c.n('exports_with_method_preconditions')
    if i < 2: c.sample = dict(domain=t['.d.hddl'][:1500])
def main():
    C = Check('M02', 'random problems exported as HDDL, read back and compared by name-independent colour refinement; non-trivial = distinct problem compared')
    C.cases(m02, C.n(3000, 60000), dict(exe=build.build('engine', 'fast', sat=True), tmp=C.tmp), limit_viol=int(os.environ.get('VERIF_LIMIT', '3')))
    C.finish(['exports_compared', 'orderings_compared', 'exports_with_noop', 'exports_with_method_preconditions', 'exports_with_similar_names'])
if __name__ == '__main__': common.main_guard(main)
