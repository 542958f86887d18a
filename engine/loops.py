"""Summaries of loops.

A loop is first followed as long as its iterations are decided by what is known. Once the number of iterations
depends on an unknown, its effect on each variable is inferred (integers which grow by a constant, rows which are
appended to or filled in, sums), written as a function of the number k of iterations done, and confirmed by
interpreting one general iteration from that state: it must lead to the same description with k+1 for k. Whatever
cannot be described so is forgotten (widened to an unknown).
"""
from terms import *
from interp import *

_n = [0]


def summarise(ip, st, step, clean, key, typeof=lambda c: None, tidy=lambda s, o: None):
    """Outcomes of a loop entered with a state: those of step() other than ('back',)."""
    results = []
    start = clean(st)
    todo = [(start, 0, 0)]
    scanned = False
    unrolled = 0
    peeled = 0
    while todo:
        s, depth, ways = todo.pop()
        outs = step(s.copy())
        backs = [clean(x) or x for x, o in outs if o[0] == 'back']
        if touched(ip, s, backs) or narrowed(ip, s, backs):
            todo.append((s, depth, ways))
            continue
        backs = [(x, ('back',)) for x in joined(s, backs)]
        exits = [(x, o) for x, o in outs if o[0] != 'back']
        if not backs:
            results += exits
            continue
        n0 = len(s.conds)
        counting = any(is_counting(c[3]) for x, o in outs for c in x.conds[n0:])
        progress = all(progresses(s, x) for x, o in backs)
        ways += len(backs) > 1
        if not scanned and not counting and progress and (depth >= 6 and len(results) >= 6 or ways > 2):
            scanned = True
            r = scanning(start, step, clean, tidy)
            if r is not None:
                return r
        if not counting and (progress or depth < 2) and depth < ip.MAXUNROLL and len(todo) < 200 and ways <= 2:
            results += exits
            todo += [(x, depth + 1, ways) for x, o in backs]
            continue
        if ip.deep:
            r = generalise(ip, s, step, clean, key, [x for x, o in backs], typeof)
            if isinstance(r, list):
                results += r
                continue
        same = [x for x, o in backs if same_shape(s, x)]
        if same and peeled <= 8 and (ways <= 2 or len(same) == len(backs)):
            r = generalise(ip, s, step, clean, key, same)
        else:
            r = 'mismatch'
        if isinstance(r, list):
            # What returns in another shape enters the loop anew.
            again = [(x, depth + 1, ways) for x, o in r if o[0] == 'back']
            peeled += bool(again)
            todo += again
            results += [(x, o) for x, o in r if o[0] != 'back']
            continue
        if peeled > 8 or ways > 2:
            r = generalise(ip, s, step, clean, key, [x for x, o in backs], typeof)
            if isinstance(r, list):
                results += r
                continue
        # The shapes differ: treat what comes after one iteration as another loop.
        peeled += 1
        if peeled > 12:
            raise Unsupported('loop at %s in %s' % (key[1], key[0]))
        results += exits
        todo += [(x, depth + 1, ways) for x, o in backs]
    return results


def scanning(start, step, clean, tidy):
    """A loop with a known number of iterations which looks for something: however long it looks, it ends in one of
    two ways, of which one is that every iteration took the same course. None if it is another kind of loop."""
    def add(groups, x, o, path):
        for g in groups:
            if g[1] == o and g[0].mem == x.mem and g[0].ev == x.ev:
                if g[2] is not None or path is not None or g[0].facts is not start.facts:
                    m = start.copy()
                    m.mem, m.ev, m.depth = x.mem, x.ev, x.depth
                    g[0], g[2] = m, None
                return
        groups.append([x, o, path])

    def extended(path, s, x):
        if path is None:
            return None
        eqs = []
        for m in x.subs[len(s.subs):]:
            for v, e in m.items():
                if v.t != 'ia' or e.t != 'int':
                    raise NoJoin()
                eqs.append((I(v), e))
        # What was tested on the way has been replaced by what is known since, if it was an equation.
        for c, t, _, _ in x.conds[len(s.conds):]:
            if c not in (TRUE, FALSE):
                eqs.append(c if t else cnot(c))
            elif not x.subs[len(s.subs):]:
                raise NoJoin()
        return path + tuple(eqs)
    level, exits = [[start, None, ()]], []
    try:
        for _ in range(200):
            nxt = []
            for s, _, path in level:
                n = len(s.conds)
                for x, o in step(s.copy()):
                    if any(is_counting(c[3]) for c in x.conds[n:]):
                        return None
                    p = extended(path, s, x)
                    if o[0] == 'back':
                        add(nxt, clean(x) or x, o, p)
                    else:
                        tidy(x, o)
                        add(exits, x, o, p)
            if len(nxt) > 2 or len(exits) > 2:
                return None
            level = nxt
            if not level:
                break
        else:
            return None
    except NoJoin:
        return None
    single = [g for g in exits if g[2] is not None]
    several = [g for g in exits if g[2] is None]
    if len(single) != 1 or len(several) != 1:
        return None
    eqs = single[0][2]
    if all(isinstance(e, tuple) for e in eqs):
        r = REBUILD['seqeq'](lit(*[a for a, _ in eqs]), lit(*[b for _, b in eqs]))
    else:
        r = TRUE
        for e in eqs:
            r = cand(r, ieq(*e) if isinstance(e, tuple) else e)
    out = []
    if single[0][0].assume(r):
        out.append((single[0][0], single[0][1]))
    if several[0][0].assume(cnot(r)):
        out.append((several[0][0], several[0][1]))
    return out


def touched(ip, s, backs):
    """Whether an iteration was the first to use something which was there before the loop: it is put there."""
    new = False
    for b in backs:
        for c, v in b.mem.items():
            if c in s.mem:
                continue
            if c == ('os',):
                s.mem[c] = I(0)
            elif c in ip.pointees:
                u = ip.pointees[c]
                s.mem[c] = mk('rng', u.a[0], I(0)) if u.t == 'opaque' and v.t == 'rng' else u
            else:
                continue
            new = True
    return new


def narrowed(ip, s, backs):
    """Whether an iteration was the first to narrow a reference to a row to a part of it: it is made one to all of the
    row, as a part."""
    new = False

    def align(u, v):
        if u is v or u.t != v.t:
            return u
        if u.t == 'ref':
            p, q = u.a[1], v.a[1]
            if u.a[0] == v.a[0] and len(q) == len(p) + 1 and q[-1][0] == 's' and q[:-1] == p:
                row = ip.deref(s, u)
                if row.t == 'seq':
                    return ref(u.a[0], p + (('s', I(0), slen(row)),))
            return u
        if u.t == 'adt' and u.a[:2] == v.a[:2] and len(u.a[2]) == len(v.a[2]):
            return adt(u.a[0], u.a[1], [align(x, y) for x, y in zip(u.a[2], v.a[2])])
        if u.t == 'tup' and len(u.a[0]) == len(v.a[0]):
            return tup(*[align(x, y) for x, y in zip(u.a[0], v.a[0])])
        return u
    for b in backs:
        for c, v in b.mem.items():
            u = s.mem.get(c)
            if u is not None:
                w = align(u, v)
                if w is not u:
                    s.mem[c] = w
                    new = True
    return new


def is_counting(c):
    """Whether a condition is about a number other than the value of a single byte."""
    if c.t in ('not', 'and'):
        return any(is_counting(x) for x in c.a)
    if c.t in ('ge', 'eqz'):
        return any(v.a[2] > 255 for v, _ in c.a[0].a[1])
    return False


def progresses(a, b):
    """Whether some integer known to be constant changed."""
    for c, v in b.mem.items():
        u = a.mem.get(c)
        if u is not None and u is not v and int_changed(u, v):
            return True
    return False


def int_changed(u, v):
    if u is v or u.t != v.t:
        return False
    if u.t == 'int':
        return iconst(u) is not None and iconst(v) is not None
    if u.t in ('adt', 'tup', 'it', 'clo', 'ref'):
        return any(int_changed(x, y) for x, y in zip(children(u), children(v)) if x.t in ('int', 'adt', 'tup', 'it', 'ref'))
    return False


# ---------------------------------------------------------------- joining the cases of a small number

def joined(pre, states):
    """The states, with those joined which only differ by which constant something is equal to."""
    if len(states) < 2:
        return states
    n = len(pre.subs)
    groups, rest = {}, []
    for s in states:
        extra = s.subs[n:]
        at = [i for i, m in enumerate(extra) if len(m) == 1 and all(v.t == 'int' and iconst(v) is not None
                                                                    for v in m.values())]
        if len(at) != 1 or s.subs[:n] != pre.subs:
            rest.append(s)
            continue
        i = at[0]
        b, c = list(extra[i].items())[0]
        key = (i, b, tuple(tuple(sorted((k.id, v.id) for k, v in m.items())) for j, m in enumerate(extra) if j != i))
        groups.setdefault(key, []).append((iconst(c), s))
    for (i, b, _), g in groups.items():
        while g:
            # Those which go together with the first.
            first, others = [g[0]], []
            for c, s in g[1:]:
                if join(pre, n, i, b, first[:1] + [(c, s)]) is not None:
                    first.append((c, s))
                else:
                    others.append((c, s))
            j = join(pre, n, i, b, first) if len(first) > 1 else None
            rest += [j] if j is not None else [s for _, s in first]
            g = others
    return rest


class NoJoin(Exception):
    pass


def table(b, cases):
    """The number which is v when b is c, for (c, v) of the cases."""
    c0, v0 = cases[0]
    d = isub(v0, c0)
    if iconst(d) is not None and all(isub(v, c) is d for c, v in cases):
        return iadd(I(b), d)
    if any(iconst(v) is None for c, v in cases):
        raise NoJoin()
    t = tuple(sorted((c, iconst(v)) for c, v in cases))
    vs = [v for _, v in t]
    return I(ia(E('table', I(b), t), min(vs), max(vs)))


def _table_rule(kind, e):
    if e.t == 'e' and e.a[0] == 'table' and e.a[1].t == 'int':
        c = iconst(e.a[1])
        d = dict(e.a[2])
        if c in d:
            return I(d[c])
    return None


ATOM_RULES.append(_table_rule)


def jval(b, cs, vs):
    v = vs[0]
    if all(x is v for x in vs):
        return v
    if any(x.t != v.t for x in vs):
        raise NoJoin()
    f = lambda *xs: jval(b, cs, xs)
    if v.t == 'int':
        return table(b, list(zip(cs, vs)))
    if v.t == 'adt':
        if any(x.a[:2] != v.a[:2] or len(x.a[2]) != len(v.a[2]) for x in vs):
            raise NoJoin()
        return adt(v.a[0], v.a[1], [f(*xs) for xs in zip(*[x.a[2] for x in vs])])
    if v.t == 'tup':
        return tup(*[f(*xs) for xs in zip(*[x.a[0] for x in vs])])
    if v.t == 'ref' and v.a[0][0] == 'v' and all(x.a[0][0] == 'v' and x.a[1] == v.a[1] for x in vs):
        return ref(('v', f(*[x.a[0][1] for x in vs])), v.a[1])
    if v.t == 'it':
        if any(len(x.a) != len(v.a) for x in vs):
            raise NoJoin()
        args = []
        for xs in zip(*[x.a for x in vs]):
            if isinstance(xs[0], N):
                args.append(f(*xs))
            elif any(x != xs[0] for x in xs):
                raise NoJoin()
            else:
                args.append(xs[0])
        return mk('it', *args)
    if v.t == 'seq':
        # Element by element where the rows are written out.
        if any(len(x.a[0]) != len(v.a[0]) for x in vs):
            raise NoJoin()
        segs = []
        for gs in zip(*[x.a[0] for x in vs]):
            g = gs[0]
            if all(x == g for x in gs):
                segs.append(g)
            elif all(x[0] == 'lit' and len(x[1]) == len(g[1]) for x in gs):
                segs.append(('lit', tuple(f(*es) for es in zip(*[x[1] for x in gs]))))
            elif all(x[0] == 'sub' and x[1] is g[1] for x in gs):
                segs.append(('sub', g[1], f(*[x[2] for x in gs]), f(*[x[3] for x in gs])))
            elif all(x[0] == 'rep' for x in gs):
                segs.append(('rep', f(*[x[1] for x in gs]), f(*[x[2] for x in gs])))
            else:
                raise NoJoin()
        return seq(segs)
    raise NoJoin()


def join(pre, n, i, b, cases):
    cs = [c for c, _ in cases]
    ss = [s for _, s in cases]
    m = pre.copy()
    s0 = ss[0]
    if any(s.depth != s0.depth or set(s.mem) != set(s0.mem) for s in ss):
        return None
    common = [x for j, x in enumerate(s0.subs[n:]) if j != i]
    for x in common:
        m.substitute(x)
    try:
        m.mem = {c: m.mem[c] if c in m.mem and all(s.norm(m.mem[c]) is s.mem[c] for s in ss) else
                 jval(b, cs, [s.mem[c] for s in ss]) for c in s0.mem}
    except NoJoin:
        return None
    from facts import Facts
    f = m.facts
    ine = f.ineqs + tuple(c for c in s0.facts.ineqs if c not in f.ineqs and all(c in s.facts.ineqs for s in ss[1:]))
    lits = dict(f.lits)
    for c, v in s0.facts.lits.items():
        if all(s.facts.lits.get(c) == v for s in ss[1:]):
            lits[c] = v
    fa = tuple(x for x in s0.facts.foralls if all(x in s.facts.foralls for s in ss[1:]))
    m.facts = Facts(ine, lits, fa)
    conds = [c for c in s0.conds[len(pre.conds):] if c[0] not in (TRUE, FALSE) and all(c in s.conds for s in ss[1:])]
    ev = []
    for s in ss:
        for e in s.ev[len(pre.ev):]:
            if e not in ev:
                ev.append(e)
    m.ev = m.ev + tuple(ev)
    m.conds = m.conds + tuple(conds)
    lo, hi = min(cs), max(cs)
    site = s0.conds[-1][2] if s0.conds else None
    for c in [ige(I(b), I(lo)), ige(I(hi), I(b))]:
        if m.decide(c) is None and not m.assume(c, True, site):
            return None
    if hi - lo <= 64:
        for x in range(lo, hi):
            if x not in cs:
                c = ieq(I(b), I(x))
                if m.decide(c) is None and not m.assume(c, False, site):
                    return None
    return m


def same_shape(a, b):
    try:
        for c, v in a.mem.items():
            if c in b.mem:
                walk2(v, b.mem[c], lambda x, y, n: x, (c,))
    except Mismatch:
        return False
    return True


class Mismatch(Exception):
    pass


class Leaf(object):
    def __init__(self, kind, init):
        self.kind, self.init = kind, init


def walk2(a, b, f, name):
    """Rebuild a, with f(a-leaf, b-leaf, name) wherever the two differ."""
    if a is b:
        return a
    if a.t == 'int' and b.t == 'int':
        return f(a, b, name)
    if a.t == b.t and a.t in ('poly', 'lin', 'seq'):
        return f(a, b, name)
    if is_cond(a) and is_cond(b):
        return f(a, b, name)
    if a.t != b.t:
        if 'it' in (a.t, b.t):
            raise Mismatch()
        if 'opaque' in (a.t, b.t) or 'sym' in (a.t, b.t):
            return f(a, b, name)
        if is_transcript(a) and is_transcript(b):
            return f(a, b, name)
        raise Mismatch()
    if a.t == 'ref':
        if a.a[0] != b.a[0]:
            if a.a[0][0] == 'v' and b.a[0][0] == 'v':
                return ref(('v', walk2(a.a[0][1], b.a[0][1], f, name + ('*',))), a.a[1]) if a.a[1] == b.a[1] else bad()
            raise Mismatch()
        if len(a.a[1]) != len(b.a[1]):
            raise Mismatch()
        path = []
        for i, (p, q) in enumerate(zip(a.a[1], b.a[1])):
            if p == q:
                path.append(p)
            elif p[0] == q[0] and p[0] in ('i', 's'):
                path.append((p[0],) + tuple(walk2(x, y, f, name + (i, j)) for j, (x, y) in enumerate(zip(p[1:], q[1:]))))
            else:
                raise Mismatch()
        return ref(a.a[0], path)
    if a.t == 'adt':
        if a.a[0] != b.a[0] or a.a[1] != b.a[1] or len(a.a[2]) != len(b.a[2]):
            raise Mismatch()
        return adt(a.a[0], a.a[1], [walk2(x, y, f, name + (i,)) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))])
    if a.t == 'tup':
        if len(a.a[0]) != len(b.a[0]):
            raise Mismatch()
        return tup(*[walk2(x, y, f, name + (i,)) for i, (x, y) in enumerate(zip(a.a[0], b.a[0]))])
    if a.t == 'clo':
        if a.a[0] != b.a[0]:
            raise Mismatch()
        return mk('clo', a.a[0], a.a[1], tuple(walk2(x, y, f, name + (i,)) for i, (x, y) in enumerate(zip(a.a[2], b.a[2]))))
    if a.t == 'it':
        if len(a.a) != len(b.a) or a.a[0] != b.a[0]:
            raise Mismatch()
        args = [a.a[0]]
        for i, (x, y) in enumerate(zip(a.a[1:], b.a[1:])):
            if isinstance(x, N):
                args.append(walk2(x, y, f, name + (i,)))
            elif x != y:
                raise Mismatch()
            else:
                args.append(x)
        return mk('it', *args)
    if a.t == 'rng':
        if a.a[0] is b.a[0]:
            return mk('rng', a.a[0], walk2(a.a[1], b.a[1], f, name + ('n',)))
        return f(a, b, name)
    if is_transcript(a):
        return f(a, b, name)
    if a.t in ('opaque', 'sym'):
        return f(a, b, name)
    raise Mismatch()


def bad():
    raise Mismatch()


def is_transcript(v):
    return v.t in ('tr0', 'tr', 'trv')


def fresh(v, e, name):
    """An unknown of the kind of v."""
    if v.t == 'int':
        lo, hi = (0, BIG) if ibounds(v)[0] >= 0 else (-BIG, BIG)
        return I(ia(e, lo, hi))
    if v.t == 'poly':
        return patom(e)
    if v.t == 'lin':
        return latom(e)
    if is_cond(v):
        return mk('b', e)
    if v.t == 'rng':
        return mk('rng', e, I(0))
    if is_transcript(v):
        return mk('trs', e)
    if v.t in ('opaque', 'sym'):
        return mk('opaque', e)
    raise Mismatch()


def generalise(ip, s0, step, clean, key, backs, typeof=None):
    _n[0] += 1
    forced = set()   # cells of which nothing but the type is kept

    def widened(cell):
        if typeof is None or typeof(cell) is None:
            return False
        forced.add(cell)
        return True
    uid = _n[0]
    k = ia(E('k', uid), 0, BIG)
    K = I(k)
    leaves = {}      # name -> dict
    cells = sorted(s0.mem, key=str)

    # What changes, from the first iteration.
    def discover(b):
        def f(x, y, name):
            if name not in leaves:
                leaves[name] = {'init': x, 'first': y}
            elif leaves[name].get('first') is not y:
                leaves[name]['varied'] = True
                leaves[name].setdefault('firsts', []).append(y)
            return x
        for c in cells:
            if c in b.mem and c not in forced:
                try:
                    walk2(s0.mem[c], b.mem[c], f, (c,))
                except Mismatch:
                    if not widened(c):
                        raise
    try:
        for b in backs:
            discover(b)
    except Mismatch:
        return 'mismatch'

    def plan(name, l):
        x, y = l['init'], l['first']
        l['mode'] = 'havoc'
        if x.t == 'int' and not l.get('varied'):
            d = iconst(isub(y, x))
            if d is not None:
                l['mode'], l['d'] = 'int', d
        elif x.t == 'seq' and y.t == 'seq':
            d = isub(slen(y), slen(x))
            ds = [iconst(isub(slen(z), slen(x))) for z in [y] + l.get('firsts', [])]
            if iconst(d) is not None and all(z == ds[0] for z in ds):
                l['mode'], l['d'] = 'seq', iconst(d)
        elif x.t in ('poly', 'lin'):
            l['mode'] = x.t
    for name, l in leaves.items():
        plan(name, l)

    def general(name, l):
        e = E('loop', uid, str(name))
        x = l['init']
        m = l['mode']
        if m == 'int':
            return iadd(x, iscale(K, l['d']))
        if m == 'seq':
            n = iadd(slen(x), iscale(K, l['d']))
            ek = elem_key(l['first']) if not x.a[0] else elem_key(x)
            l['acc'] = base(e, ek)
            return sub_of(l['acc'], 0, n)
        if m in ('poly', 'lin'):
            v = patom(e) if m == 'poly' else latom(e)
            l['acc'] = v.a[0][0][0][0][0] if m == 'poly' else v.a[0][0][0]
            return v
        # Forgotten.
        if x.t == 'seq':
            n = slen(x)
            if any(slen(y) is not n for y in [l['first']] + l.get('firsts', [])) or l.get('resized'):
                n = I(ia(E('len', e), 0, 2 ** 63 - 1))
            l['length'] = n
            return sub_of(base(E('any', e), elem_key(l['first'])), 0, n)
        return fresh(x, E('at', e, K) if x.t in ('rng',) else e, name)

    invariants, tentative, banned = [], [], []
    foralls = []
    for attempt in range(20):
        g = s0.copy()
        mapping = {}
        try:
            for c in cells:
                # All the leaves of a cell at once: every back state differs from the first one in these places.
                if c in forced:
                    g.mem[c] = ip.symbolic(E('loop', uid, str(c)), typeof(c))
                    continue
                g.mem[c] = place_leaves(s0.mem[c], (c,), leaves, general)
        except Mismatch:
            return 'mismatch'
        for inv in invariants:
            f = g.facts.assume(inv)
            if f is None:
                return 'mismatch'
            g.facts = f
        g.facts = g.facts.with_forall(foralls)
        n0 = len(g.conds)
        start = g.copy()
        outs = step(g)
        bs = joined(start, [clean(x) or x for x, o in outs if o[0] == 'back'])
        remember(ip, uid, s0, bs, leaves, forced)
        outs = [(x, o) for x, o in outs if o[0] != 'back'] + [(x, ('back',)) for x in bs]
        others = []
        if typeof is None:
            others = [x for x in bs if not same_shape(start, x)]
            bs = [x for x in bs if x not in others]
        changed = False
        # New differences?
        try:
            for b in bs:
                def f(x, y, name):
                    nonlocal changed
                    if name not in leaves:
                        leaves[name] = {'init': get_leaf(s0, name), 'first': y}
                        plan(name, leaves[name])
                        if leaves[name]['mode'] == 'int':
                            leaves[name]['mode'] = 'havoc' if iconst(isub(y, x)) is None else 'int'
                        changed = True
                    return x
                for c in cells:
                    if c in b.mem and c not in forced:
                        try:
                            walk2(start.mem[c], b.mem[c], f, (c,))
                        except Mismatch:
                            if not widened(c):
                                raise
                            changed = True
        except Mismatch:
            return 'mismatch'
        if changed:
            continue
        # Invariants from the conditions under which the loop goes on.
        if bs:
            common = None
            for b in bs:
                cs = []
                for c in b.conds[n0:]:
                    # As it stands now, and as it was tested.
                    cs += [(c[0], c[1])] + ([(c[3], c[1])] if c[3] is not c[0] else [])
                common = cs if common is None else [c for c in common if c in cs]
            for c, truth in common or []:
                for x, t in conjuncts(c, truth):
                    if x.t == 'ge':
                        d = x.a[0] if t else isub(iscale(x.a[0], -1), 1)
                        if k not in atoms(d):
                            continue
                        if any(v is not k and k in atoms(v) for v, _ in d.a[1]):
                            # About what the iteration deals with, rather than how many there are.
                            bv = ia(E('all', uid), 0, BIG)
                            fa = (bv, K, subst(x, {k: I(bv)}), t)
                            if fa not in foralls and not passing(x, uid):
                                foralls.append(fa)
                            continue
                        prev = subst(d, {k: isub(K, 1)})
                        inv = mk_ge(prev)
                        if inv in invariants or inv is TRUE:
                            continue
                        at0 = s0.facts.decide(mk_ge(subst(prev, {k: I(0)})))
                        if at0 is True and not passing(inv, uid):
                            invariants.append(inv)
                            changed = True
                    elif x.t == 'eqz':
                        pass
                    else:
                        bv = ia(E('all', uid), 0, BIG)
                        fa = (bv, K, subst(x, {k: I(bv)}), t)
                        if k in atoms(x) and fa not in foralls and not passing(x, uid):
                            foralls.append(fa)
        # A count down which goes on while it is not at zero: it does not pass zero, if each step keeps that so.
        for b in bs:
            for inv in tentative:
                if inv not in banned and b.decide(b.norm(subst(inv, {k: iadd(K, 1)}))) is not True:
                    banned.append(inv)
                    invariants.remove(inv)
                    changed = True
        for x, o in outs:
            for c in x.conds[n0:]:
                for y, t in conjuncts(c[0], c[1]):
                    if y.t != 'eqz' or t or dict(y.a[0].a[1]).get(k) not in (1, -1):
                        continue
                    inv = mk_ge(y.a[0] if dict(y.a[0].a[1])[k] == -1 else iscale(y.a[0], -1))
                    if inv in invariants or inv in banned or inv is TRUE or passing(inv, uid) or \
                            any(v is not k and k in atoms(v) for v, _ in inv.a[0].a[1]):
                        continue
                    if s0.facts.decide(mk_ge(subst(inv.a[0], {k: I(0)}))) is True:
                        invariants.append(inv)
                        tentative.append(inv)
                        changed = True
        if changed:
            continue
        # Confirm the inferred effects.
        for name, l in leaves.items():
            if name[0] in forced:
                continue
            if l['mode'] == 'havoc' and l.get('length') is not None and not l.get('resized'):
                for b in bs:
                    if name[0] in b.mem and slen(leaf_of(b.mem[name[0]], name)) is not b.norm(l['length']):
                        l['resized'] = changed = True
            if not confirm(name, l, start, bs, K, k, uid, leaves):
                l['mode'] = 'havoc'
                changed = True
        if not changed:
            break
    else:
        return 'mismatch'
    # The closed forms.
    closed = {}
    for name, l in leaves.items():
        if l['mode'] in ('seq', 'poly', 'lin') and name[0] not in forced:
            v = l.get('closed')
            if v is None:
                continue
            closed[l['acc']] = v
    # Accumulators may be expressed by others.
    for _ in range(4):
        again = False
        for a in list(closed):
            others = {x: v for x, v in closed.items() if x in atoms(closed[a])}
            if others:
                closed[a] = subst(closed[a], others)
                again = True
        if not again:
            break
    if ip.deep and not others:
        # Whichever way it ends, it does so in its first iteration, or having done a whole one from a general state.
        outs = [(x, o) for x, o in step(s0.copy()) if o[0] != 'back']
        for b in bs:
            outs += [(x, o) for x, o in step(b.copy()) if o[0] != 'back']
    res = []
    for x, o in outs:
        if o[0] == 'back' and x not in others:
            continue
        m = {a: x.norm(v) for a, v in closed.items()}
        # Rows and sums which were left behind mention the state of the general iteration.
        if m:
            x.substitute(m)
        # What holds of the iterations done.
        fs = [(bv, x.norm(n), x.norm(subst(c, m)), t) for bv, n, c, t in foralls]
        x.facts = x.facts.with_forall(fs)
        if fs and x.facts.refuted():
            continue
        x.event('loop', key[0], key[1])
        res.append((x, o))
    return res


def remember(ip, uid, s0, bs, leaves, forced):
    """What the unknowns standing for a loop's variables stand for."""
    for name, l in leaves.items():
        known = ip.origins.setdefault(E('loop', uid, str(name)), set())
        known.update([l['init'], l['first']] + l.get('firsts', []))
        for b in bs:
            try:
                known.add(leaf_of(b.mem[name[0]], name))
            except (KeyError, IndexError, AttributeError, TypeError, Mismatch):
                known.update(b.mem[name[0]] for _ in (0,) if name[0] in b.mem)
    for c in forced:
        known = ip.origins.setdefault(E('loop', uid, str(c)), set())
        known.update(s.mem[c] for s in [s0] + bs if c in s.mem)


def get_leaf(s, name):
    return leaf_of(s.mem[name[0]], name)


def place_leaves(v, name, leaves, general):
    if name in leaves:
        return general(name, leaves[name])
    sub = [n for n in leaves if len(n) > len(name) and n[:len(name)] == name]
    if not sub:
        return v
    f = lambda x, *i: place_leaves(x, name + i, leaves, general)
    if v.t == 'ref':
        if v.a[0][0] == 'v' and any(n[len(name)] == '*' for n in sub):
            return ref(('v', f(v.a[0][1], '*')), v.a[1])
        path = []
        for i, p in enumerate(v.a[1]):
            path.append((p[0],) + tuple(place_leaves(x, name + (i, j), leaves, general) if isinstance(x, N) else x
                                        for j, x in enumerate(p[1:])))
        return ref(v.a[0], path)
    if v.t == 'adt':
        return adt(v.a[0], v.a[1], [f(x, i) for i, x in enumerate(v.a[2])])
    if v.t == 'tup':
        return tup(*[f(x, i) for i, x in enumerate(v.a[0])])
    if v.t == 'clo':
        return mk('clo', v.a[0], v.a[1], tuple(f(x, i) for i, x in enumerate(v.a[2])))
    if v.t == 'it':
        return mk('it', v.a[0], *[f(x, i) if isinstance(x, N) else x for i, x in enumerate(v.a[1:])])
    if v.t == 'rng':
        return mk('rng', v.a[0], f(v.a[1], 'n'))
    raise Mismatch()


def leaf_of(v, name, i=1):
    """The part of a value which a leaf names."""
    while i < len(name):
        x = name[i]
        if v.t == 'ref':
            if x == '*':
                v = v.a[0][1]
                i += 1
            else:
                v = v.a[1][x][1 + name[i + 1]]
                i += 2
            continue
        if v.t == 'adt':
            v = v.a[2][x]
        elif v.t == 'tup':
            v = v.a[0][x]
        elif v.t == 'clo':
            v = v.a[2][x]
        elif v.t == 'it':
            v = v.a[1 + x]
        elif v.t == 'rng':
            v = v.a[1]
        else:
            raise Mismatch()
        i += 1
    return v


def passing(t, uid):
    """Whether a term speaks of what a loop changes in a way that was not found out: of another thing each time."""
    def inside(x):
        if isinstance(x, tuple):
            return any(inside(y) for y in x)
        if not isinstance(x, N):
            return False
        r = seen.get(x)
        if r is None:
            r = seen[x] = x.t == 'e' and x.a[0] == 'loop' and x.a[1] == uid or any(inside(y) for y in x.a)
        return r
    seen = {}
    return inside(t)


def conjuncts(c, truth):
    if c.t == 'not':
        return conjuncts(c.a[0], not truth)
    if c.t == 'and' and truth:
        return conjuncts(c.a[0], True) + conjuncts(c.a[1], True)
    return [(c, truth)]


def confirm(name, l, start, bs, K, k, uid, leaves):
    """Whether the general iteration does to a variable what is supposed; its closed form."""
    m = l['mode']
    if m == 'havoc':
        return True
    try:
        vals = [(b, leaf_of(b.mem[name[0]], name)) for b in bs if name[0] in b.mem]
    except (Mismatch, IndexError):
        return False
    l['closed'] = None
    if m == 'int':
        want = iadd(l['init'], iscale(iadd(K, 1), l['d']))
        return all(v is b.norm(want) for b, v in vals)
    if m in ('poly', 'lin'):
        cur = patom(l['acc'].a[0]) if m == 'poly' else latom(l['acc'].a[0])
        ds = {(psub if m == 'poly' else lsub)(v, cur) for b, v in vals}
        if len(ds) > 1:
            return False
        if not ds:
            l['closed'] = cur
            return True
        d = ds.pop()
        if l['acc'] in atoms(d):
            return False
        l['closed'] = (padd if m == 'poly' else ladd)(l['init'], (psum if m == 'poly' else lsum)(k, K, d))
        return True
    if m == 'seq':
        init, d = l['init'], l['d']
        n = iadd(slen(init), iscale(K, d))
        if not vals:
            l['closed'] = sub_of(l['acc'], 0, slen(leaf_of(start.mem[name[0]], name)))
            return True
        xs = set()
        for b, v in vals:
            if v.t != 'seq':
                return False
            bn = b.norm(n)
            if d > 0:
                r = seq_split(b.facts, v, bn)
                if r is None or r[0] is not sub_of(l['acc'], 0, bn):
                    return False
                xs.add((None, r[1]))
            elif d == 0:
                x = changed_part(b, l['acc'], v)
                if x is None:
                    return False
                xs.add(x)
            else:
                return False
        if len(xs) != 1:
            return False
        off, x = xs.pop()
        if l['acc'] in atoms(x):
            return False
        if d > 0:
            if iconst(slen(x)) != d:
                return False
            l['closed'] = cat(init, gen(k, K, x))
            return True
        if off is True:      # nothing changed
            l['closed'] = init
            return True
        w = iconst(slen(x))
        if w is None:
            return False
        off0 = subst(off, {k: I(0)})
        if iadd(off0, iscale(K, w)) is not off:
            return False
        f = start.facts
        a = seq_split(f, init, off0)
        if a is None:
            return False
        b2 = seq_split(f, a[1], iscale(K, w))
        if b2 is None:
            return False
        l['closed'] = cat(a[0], gen(k, K, x), b2[1])
        return True
    return False


def changed_part(b, acc, v):
    """(offset, new elements) where a row differs from acc."""
    segs = list(v.a[0])
    pos = I(0)
    i = 0
    if segs and segs[0][0] == 'sub' and segs[0][1] is acc and iconst(segs[0][2]) == 0:
        pos = segs[0][3]
        i = 1
        if len(segs) == 1:
            return True, EMPTY
    j = len(segs)
    end = slen(v)
    if j > i and segs[-1][0] == 'sub' and segs[-1][1] is acc:
        g = segs[-1]
        if iadd(g[2], g[3]) is not end:
            return None
        j -= 1
        mid = seq(segs[i:j])
        if iadd(pos, slen(mid)) is not g[2]:
            return None
        return pos, mid
    mid = seq(segs[i:j])
    return pos, mid
