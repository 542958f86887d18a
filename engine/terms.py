"""Hash-consed terms, and the normal forms which the abstract values are kept in.

Integers are affine forms, scalars (mod the group order) commutative polynomials, group elements linear
combinations with polynomial coefficients, and everything that is a row of elements (arrays, slices, vectors,
strings) a list of segments.  Two terms are equal as abstract values if and only if they are the same object.
"""
import sys
from math import gcd

sys.setrecursionlimit(20000)

BIG = 1 << 100
_table = {}
_count = [0]


class N(object):
    __slots__ = ('t', 'a', 'id', 'memo')

    def __repr__(self):
        return show(self)


def mk(t, *a):
    key = (t, a)
    n = _table.get(key)
    if n is None:
        n = N()
        n.t = t
        n.a = a
        _count[0] += 1
        n.id = _count[0]
        n.memo = None
        _table[key] = n
    return n


def byid(x):
    return x.id


def E(name, *args):
    """An uninterpreted expression, to name atoms with."""
    return mk('e', name, *args)


# ---------------------------------------------------------------- integers

def ia(expr, lo=0, hi=BIG):
    return mk('ia', expr, lo, hi)


def int_(c, terms=()):
    return mk('int', c, terms)


def I(x):
    if isinstance(x, int):
        return mk('int', x, ())
    if x.t == 'ia':
        return mk('int', 0, ((x, 1),))
    return x


def _iadd(a, b, s=1):
    if not b.a[1]:
        return mk('int', a.a[0] + s * b.a[0], a.a[1])
    d = dict(a.a[1])
    for v, k in b.a[1]:
        n = d.get(v, 0) + s * k
        if n:
            d[v] = n
        else:
            d.pop(v, None)
    return mk('int', a.a[0] + s * b.a[0], tuple(sorted(d.items(), key=lambda x: x[0].id)))


def iadd(a, b):
    return _iadd(I(a), I(b))


def isub(a, b):
    return _iadd(I(a), I(b), -1)


def iscale(a, k):
    a = I(a)
    if k == 0:
        return I(0)
    return mk('int', a.a[0] * k, tuple((v, c * k) for v, c in a.a[1]))


def imul(a, b):
    a, b = I(a), I(b)
    if not a.a[1]:
        return iscale(b, a.a[0])
    if not b.a[1]:
        return iscale(a, b.a[0])
    x, y = sorted((a, b), key=byid)
    return I(ia(E('mul', x, y), -BIG, BIG))


def iconst(a):
    """The value of a constant integer, or None."""
    if a.t == 'int' and not a.a[1]:
        return a.a[0]
    return None


def ibounds(a):
    lo = hi = a.a[0]
    for v, c in a.a[1]:
        l, h = v.a[1], v.a[2]
        if c > 0:
            lo += c * l
            hi += c * h
        else:
            lo += c * h
            hi += c * l
    return lo, hi


# ---------------------------------------------------------------- polynomials (scalars)

L_ORDER = 2 ** 252 + 27742317777372353535851937790883648493


def pconst(c):
    c %= L_ORDER
    return mk('poly', (((), c),) if c else ())


ZERO = pconst(0)
ONE = pconst(1)


def patom(expr):
    a = mk('pa', expr)
    return mk('poly', ((((a, 1),), 1),))


def _mkpoly(d):
    items = [(m, c % L_ORDER) for m, c in d.items() if c % L_ORDER]
    items.sort(key=lambda mc: tuple((v.id, e) for v, e in mc[0]))
    return mk('poly', tuple(items))


def padd(a, b):
    if not a.a[0]:
        return b
    if not b.a[0]:
        return a
    d = dict(a.a[0])
    for m, c in b.a[0]:
        d[m] = d.get(m, 0) + c
    return _mkpoly(d)


def pscale(a, k):
    return _mkpoly({m: c * k for m, c in a.a[0]})


def pneg(a):
    return pscale(a, -1)


def psub(a, b):
    return padd(a, pneg(b))


def _mmul(m, n):
    if not m:
        return n
    if not n:
        return m
    d = dict(m)
    for v, e in n:
        d[v] = d.get(v, 0) + e
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


def pmul(a, b):
    d = {}
    for m, c in a.a[0]:
        for n, e in b.a[0]:
            x = _mmul(m, n)
            d[x] = d.get(x, 0) + c * e
    return _mkpoly(d)


def psum(k, n, body):
    """The sum of body over 0 <= k < n."""
    c = iconst(n)
    if c is not None and 0 <= c <= 64:
        r = ZERO
        for i in range(c):
            r = padd(r, subst(body, {k: I(i)}))
        return r
    r = ZERO
    for m, c in body.a[0]:
        dep = tuple((v, e) for v, e in m if k in atoms(v))
        inv = tuple((v, e) for v, e in m if k not in atoms(v))
        p = mk('poly', ((inv, c),))
        if not dep:
            r = padd(r, pmul(p, int_poly(n)))
        else:
            k2, b = _forward(k, n, mk('poly', ((dep, 1),)))
            bv = fresh_bv(b)
            r = padd(r, pmul(p, patom(E('sum', bv, n, subst(b, {k2: I(bv)})))))
    return r


def _forward(k, n, b):
    """The body of a sum, which is the same summed from its other end: the simpler of the two, and its variable."""
    used, d = atoms(b) | atoms(n), 0
    while ia(E('summand', d), 0, BIG) in used:
        d += 1
    v = ia(E('summand', d), 0, BIG)
    b = subst(b, {k: I(v)})
    c = subst(b, {v: isub(isub(n, I(v)), I(1))})
    if c is b:
        return v, b
    x, y = show(b), show(c)
    return v, (c if (len(y), y) < (len(x), x) else b)


def int_poly(n):
    c = iconst(n)
    return pconst(c) if c is not None else patom(E('ofint', n))


# ---------------------------------------------------------------- linear combinations (group elements)

def la(expr):
    return mk('la', expr)


def _mklin(d):
    items = [(v, p) for v, p in d.items() if p.a[0]]
    items.sort(key=lambda x: x[0].id)
    return mk('lin', tuple(items))


def latom(expr):
    return mk('lin', ((la(expr), ONE),))


IDENT = mk('lin', ())
G = latom(E('G'))


def ladd(a, b):
    if not a.a[0]:
        return b
    if not b.a[0]:
        return a
    d = dict(a.a[0])
    for v, p in b.a[0]:
        d[v] = padd(d[v], p) if v in d else p
    return _mklin(d)


def lmul(s, a):
    return _mklin({v: pmul(s, p) for v, p in a.a[0]})


def lneg(a):
    return _mklin({v: pneg(p) for v, p in a.a[0]})


def lsub(a, b):
    return ladd(a, lneg(b))


def lsum(k, n, body):
    c = iconst(n)
    if c is not None and 0 <= c <= 64:
        r = IDENT
        for i in range(c):
            r = ladd(r, subst(body, {k: I(i)}))
        return r
    r = IDENT
    for v, p in body.a[0]:
        if k not in atoms(v):
            r = ladd(r, lmul(psum(k, n, p), mk('lin', ((v, ONE),))))
            continue
        for m, c in p.a[0]:
            dep = tuple((x, e) for x, e in m if k in atoms(x))
            inv = tuple((x, e) for x, e in m if k not in atoms(x))
            k2, b = _forward(k, n, mk('lin', ((v, mk('poly', ((dep, 1),))),)))
            bv = fresh_bv(b)
            r = ladd(r, lmul(mk('poly', ((inv, c),)), latom(E('lsum', bv, n, subst(b, {k2: I(bv)})))))
    return r


# ---------------------------------------------------------------- rows of elements

# Segments: ('lit', (v, ..)), ('sub', base, off, len), ('gen', bv, n, segs, w), ('rep', v, n).
# A base is mk('base', expr, elem) where elem says what its elements are.

def base(expr, elem):
    return mk('base', expr, elem)


def seglen(s):
    if s[0] == 'lit':
        return I(len(s[1]))
    if s[0] == 'sub':
        return s[3]
    if s[0] == 'gen':
        return imul(s[2], s[4])
    return s[2]


ELEMENT = {}  # elem key -> function making the element from an expression


def element(b, i):
    """Element i of a base."""
    i = I(i)
    return ELEMENT[b.a[1]](E('el', b, i))


def as_element(v):
    """(base, index) if the value is exactly an element of a base."""
    e = None
    if v.t == 'int':
        if v.a[0] == 0 and len(v.a[1]) == 1 and v.a[1][0][1] == 1:
            e = v.a[1][0][0].a[0]
    elif v.t == 'poly':
        if len(v.a[0]) == 1 and v.a[0][0][1] == 1 and len(v.a[0][0][0]) == 1 and v.a[0][0][0][0][1] == 1:
            e = v.a[0][0][0][0][0].a[0]
    elif v.t == 'lin':
        if len(v.a[0]) == 1 and v.a[0][0][1] is ONE:
            e = v.a[0][0][0].a[0]
    elif v.t == 'adt':
        # A struct all of whose fields are the fields of one element.
        r = None
        for i, f in enumerate(v.a[2]):
            x = as_field(f)
            if x is None or x[2] != i or (r is not None and (x[0], x[1]) != r):
                return None
            r = (x[0], x[1])
        return r
    if e is not None and e.t == 'e' and e.a[0] == 'el':
        return e.a[1], e.a[2]
    return None


def as_field(v):
    e = None
    if v.t == 'poly':
        if len(v.a[0]) == 1 and v.a[0][0][1] == 1 and len(v.a[0][0][0]) == 1 and v.a[0][0][0][0][1] == 1:
            e = v.a[0][0][0][0][0].a[0]
    elif v.t == 'lin':
        if len(v.a[0]) == 1 and v.a[0][0][1] is ONE:
            e = v.a[0][0][0].a[0]
    if e is not None and e.t == 'e' and e.a[0] == 'fld' and e.a[1].t == 'e' and e.a[1].a[0] == 'el':
        return e.a[1].a[1], e.a[1].a[2], e.a[2]
    return None


def seq(segs):
    """A row, from segments, in normal form."""
    out = []

    def push(s):
        if s[0] == 'lit':
            if not s[1]:
                return
            # Elements which belong to a base are a slice of it.
            run = []
            for v in s[1]:
                be = as_element(v)
                if be is None:
                    run.append(v)
                    continue
                if run:
                    push1(('lit', tuple(run)))
                    run = []
                push1(('sub', be[0], be[1], I(1)))
            if run:
                push1(('lit', tuple(run)))
            return
        push1(s)

    def push1(s):
        if s[0] == 'sub':
            if iconst(s[3]) == 0:
                return
            whole = s[1].a[0]
            if out and out[-1][0] == 'sub' and out[-1][1] is s[1] and iadd(out[-1][2], out[-1][3]) is s[2]:
                p = out.pop()
                out.append(('sub', s[1], p[2], iadd(p[3], s[3])))
                return
        elif s[0] == 'rep':
            c = iconst(s[2])
            if c is not None and c <= 256:
                push(('lit', (s[1],) * c))
                return
            if out and out[-1][0] == 'rep' and out[-1][1] is s[1]:
                p = out.pop()
                out.append(('rep', s[1], iadd(p[2], s[2])))
                return
        elif s[0] == 'gen':
            _, bv, n, body, w = s
            c = iconst(n)
            if c is not None and 0 <= c <= 64:
                for i in range(c):
                    for b in body:
                        push(subst_seg(b, {bv: I(i)}))
                return
            if len(body) == 1 and body[0][0] == 'sub' and bv not in atoms(body[0][1]):
                b = body[0]
                off0 = subst(b[2], {bv: I(0)})
                stride = isub(subst(b[2], {bv: I(1)}), off0)
                if stride is b[3] and iconst(stride) is not None and iconst(stride) > 0 \
                        and iadd(off0, iscale(I(bv), iconst(stride))) is b[2]:
                    push1(('sub', b[1], off0, iscale(n, iconst(stride))))
                    return
            if len(body) == 1 and body[0][0] == 'lit' and len(body[0][1]) == 1 and bv not in atoms(body[0][1][0]):
                push1(('rep', body[0][1][0], n))
                return
            if len(body) == 1 and out and body[0][0] in ('lit', 'sub') and (body[0][0] == 'sub' or len(body[0][1]) == 1):
                # One more of the same in front.
                try:
                    prev = subst_seg(body[0], {bv: I(-1)})
                    if prev[0] == 'lit':
                        be = as_element(prev[1][0])
                        if be is not None:
                            prev = ('sub', be[0], be[1], I(1))
                except NeedSub:
                    prev = None
                hit = False
                if prev is not None and prev[0] == 'sub' and out[-1] == prev:
                    out.pop()
                    hit = True
                elif prev is not None and prev[0] == 'lit' and out[-1][0] == 'lit' and out[-1][1][-1] is prev[1][0]:
                    l = out.pop()
                    if len(l[1]) > 1:
                        out.append(('lit', l[1][:-1]))
                    hit = True
                if hit:
                    push1(('gen', bv, iadd(n, 1), tuple(subst_seg(b, {bv: isub(I(bv), 1)}) for b in body), s[4]))
                    return
        if s[0] in ('lit', 'sub') and out and out[-1][0] == 'gen' and len(out[-1][3]) == 1:
            # One more of the same behind.
            _, bv, n, body, w = out[-1]
            if body[0][0] in ('lit', 'sub') and (body[0][0] == 'sub' or len(body[0][1]) == 1):
                try:
                    nxt = subst_seg(body[0], {bv: n})
                    if nxt[0] == 'lit':
                        be = as_element(nxt[1][0])
                        if be is not None:
                            nxt = ('sub', be[0], be[1], I(1))
                except NeedSub:
                    nxt = None
                if nxt is not None and (nxt == s or (s[0] == nxt[0] == 'lit' and s[1][0] is nxt[1][0])):
                    out.pop()
                    push1(('gen', bv, iadd(n, 1), body, w))
                    if s[0] == 'lit' and len(s[1]) > 1:
                        push1(('lit', s[1][1:]))
                    return
        if s[0] == 'lit' and out and out[-1][0] == 'lit':
            p = out.pop()
            out.append(('lit', p[1] + s[1]))
            return
        out.append(s)

    for s in segs:
        push(s)
    return mk('seq', tuple(out))


EMPTY = seq(())


def lit(*vs):
    return seq((('lit', tuple(vs)),))


def bytes_(bs):
    return lit(*[I(x) for x in bs])


def sub_of(b, off, n):
    return seq((('sub', b, I(off), I(n)),))


def gen(k, n, body):
    """The rows body(k) for 0 <= k < n, one after the other; body is a seq of constant length, k a loop atom."""
    w = slen(body)
    segs = body.a[0]
    bv = fresh_bv(body)
    segs = tuple(subst_seg(s, {k: I(bv)}) for s in segs)
    return seq((('gen', bv, n, segs, w),))


def cat(*ss):
    out = []
    for s in ss:
        out.extend(s.a[0])
    return seq(out)


def slen(s):
    r = I(0)
    for g in s.a[0]:
        r = iadd(r, seglen(g))
    return r


def seg_children(s):
    if s[0] == 'lit':
        return s[1]
    if s[0] == 'sub':
        return (s[1], s[2], s[3])
    if s[0] == 'rep':
        return (s[1], s[2])
    r = [s[1], s[2], s[4]]
    for x in s[3]:
        r.extend(seg_children(x))
    return tuple(r)


def subst_seg(s, m):
    if s[0] == 'lit':
        return ('lit', tuple(subst(v, m) for v in s[1]))
    if s[0] == 'sub':
        b = subst(s[1], m)
        if b.t == 'seq':
            raise NeedSub(b)
        return ('sub', b, subst(s[2], m), subst(s[3], m))
    if s[0] == 'rep':
        return ('rep', subst(s[1], m), subst(s[2], m))
    return ('gen', s[1], subst(s[2], m), tuple(subst_seg(x, m) for x in s[3]), subst(s[4], m))


class NeedSub(Exception):
    pass


# ---------------------------------------------------------------- conditions

TRUE = mk('true')
FALSE = mk('false')


def cnot(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.t == 'not':
        return c.a[0]
    if c.t == 'ge':
        return mk_ge(isub(iscale(c.a[0], -1), 1))
    return mk('not', c)


def cand(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk('and', *sorted((a, b), key=byid))


def cor(a, b):
    return cnot(cand(cnot(a), cnot(b)))


def mk_ge(a):
    """a >= 0"""
    lo, hi = ibounds(a)
    if lo >= 0:
        return TRUE
    if hi < 0:
        return FALSE
    g = common_divisor(a)
    if g > 1:
        a = mk('int', a.a[0] // g, tuple((v, c // g) for v, c in a.a[1]))
    return mk('ge', a)


def common_divisor(a):
    g = 0
    for _, c in a.a[1]:
        g = gcd(g, c)
    return g


def ige(a, b):
    return mk_ge(isub(a, b))


def ilt(a, b):
    return mk_ge(isub(isub(b, a), 1))


def differences(v):
    """The pairs which must be equal for an or of differences to be zero. None if it is no such thing."""
    out, todo, some = [], [I(v)], False
    while todo:
        x = todo.pop()
        e = x.a[1][0][0].a[0] if x.a[0] == 0 and len(x.a[1]) == 1 and x.a[1][0][1] == 1 else None
        if e is None or e.t != 'e' or e.a[0] != 'bin' or e.a[1] not in ('BitOr', 'BitXor'):
            out.append((x, I(0)))
            continue
        some = True
        if e.a[1] == 'BitXor':
            out.append((e.a[2], e.a[3]))
        else:
            todo += [e.a[3], e.a[2]]
    return out if some else None


def ieq(a, b):
    d = isub(a, b)
    if iconst(d) is not None:
        return TRUE if iconst(d) == 0 else FALSE
    lo, hi = ibounds(d)
    if lo > 0 or hi < 0:
        return FALSE
    if d.a[0] == 0 and len(d.a[1]) == 1:
        # Bits which are all zero.
        pairs = differences(d.a[1][0][0])
        if pairs is not None:
            if len(pairs) == 1:
                return ieq(*pairs[0])
            xs, ys = lit(*[p[0] for p in pairs]), lit(*[p[1] for p in pairs])
            return REBUILD['seqeq'](xs, ys)
    if d.a[1][0][1] < 0:
        d = iscale(d, -1)
    g = common_divisor(d)
    if g > 1:
        if d.a[0] % g:
            return FALSE
        d = mk('int', d.a[0] // g, tuple((v, c // g) for v, c in d.a[1]))
    return mk('eqz', d)


def peq(a, b):
    d = psub(a, b)
    if not d.a[0]:
        return TRUE
    if len(d.a[0]) == 1 and d.a[0][0][0] == ():
        return FALSE
    e = pneg(d)
    return mk('peq', min(d, e, key=byid))


def leq(a, b):
    d = lsub(a, b)
    if not d.a[0]:
        return TRUE
    # A constant non-zero multiple of one point which is never the identity.
    if len(d.a[0]) == 1 and d.a[0][0][0] is G.a[0][0][0]:
        p = d.a[0][0][1]
        if len(p.a[0]) == 1 and p.a[0][0][0] == ():
            return FALSE
    e = lneg(d)
    return mk('leq', min(d, e, key=byid))


# ---------------------------------------------------------------- traversal

def children(n):
    if n.t == 'int':
        return [v for v, _ in n.a[1]]
    if n.t == 'poly':
        return [v for m, _ in n.a[0] for v, _ in m]
    if n.t == 'lin':
        r = []
        for v, p in n.a[0]:
            r += [v, p]
        return r
    if n.t == 'seq':
        r = []
        for s in n.a[0]:
            r.extend(seg_children(s))
        return r
    r = []
    for x in n.a:
        if isinstance(x, N):
            r.append(x)
        elif isinstance(x, tuple):
            _flat(x, r)
    return r


def _flat(t, r):
    for x in t:
        if isinstance(x, N):
            r.append(x)
        elif isinstance(x, tuple):
            _flat(x, r)


_atoms = {}
ATOMS = ('ia', 'pa', 'la', 'base', 'trs', 'bs', 'sym', 'b')


def atoms(n):
    """All the atoms in a term, at whatever depth."""
    r = _atoms.get(n)
    if r is None:
        s = set()
        if n.t in ATOMS:
            s.add(n)
        for c in children(n):
            s |= atoms(c)
        r = frozenset(s)
        _atoms[n] = r
    return r


_exprs = {}


def subterms(n):
    """All the subterms of a term."""
    r = _exprs.get(n)
    if r is None:
        s = {n}
        for c in children(n):
            s |= subterms(c)
        r = frozenset(s)
        _exprs[n] = r
    return r


def fresh_bv(n):
    """A bound variable which no binder within n uses."""
    d = 0
    for a in atoms(n):
        if a.t == 'ia' and a.a[0].t == 'e' and a.a[0].a[0] == 'bv':
            d = max(d, a.a[0].a[1] + 1)
    return ia(E('bv', d), 0, BIG)


# Rebuilding terms of other kinds after substitution: tag -> constructor.
REBUILD = {}


_smemo = {}
CURRENT = [None]     # the facts to substitute with


def subst_with(facts, n, m):
    CURRENT[0] = facts
    try:
        return subst(n, m)
    finally:
        CURRENT[0] = None


def subst(n, m):
    """Replace atoms (the keys of m) by terms of the same kind."""
    if not m:
        return n
    if CURRENT[0] is not None:
        return _subst(n, m, {}, frozenset(m))
    key = tuple(sorted(((k.id, v.id) for k, v in m.items())))
    memo = _smemo.setdefault(key, {})
    return _subst(n, m, memo, frozenset(m))


def _subst(n, m, memo, keys):
    r = memo.get(n)
    if r is not None:
        return r
    if not (atoms(n) & keys):
        memo[n] = n
        return n
    f = lambda x: _subst(x, m, memo, keys)
    t = n.t
    if n in keys:
        r = m[n]
        # An atom standing on its own, not within its normal form.
        memo[n] = r
        return r
    if t == 'int':
        r = I(n.a[0])
        for v, c in n.a[1]:
            x = f(v)
            r = iadd(r, iscale(I(x), c))
    elif t == 'poly':
        r = ZERO
        for mo, c in n.a[0]:
            p = pconst(c)
            for v, e in mo:
                x = f(v)
                x = x if x.t == 'poly' else mk('poly', ((((x, 1),), 1),))
                for _ in range(e):
                    p = pmul(p, x)
            r = padd(r, p)
    elif t == 'lin':
        r = IDENT
        for v, p in n.a[0]:
            x = f(v)
            x = x if x.t == 'lin' else mk('lin', ((x, ONE),))
            r = ladd(r, lmul(f(p), x))
    elif t == 'ia':
        e = f(n.a[0])
        r = reatom('ia', e, n.a[1:])
    elif t == 'pa':
        r = reatom('pa', f(n.a[0]), ())
    elif t == 'la':
        r = reatom('la', f(n.a[0]), ())
    elif t == 'seq':
        segs = []
        for s in n.a[0]:
            segs.extend(_subst_seg(s, f))
        r = seq(segs)
    elif t == 'not':
        r = cnot(f(n.a[0]))
    elif t == 'and':
        r = cand(f(n.a[0]), f(n.a[1]))
    elif t == 'ge':
        r = mk_ge(f(n.a[0]))
    elif t == 'eqz':
        r = ieq(f(n.a[0]), I(0))
    elif t == 'peq':
        r = peq(f(n.a[0]), ZERO)
    elif t == 'leq':
        r = leq(f(n.a[0]), IDENT)
    elif t in REBUILD:
        r = REBUILD[t](*[_rebuild_arg(x, f) for x in n.a])
    else:
        r = mk(t, *[_rebuild_arg(x, f) for x in n.a])
    memo[n] = r
    return r


def _rebuild_arg(x, f):
    if isinstance(x, N):
        return f(x)
    if isinstance(x, tuple):
        return tuple(_rebuild_arg(y, f) for y in x)
    return x


def _subst_seg(s, f):
    if s[0] == 'lit':
        return [('lit', tuple(f(v) for v in s[1]))]
    if s[0] == 'rep':
        return [('rep', f(s[1]), f(s[2]))]
    if s[0] == 'sub':
        b, o, n = f(s[1]), f(s[2]), f(s[3])
        if b.t == 'base':
            return [('sub', b, o, n)]
        # The base stood for another row: b is a seq.
        return seq_sub(CURRENT[0], b, o, n).a[0]
    body = []
    for x in s[3]:
        body.extend(_subst_seg(x, f))
    return [('gen', s[1], f(s[2]), tuple(body), f(s[4]))]


ATOM_RULES = []


def reatom(kind, e, rest):
    """An atom whose name changed by substitution may now be something known."""
    if e.t == 'e' and e.a[0] == 'el' and e.a[1].t == 'seq':
        return seq_index(CURRENT[0], e.a[1], e.a[2])
    if e.t == 'e' and e.a[0] == 'sum':
        return _resum(e, psum)
    if e.t == 'e' and e.a[0] == 'lsum':
        return _resum(e, lsum)
    for rule in ATOM_RULES:
        r = rule(kind, e)
        if r is not None:
            return r
    a = mk(kind, e, *rest)
    return a


def _resum(e, f):
    bv, n, body = e.a[1], e.a[2], e.a[3]
    k = ia(E('resum', bv.a[0].a[1]), 0, BIG)
    return f(k, n, subst(body, {bv: I(k)}))


# ---------------------------------------------------------------- slicing rows; facts may be needed to compare lengths

def _ge(facts, a, b):
    d = isub(a, b)
    lo, hi = ibounds(d)
    if lo >= 0:
        return True
    if hi < 0:
        return False
    if facts is None:
        return None
    return facts.decide_ge(d)


def seq_split(facts, s, at):
    """(left, right) where left has length at; None if it cannot be told where that is."""
    at = I(at)
    left, pos = [], I(0)
    segs = list(s.a[0])
    for i, g in enumerate(segs):
        if pos is at or (_ge(facts, pos, at) is True and _ge(facts, at, pos) is True):
            return seq(left), seq(segs[i:])
        n = seglen(g)
        end = iadd(pos, n)
        inside = _ge(facts, end, at)
        if inside is None:
            if _ge(facts, at, end) is not True:
                return None
            inside = False
        if inside is False or end is at:
            left.append(g)
            pos = end
            continue
        # The cut is within this segment, or at its end.
        if _ge(facts, at, end) is True:
            left.append(g)
            pos = end
            continue
        d = isub(at, pos)
        if _ge(facts, at, pos) is not True:
            return None
        if g[0] == 'lit':
            c = iconst(d)
            if c is None:
                # Within a run of the same element it does not matter where.
                vs = g[1]
                j = len(vs) - 1
                while j > 0 and vs[j - 1] is vs[-1]:
                    j -= 1
                if _ge(facts, d, I(j)) is not True:
                    return None
                return (seq(left + [('lit', vs[:j]), ('rep', vs[-1], isub(d, j))]),
                        seq([('rep', vs[-1], isub(I(len(vs)), d))] + segs[i + 1:]))
            a, b = ('lit', g[1][:c]), ('lit', g[1][c:])
        elif g[0] == 'sub':
            a, b = ('sub', g[1], g[2], d), ('sub', g[1], iadd(g[2], d), isub(g[3], d))
        elif g[0] == 'rep':
            a, b = ('rep', g[1], d), ('rep', g[1], isub(g[2], d))
        else:
            w = iconst(g[4])
            if w is None or w == 0:
                return None
            if d.a[0] % w == 0 and all(c % w == 0 for _, c in d.a[1]):
                q = mk('int', d.a[0] // w, tuple((v, c // w) for v, c in d.a[1]))
                a = ('gen', g[1], q, g[3], g[4])
                bv = g[1]
                b = ('gen', bv, isub(g[2], q), tuple(_shift(x, bv, q) for x in g[3]), g[4])
            else:
                # Split one repetition off, if the cut is at a constant place in it.
                c = d.a[0] % w
                d2 = isub(d, c)
                if all(x % w == 0 for _, x in d2.a[1]) and d2.a[0] % w == 0:
                    q = mk('int', d2.a[0] // w, tuple((v, x // w) for v, x in d2.a[1]))
                    one = seq([subst_seg(x, {g[1]: q}) for x in g[3]])
                    r = seq_split(facts, one, I(c))
                    if r is None:
                        return None
                    bv = g[1]
                    q1 = iadd(q, 1)
                    l = seq(left + [('gen', bv, q, g[3], g[4])] + list(r[0].a[0]))
                    rr = seq(list(r[1].a[0]) + [('gen', bv, isub(g[2], q1), tuple(_shift(x, bv, q1) for x in g[3]), g[4])]
                             + segs[i + 1:])
                    return l, rr
                return None
        return seq(left + [a]), seq([b] + segs[i + 1:])
    if pos is at or (_ge(facts, pos, at) is True and _ge(facts, at, pos) is True):
        return seq(left), EMPTY
    return None


def _shift(x, bv, q):
    return subst_seg(x, {bv: iadd(I(bv), q)})


def seq_sub(facts, s, off, n):
    off, n = I(off), I(n)
    if iconst(n) == 0:
        return EMPTY
    if len(s.a[0]) == 1 and s.a[0][0][0] == 'sub':
        g = s.a[0][0]
        return seq((('sub', g[1], iadd(g[2], off), n),))
    if len(s.a[0]) == 1 and s.a[0][0][0] == 'rep':
        return seq((('rep', s.a[0][0][1], n),))
    r = seq_split(facts, s, off)
    if r is not None:
        q = seq_split(facts, r[1], n)
        if q is not None:
            return q[0]
    return seq((('sub', base(E('view', s), elem_key(s)), off, n),))


def elem_key(s):
    for g in s.a[0]:
        if g[0] == 'sub':
            return g[1].a[1]
        if g[0] == 'gen':
            return elem_key(seq(g[3]))
        v = g[1][0] if g[0] == 'lit' else g[1]
        if v.t == 'int':
            return 'int'
        if v.t == 'poly':
            return 'poly'
        if v.t == 'lin':
            return 'lin'
        return 'any'
    return 'any'


def seq_index(facts, s, i):
    i = I(i)
    if len(s.a[0]) == 1:
        g = s.a[0][0]
        if g[0] == 'sub':
            return element(g[1], iadd(g[2], i))
        if g[0] == 'rep':
            return g[1]
        if g[0] == 'gen' and iconst(g[4]) == 1:
            return seq_index(facts, seq([subst_seg(x, {g[1]: i}) for x in g[3]]), I(0))
        if g[0] == 'lit' and iconst(i) is not None and 0 <= iconst(i) < len(g[1]):
            return g[1][iconst(i)]
    r = seq_split(facts, s, i)
    if r is not None and r[1].a[0]:
        g = r[1].a[0][0]
        if g[0] == 'lit':
            return g[1][0]
        if g[0] == 'sub':
            return element(g[1], g[2])
        if g[0] == 'rep':
            if _ge(facts, g[2], I(1)) is True:
                return g[1]
        elif g[0] == 'gen' and _ge(facts, g[2], I(1)) is True and iconst(g[4]) is not None and iconst(g[4]) >= 1:
            return seq_index(facts, seq([subst_seg(x, {g[1]: I(0)}) for x in g[3]]), I(0))
    k = elem_key(s)
    return ELEMENT.get(k, ELEMENT['any'])(E('el', base(E('view', s), k), i))


def seq_splice(facts, s, off, new):
    """The row s with the elements from off replaced by those of new."""
    r = seq_split(facts, s, off)
    if r is None:
        return None
    q = seq_split(facts, r[1], slen(new))
    if q is None:
        return None
    return cat(r[0], new, q[1])


# ---------------------------------------------------------------- printing

def show(n, depth=0):
    if depth > 14:
        return '...'
    s = lambda x: show(x, depth + 1)
    t = n.t
    if t == 'int':
        r = []
        for v, c in n.a[1]:
            r.append(('' if c == 1 else '-' if c == -1 else '%d*' % c) + s(v))
        if n.a[0] or not r:
            r.append(str(n.a[0]))
        return '+'.join(r).replace('+-', '-')
    if t == 'poly':
        r = []
        for m, c in n.a[0]:
            if c > L_ORDER // 2:
                c -= L_ORDER
            x = '*'.join(s(v) + ('^%d' % e if e > 1 else '') for v, e in m)
            r.append((('' if c == 1 else '-' if c == -1 else '%d*' % c) + x) if x else str(c))
        return ' + '.join(r) or '0'
    if t == 'lin':
        return ' + '.join(('' if p is ONE else '(%s)*' % s(p)) + s(v) for v, p in n.a[0]) or 'identity'
    if t in ('ia', 'pa', 'la'):
        return s(n.a[0])
    if t == 'e':
        name = n.a[0]
        if name == 'el':
            return '%s[%s]' % (s(n.a[1]), s(n.a[2]))
        if name == 'fld':
            return '%s.%s' % (s(n.a[1]), n.a[2])
        args = [s(x) if isinstance(x, N) else str(x) for x in n.a[1:]]
        return name + ('(%s)' % ', '.join(args) if args else '')
    if t == 'base':
        return s(n.a[0])
    if t == 'seq':
        return '[' + ' ++ '.join(show_seg(g, depth) for g in n.a[0]) + ']'
    if t == 'adt':
        return '%s#%d{%s}' % (n.a[0].split('::')[-1], n.a[1], ', '.join(s(x) for x in n.a[2]))
    if t == 'ge':
        return '(%s >= 0)' % s(n.a[0])
    if t == 'eqz':
        return '(%s == 0)' % s(n.a[0])
    if t in ('peq', 'leq'):
        return '(%s == 0)' % s(n.a[0])
    if t == 'not':
        return '!' + s(n.a[0])
    return '%s(%s)' % (t, ', '.join(s(x) if isinstance(x, N) else show_t(x, depth) for x in n.a))


def show_t(x, depth):
    if isinstance(x, tuple):
        return '(%s)' % ', '.join(show(y, depth + 1) if isinstance(y, N) else show_t(y, depth) for y in x)
    return str(x)


def show_seg(g, depth=0):
    s = lambda x: show(x, depth + 1)
    if g[0] == 'lit':
        vs = [s(v) for v in g[1]]
        if all(v.t == 'int' and not v.a[1] and 32 <= v.a[0] < 127 for v in g[1]):
            return repr(''.join(chr(v.a[0]) for v in g[1]))
        if len(vs) > 8 and len(set(vs)) == 1:
            return '%sx%d' % (vs[0], len(vs))
        return ','.join(vs)
    if g[0] == 'sub':
        return '%s[%s;+%s]' % (s(g[1]), s(g[2]), s(g[3]))
    if g[0] == 'rep':
        return '%s x %s' % (s(g[1]), s(g[2]))
    return 'for %s<%s: %s' % (s(g[1]), s(g[2]), ' ++ '.join(show_seg(x, depth) for x in g[3]))


def int_element(e):
    return I(ia(e, 0, 255))


ELEMENT['u8'] = lambda e: I(ia(e, 0, 255))
ELEMENT['int'] = lambda e: I(ia(e, 0, 255))
ELEMENT['poly'] = patom
ELEMENT['lin'] = latom
ELEMENT['any'] = lambda e: mk('sym', e)
