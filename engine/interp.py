"""Value-flow over the compiler's intermediate representation.

Each function is interpreted abstractly over the domain of terms.py: every input is an unknown, the paths through
the control-flow graph are kept apart (trace partitioning) with what is known on each, and loops are summarised for
any number of iterations by inferring their effect and confirming it on a general iteration.  The result of
analysing a function is the list of the ways in which it may end: what it returns, or the panic it ends in, under
which conditions, as terms over its inputs.
"""
import time

from terms import *
from facts import Facts, RESTATED, div, rem
from mir import *

SCALAR = 'curve25519_dalek::scalar::Scalar'
POINT = 'curve25519_dalek::ristretto::RistrettoPoint'
COMPRESSED = 'curve25519_dalek::ristretto::CompressedRistretto'
BASETABLE = 'curve25519_dalek::ristretto::RistrettoBasepointTable'
VEC, STRING = 'alloc::vec::Vec', 'alloc::string::String'
OPTION, RESULT = 'core::option::Option', 'core::result::Result'
RANGE = 'core::ops::range::Range'
U64MAX = 2 ** 64 - 1
L_BYTES = list(L_ORDER.to_bytes(32, 'little'))



# ---------------------------------------------------------------- values

def adt(path, variant, fields):
    return mk('adt', path, variant, tuple(fields))


UNIT = mk('tup', ())
UNDEF = mk('undef')
NONE = adt(OPTION, 0, ())


def tup(*vs):
    return mk('tup', tuple(vs))


def some(v):
    return adt(OPTION, 1, (v,))


def ok(v):
    return adt(RESULT, 0, (v,))


def err(v):
    return adt(RESULT, 1, (v,))


def ref(cell, path=()):
    return mk('ref', cell, tuple(path))


# A check which takes longer gives up (which is reported); the longest takes 50 s on the unchanged tree.
CPU_LIMIT, WALL_LIMIT, START = 300, 700, time.time()


def vref(v):
    """A reference to something which has no place of its own."""
    return ref(('v', v))


def boolean(b):
    return TRUE if b else FALSE


def is_cond(v):
    return v.t in ('true', 'false', 'not', 'and', 'ge', 'eqz', 'peq', 'leq', 'b', 'seqeq', 'canon', 'valid', 'cond')


def seqeq(a, b):
    """Whether two rows are equal."""
    if a is b:
        return TRUE
    la_, lb = slen(a), slen(b)
    le = ieq(la_, lb)
    if le is FALSE:
        return FALSE
    for x, y in ((a, b), (b, a)):
        p = encoded_point(x)
        if p is not None:
            q = encoded_point(y)
            if q is not None:
                return leq(p, q)
        s = encoded_scalar(x)
        if s is not None:
            q = encoded_scalar(y)
            if q is not None:
                return peq(s, q)
    n = iconst(la_)
    if n is not None and le is TRUE and n <= 64:
        r = TRUE
        for i in range(n):
            x, y = seq_index(None, a, i), seq_index(None, b, i)
            r = cand(r, equal(x, y))
            if r is FALSE:
                return r
        return r
    c = encodings_equal(a, b)
    if c is not None:
        return cand(le, c)
    x, y = sorted((a, b), key=byid)
    c = mk('seqeq', x, y)
    return cand(le, c)


def encodings_equal(a, b):
    """Rows of the same length which are both the encodings of as many group elements and scalars (and of those of one
    row) are equal if these are. None otherwise."""
    if len(a.a[0]) != len(b.a[0]) or sum(g[0] == 'gen' for g in a.a[0]) > 1:
        return None
    r = TRUE
    for g, h in zip(a.a[0], b.a[0]):
        if g[0] != h[0]:
            return None
        if g[0] == 'gen':
            if g[4] is not h[4] or len(g[3]) != 1 or len(h[3]) != 1:
                return None
            x, y = encoded(g[3]), encoded(h[3])
            if x is None or y is None or x.t != y.t:
                return None
            c = seqeq(gen(g[1], g[2], lit(x)), gen(h[1], h[2], lit(y)))
        else:
            x, y = encoded((g,)), encoded((h,))
            if x is None or y is None or x.t != y.t:
                return None
            c = equal(x, y)
        r = cand(r, c)
    return r


def encoded(segs):
    s = seq(segs)
    p = encoded_point(s)
    return p if p is not None else encoded_scalar(s)


REBUILD['seqeq'] = seqeq


def equal(a, b):
    """The condition that two values are equal."""
    if a is b:
        return TRUE
    if a.t == 'int' and b.t == 'int':
        return ieq(a, b)
    if a.t == 'poly' and b.t == 'poly':
        return peq(a, b)
    if a.t == 'lin' and b.t == 'lin':
        return leq(a, b)
    if a.t == 'seq' and b.t == 'seq':
        return seqeq(a, b)
    if a.t == 'adt' and b.t == 'adt' and a.a[0] == b.a[0]:
        if a.a[1] != b.a[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.a[2], b.a[2]):
            r = cand(r, equal(x, y))
        return r
    if a.t == 'tup' and b.t == 'tup' and len(a.a[0]) == len(b.a[0]):
        r = TRUE
        for x, y in zip(a.a[0], b.a[0]):
            r = cand(r, equal(x, y))
        return r
    if is_cond(a) and is_cond(b):
        if b is TRUE:
            return a
        if b is FALSE:
            return cnot(a)
        if a is TRUE:
            return b
        if a is FALSE:
            return cnot(b)
    x, y = sorted((a, b), key=byid)
    return mk('cond', E('eq', x, y))


# -- the encodings of scalars and group elements

def scalar_bytes(p):
    if not p.a[0] or (len(p.a[0]) == 1 and p.a[0][0][0] == ()):
        c = p.a[0][0][1] if p.a[0] else 0
        return bytes_(c.to_bytes(32, 'little'))
    if len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1 and p.a[0][0][0][0][1] == 1:
        e = p.a[0][0][0][0][0].a[0]
        if e.t == 'e' and e.a[0] == 'sc':
            return e.a[1]
    return sub_of(base(E('scb', p), 'u8'), 0, 32)


def encoded_scalar(s):
    """The scalar which a row of 32 bytes is the canonical encoding of, if that is certain."""
    if len(s.a[0]) == 1:
        g = s.a[0][0]
        if g[0] == 'sub' and iconst(g[2]) == 0 and iconst(g[3]) == 32:
            e = g[1].a[0]
            if e.t == 'e' and e.a[0] == 'scb':
                return e.a[1]
    bs = const_bytes(s)
    if bs is not None and len(bs) == 32:
        c = int.from_bytes(bytes(bs), 'little')
        if c < L_ORDER:
            return pconst(c)
    return None


def const_bytes(s):
    n = iconst(slen(s))
    if n is None or any(g[0] not in ('lit', 'rep') for g in s.a[0]):
        return None
    r = []
    for g in s.a[0]:
        for v in (g[1] if g[0] == 'lit' else (g[1],) * iconst(g[2])):
            if v.t != 'int' or v.a[1]:
                return None
            r.append(v.a[0])
    return r


def small_scalar(s):
    """Whether a row of 32 bytes is below 2^252, so that no reduction can happen."""
    if iconst(slen(s)) != 32:
        return False
    v = seq_index(None, s, 31)
    return v.t == 'int' and ibounds(v)[0] >= 0 and ibounds(v)[1] < 16


def scalar_of(s):
    """The scalar of a canonical row of bytes."""
    p = encoded_scalar(s)
    return p if p is not None else patom(E('sc', s))


G_BYTES = [226, 242, 174, 10, 106, 188, 78, 113, 168, 132, 169, 97, 197, 0, 81, 95, 88, 227, 11, 106, 165, 130,
           221, 141, 182, 166, 89, 69, 224, 141, 45, 118]


def point_bytes(l):
    if l is IDENT:
        return bytes_([0] * 32)
    if l is G:
        return bytes_(G_BYTES)
    v = l.a[0][0]
    if len(l.a[0]) == 1 and v[1] is ONE and v[0].a[0].t == 'e' and v[0].a[0].a[0] == 'dec':
        return v[0].a[0].a[1]
    return sub_of(base(E('cmp', l), 'u8'), 0, 32)


def encoded_point(s):
    if len(s.a[0]) == 1:
        g = s.a[0][0]
        if g[0] == 'sub' and iconst(g[2]) == 0 and iconst(g[3]) == 32:
            e = g[1].a[0]
            if e.t == 'e' and e.a[0] == 'cmp':
                return e.a[1]
    bs = const_bytes(s)
    if bs == [0] * 32:
        return IDENT
    if bs == G_BYTES:
        return G
    return None


def as_encodings(c):
    """An equation between points which were decompressed or are constants, as one of their only encodings."""
    ts = [(v.a[0], p.a[0][0][1]) for v, p in c.a[0].a[0] if len(p.a[0]) == 1 and p.a[0][0][0] == ()]
    if len(ts) != len(c.a[0].a[0]) or len(ts) > 2 or len(ts) == 2 and (ts[0][1] + ts[1][1]) % L_ORDER or \
            any(n % L_ORDER not in (1, L_ORDER - 1) for _, n in ts):
        return None
    rows = [e.a[1] if e.t == 'e' and e.a[0] == 'dec' else bytes_(G_BYTES) if e is G.a[0][0][0].a[0] else None for e, _ in ts]
    if len(rows) == 1:
        rows.append(bytes_([0] * 32))
    return None if None in rows else equal(*rows)


RESTATED.append(as_encodings)


def point_of(s):
    p = encoded_point(s)
    return p if p is not None else latom(E('dec', s))


def _enc_rule(kind, e):
    if e.t != 'e':
        return None
    if e.a[0] == 'sc' and kind == 'pa':
        return scalar_of(e.a[1])
    if e.a[0] == 'dec' and kind == 'la':
        return point_of(e.a[1])
    return None


ATOM_RULES.append(_enc_rule)


def _rebase(e, k):
    if e.t == 'e' and e.a[0] == 'scb':
        r = scalar_bytes(e.a[1])
        g = r.a[0]
        if len(g) == 1 and g[0][0] == 'sub' and g[0][1].a[0] is e:
            return g[0][1]
        return r
    if e.t == 'e' and e.a[0] == 'cmp':
        r = point_bytes(e.a[1])
        g = r.a[0]
        if len(g) == 1 and g[0][0] == 'sub' and g[0][1].a[0] is e:
            return g[0][1]
        return r
    if e.t == 'e' and e.a[0] == 'view' and e.a[1].t == 'seq':
        return e.a[1] if False else mk('base', e, k)
    return mk('base', e, k)


REBUILD['base'] = _rebase


def canon_cond(s):
    """Whether a row is the canonical encoding of a scalar."""
    if iconst(slen(s)) == 32:
        if encoded_scalar(s) is not None or small_scalar(s):
            return TRUE
        if const_bytes(s) is not None:
            return FALSE
    return mk('canon', s)


def valid_cond(s):
    """Whether a row is the encoding of a group element."""
    if encoded_point(s) is not None:
        return TRUE
    return mk('valid', s)


REBUILD['canon'] = canon_cond
REBUILD['valid'] = valid_cond


# ---------------------------------------------------------------- states

class Fork(Exception):
    """The state has to be split on a condition before going on."""

    def __init__(self, cond):
        self.cond = cond


class ForkVariant(Exception):
    def __init__(self, sym):
        self.sym = sym


class Panic(Exception):
    def __init__(self, kind):
        self.kind = kind


class Unsupported(Exception):
    pass


class State(object):
    __slots__ = ('mem', 'facts', 'subs', 'conds', 'ev', 'depth')

    def __init__(self):
        self.mem, self.facts, self.subs, self.conds, self.ev, self.depth = {}, Facts(), (), (), (), 0

    def copy(self):
        s = State.__new__(State)
        s.mem, s.facts, s.subs, s.conds, s.ev, s.depth = \
            dict(self.mem), self.facts, self.subs, self.conds, self.ev, self.depth
        return s

    def norm(self, v):
        for m in self.subs:
            v = subst(v, m)
        return v

    def event(self, *e):
        self.ev = self.ev + (e,)

    def substitute(self, m):
        self.subs = self.subs + (m,)
        if any(v.t == 'seq' for v in m.values()):
            facts = self.facts
            self.mem = {c: subst_with(facts, v, m) for c, v in self.mem.items()}
        self.mem = {c: subst(v, m) for c, v in self.mem.items()}
        self.facts = self.facts.subst(m)
        self.conds = tuple((subst(c, m), t, s, subst(o, m)) for c, t, s, o in self.conds)
        self.ev = tuple(tuple(subst(x, m) if isinstance(x, N) else x for x in e) for e in self.ev)

    def decide(self, c):
        return self.facts.decide(c)

    def assume(self, c, truth=True, site=None):
        """False if that contradicts what is known."""
        c = self.norm(c)
        f = self.facts.assume(c, truth)
        if f is None:
            return False
        self.facts = f
        self.conds = self.conds + ((c, truth, site, c),)
        todo = [(c, truth)]
        while todo:
            x, t = todo.pop()
            if x.t == 'not':
                todo.append((x.a[0], not t))
            elif x.t == 'and' and t:
                todo += [(x.a[0], True), (x.a[1], True)]
            elif x.t == 'and':
                a, b = self.facts.decide(x.a[0]), self.facts.decide(x.a[1])
                if a is True:
                    todo.append((x.a[1], False))
                elif b is True:
                    todo.append((x.a[0], False))
            elif x.t == 'eqz' and t:
                if not self.solve(x.a[0]):
                    return False
            elif x.t == 'eqz':
                # A remainder by two which is not zero.
                for d in (x.a[0], iscale(x.a[0], -1)):
                    if any(k % 2 for _, k in d.a[1]) and any(k % 2 == 0 for _, k in d.a[1]) and \
                            self.facts.decide_ge(isub(d, 1)) is True and self.facts.decide_ge(isub(1, d)) is True:
                        if not self.solve(isub(d, 1)):
                            return False
                        break
            elif x.t == 'ge':
                d = x.a[0] if t else isub(iscale(x.a[0], -1), 1)
                if self.facts.decide_ge(iscale(d, -1)) is True:
                    if not self.solve(d):
                        return False
        for _ in range(20):
            n = len(self.subs)
            for d in self.facts.equations():
                if not self.solve(d):
                    return False
                if len(self.subs) > n:
                    break
            if len(self.subs) == n:
                break
        return True

    def solve(self, d):
        """d == 0: eliminate one of its unknowns."""
        d = self.norm(d)
        if iconst(d) is not None:
            return iconst(d) == 0
        best = None
        for v, c in d.a[1]:
            if c not in (1, -1):
                continue
            e = v.a[0]
            # A loop counter by preference, then the newest unknown; a quotient only if nothing else.
            pri = (2 if e.t == 'e' and e.a[0] == 'k' else 0 if e.t == 'e' and e.a[0] == 'div' else 1, v.id)
            if best is None or pri > best[0]:
                best = (pri, v, c)
        if best is None:
            return True
        v, c = best[1], best[2]
        e = iscale(isub(d, iscale(I(v), c)), -c)
        # A quotient of the unknown which is eliminated gets a name of its own.
        m = {}
        for w, _ in e.a[1]:
            x = w.a[0]
            if x.t == 'e' and x.a[0] == 'div' and v in atoms(x):
                m[w] = ia(E('quot', '%d of %s' % (x.id, show(x))), w.a[1], w.a[2])
        if m:
            e = mk('int', e.a[0], tuple(sorted(((m.get(w, w), k) for w, k in e.a[1]), key=lambda p: p[0].id)))
        if v in atoms(e):
            return True
        lo, hi = v.a[1], v.a[2]
        m[v] = e
        side = []
        x = v.a[0]
        if x.t == 'e' and x.a[0] == 'div':
            # What is known about a quotient stays known of what it is equal to.
            q = iscale(e, x.a[2])
            side = [isub(x.a[1], q), isub(iadd(q, x.a[2] - 1), x.a[1])]
        self.substitute(m)
        for c in side:
            f = self.facts.assume(mk_ge(self.norm(c)))
            if f is None:
                return False
            self.facts = f
        for b in (isub(e, lo) if lo > -BIG else None, isub(hi, e) if hi < BIG else None):
            if b is not None:
                f = self.facts.assume(mk_ge(b))
                if f is None:
                    return False
                self.facts = f
        return not self.facts.contradictory()


_referents = {}


def referents(v):
    """The cells to which references are found in a term."""
    r = _referents.get(v)
    if r is None:
        out = set()

        def see(x):
            if isinstance(x, N):
                out.update(referents(x))
            elif isinstance(x, tuple):
                for y in x:
                    see(y)
        if v.t in ('ref', 'ptr') and isinstance(v.a[0], tuple):
            out.add(v.a[0])
        for x in v.a:
            see(x)
        r = _referents[v] = frozenset(out)
    return r


class Frame(object):
    __slots__ = ('body', 'depth')

    def __init__(self, body, depth):
        self.body, self.depth = body, depth


# ---------------------------------------------------------------- the interpreter

class Interp(object):
    MAXUNROLL = 600
    deep = False      # tell the last iteration of a loop from those before it

    def __init__(self, world):
        import models
        self.w = world
        self.models = models
        self.unmodelled = {}
        self.branches = []       # (function, span, condition)
        self.indices = []        # (function, span, index)
        self.vartime = []        # (function, span, operands)
        self.havocs = []
        self.visited = {}        # instance -> path
        self.stack = []
        self.counter = 0
        self.origins = {}       # unknowns standing for what a loop leaves: the values they were seen to have
        self.pointees = {}      # what was found behind references passed in
        self.blocks_seen = 0
        self.prom = {}
        self.hooks = {}
        self.clos = {}
        self.budget = 400000

    # -- types

    def ty(self, i):
        return self.w.types[i]

    def elemkey(self, t):
        d = self.ty(t)
        p = d.get('path')
        if d['k'] == 'uint' and d['name'] == 'u8':
            return 'u8'
        if p == SCALAR:
            return 'poly'
        if p == POINT:
            return 'lin'
        key = self.w.crate + ':' + (d['k'] + ' ' if d['k'] != 'adt' else '') + (p or '') + ' ' + d['s']
        if key not in ELEMENT:
            ELEMENT[key] = lambda e: self.symbolic(e, t)
        return key

    INTS = {'u8': (0, 255), 'u16': (0, 2 ** 16 - 1), 'u32': (0, 2 ** 32 - 1), 'u64': (0, U64MAX), 'usize': (0, U64MAX),
            'u128': (0, 2 ** 128 - 1), 'i8': (-128, 127), 'i16': (-2 ** 15, 2 ** 15 - 1), 'i32': (-2 ** 31, 2 ** 31 - 1),
            'i64': (-2 ** 63, 2 ** 63 - 1), 'isize': (-2 ** 63, 2 ** 63 - 1), 'i128': (-2 ** 127, 2 ** 127 - 1)}

    def int_range(self, t):
        d = self.ty(t)
        if d['k'] in ('uint', 'int'):
            return self.INTS[d['name']]
        if d['k'] == 'char':
            return (0, 0x10ffff)
        return None

    def elem_size(self, t):
        d = self.ty(t)
        if d['k'] in ('uint', 'int'):
            return {'8': 1, '16': 2, '32': 4, '64': 8, 'size': 8, '128': 16}[d['name'][1:]]
        if d.get('path') == SCALAR:
            return 32
        if d.get('path') == POINT:
            return 160
        return 8

    def symbolic(self, e, t):
        """An unknown of a type."""
        d = self.ty(t)
        k = d['k']
        if k == 'bool':
            return mk('b', e)
        r = self.int_range(t)
        if r:
            return I(ia(e, r[0], r[1]))
        if k == 'adt':
            p = d['path']
            if p == SCALAR:
                return patom(e)
            if p == POINT:
                return latom(e)
            if p == BASETABLE:
                return latom(e)
            if p == VEC:
                return self.sym_row(e, d['args'][0])
            if p == STRING:
                return sub_of(base(e, 'u8'), 0, I(ia(E('len', e), 0, 2 ** 63 - 1)))
            if d.get('box'):
                return self.symbolic(e, d['args'][0])
            if p == 'core::marker::PhantomData':
                return adt(p, 0, ())
            if p == 'merlin::Transcript':
                return mk('tr0', e)
            if d['adt'] == 'struct':
                return adt(p, 0, [self.symbolic(E('fld', e, i), f['ty'])
                                  for i, f in enumerate(d['variants'][0]['fields'])])
            if d['adt'] == 'enum' and len(d['variants']) == 1:
                return adt(p, 0, [self.symbolic(E('fld', e, i), f['ty'])
                                  for i, f in enumerate(d['variants'][0]['fields'])])
            return mk('sym', e, self.w.crate, t)
        if k == 'tuple':
            return tup(*[self.symbolic(E('fld', e, i), x) for i, x in enumerate(d['elems'])])
        if k == 'array':
            return sub_of(base(e, self.elemkey(d['elem'])), 0, d['len'])
        if k in ('slice',):
            return self.sym_row(e, d['elem'])
        if k == 'str':
            return sub_of(base(e, 'u8'), 0, I(ia(E('len', e), 0, 2 ** 63 - 1)))
        if k == 'ref':
            return mk('symref', e, self.w.crate, t)
        if k == 'ptr':
            return mk('symptr', e)
        if k == 'param':
            return mk('opaque', e)
        return mk('opaque', e)

    def sym_row(self, e, elem):
        return sub_of(base(e, self.elemkey(elem)), 0, I(ia(E('len', e), 0, (2 ** 63 - 1) // self.elem_size(elem))))

    def variants(self, s):
        """The values an unknown of an enum type may have."""
        d = self.ty(s.a[2])
        r = []
        for i, v in enumerate(d['variants']):
            r.append(adt(d['path'], i, [self.symbolic(E('var', s.a[0], i, j), f['ty'])
                                        for j, f in enumerate(v['fields'])]))
        return r

    # -- memory

    def follow(self, st, r):
        """(cell, path) of a reference."""
        if r.t == 'ref':
            return r.a[0], r.a[1]
        if r.t == 'symref':
            d = self.ty(r.a[2])
            if d['mut']:
                cell = ('p', r.a[0])
                if cell not in st.mem:
                    st.mem[cell] = self.pointees[cell] = self.sym_pointee(r.a[0], d['to'])
                return cell, ()
            return ('v', self.sym_pointee(r.a[0], d['to'])), ()
        raise Unsupported('dereference of %s' % r.t)

    def sym_pointee(self, e, t):
        d = self.ty(t)
        if d['k'] in ('param', 'opaque', 'dyn'):
            return mk('opaque', E('deref', e))
        return self.symbolic(e, t)

    def load(self, st, cell, path=()):
        if cell[0] == 'v':
            v = st.norm(cell[1])
        else:
            v = st.mem.get(cell, UNDEF)
        return self.get(st, v, path)

    def which(self, st, s, i):
        """The index into a row; into a table, or a row of neither numbers nor points written out, each place in turn."""
        i = st.norm(I(i))
        n = iconst(slen(s))
        if iconst(i) is not None or n is None or n > 64 or any(g[0] != 'lit' for g in s.a[0]):
            return i
        if elem_key(s) != 'any' and (n > 16 or any(iconst(v) is None for g in s.a[0] for v in g[1])):
            return i
        for k in range(n - 1):
            if self.test(st, ieq(i, I(k))):
                return I(k)
        return I(n - 1) if n and self.test(st, ieq(i, I(n - 1))) else i

    def get(self, st, v, path):
        for p in path:
            if p[0] == 'f':
                if v.t == 'adt':
                    v = v.a[2][p[1]] if p[1] < len(v.a[2]) else UNDEF
                elif v.t == 'tup':
                    v = v.a[0][p[1]] if p[1] < len(v.a[0]) else UNDEF
                elif v.t == 'clo':
                    v = v.a[2][p[1]]
                elif v.t == 'undef':
                    v = UNDEF
                elif v.t == 'sym':
                    raise ForkVariant(v)
                elif v.t == 'poly':
                    v = scalar_bytes(v)
                elif v.t == 'opaque':
                    v = mk('opaque', E('fld', v.a[0], p[1]))
                else:
                    raise Unsupported('field of %s' % v.t)
            elif p[0] == 'i':
                if v.t == 'seq':
                    v = st.norm(seq_index(st.facts, v, self.which(st, v, p[1])))
                else:
                    v = mk('opaque', E('elem', v, p[1]))
            elif p[0] == 's':
                if v.t != 'seq':
                    v = mk('opaque', E('slice', v, p[1], p[2]))
                else:
                    v = seq_sub(st.facts, v, p[1], p[2])
        return v

    def store(self, st, cell, path, new, shapes=None):
        if cell[0] == 'v':
            raise Unsupported('write through a shared reference')
        st.mem[cell] = self.put(st, st.mem.get(cell, UNDEF), path, new, shapes)

    def put(self, st, v, path, new, shapes):
        if not path:
            return new
        p, rest = path[0], path[1:]
        sh = shapes[1:] if shapes else None
        if p[0] == 'f':
            i = p[1]
            if v.t == 'tup':
                fs = list(v.a[0])
                fs[i] = self.put(st, fs[i], rest, new, sh)
                return tup(*fs)
            if v.t == 'clo':
                fs = list(v.a[2])
                fs[i] = self.put(st, fs[i], rest, new, sh)
                return mk('clo', v.a[0], v.a[1], tuple(fs))
            if v.t == 'sym' and not (shapes and shapes[0]):
                raise ForkVariant(v)
            shape = shapes[0] if shapes else None
            variant = shape[1] if shape and shape[1] is not None else (v.a[1] if v.t == 'adt' else 0)
            if v.t == 'adt' and (v.a[1] == variant or shape is None):
                fs = list(v.a[2])
                if i < len(fs):
                    fs[i] = self.put(st, fs[i], rest, new, sh)
                    return adt(v.a[0], v.a[1], fs)
            if shape is None:
                raise Unsupported('field write into %s' % v.t)
            d = self.ty(shape[0])
            if d['k'] == 'tuple':
                fs = [UNDEF] * len(d['elems'])
                fs[i] = self.put(st, UNDEF, rest, new, sh)
                return tup(*fs)
            if d['k'] == 'closure':
                fs = [UNDEF] * len(d['upvars'])
                fs[i] = self.put(st, UNDEF, rest, new, sh)
                return mk('clo', shape[0], None, tuple(fs))
            if d['k'] != 'adt':
                raise Unsupported('field write into %s' % d['k'])
            fs = [UNDEF] * len(d['variants'][variant]['fields'])
            fs[i] = self.put(st, UNDEF, rest, new, sh)
            return adt(d['path'], variant, fs)
        if v.t != 'seq':
            raise Unsupported('element write into %s' % v.t)
        if p[0] == 'i':
            if rest:
                new = self.put(st, st.norm(seq_index(st.facts, v, p[1])), rest, new, sh)
            r = seq_splice(st.facts, v, p[1], lit(new))
            if r is None:
                r = self.opaque_row(v, E('store', v, p[1], new))
            return r
        if p[0] == 's':
            if rest:
                new = self.put(st, seq_sub(st.facts, v, p[1], p[2]), rest, new, sh)
            r = seq_splice(st.facts, v, p[1], new)
            if r is None:
                r = self.opaque_row(v, E('store', v, p[1], new))
            return r
        raise Unsupported(p[0])

    def opaque_row(self, v, e):
        return sub_of(base(e, elem_key(v)), 0, slen(v))

    def deref(self, st, v):
        """What a value is, through however many references."""
        while v.t in ('ref', 'symref'):
            c, p = self.follow(st, v)
            v = st.norm(self.load(st, c, p))
        return v

    def place(self, st, p, fr):
        b = p['b']
        shapes = []
        if b[0] == 'l':
            cell = ('l', fr.depth, b[1])
        elif b[0] == 's':
            cell = ('v', self.static(*b[1:]))
        else:
            cell = ('v', self.promoted(fr.body, b[1]))
        path = ()
        variant = None
        for e in p['p']:
            k = e[0]
            if k == '*':
                d = self.ty(e[1])
                if d['k'] == 'adt' and d.get('box'):
                    continue
                v = st.norm(self.load(st, cell, path))
                if v.t in ('symptr', 'opaque', 'ptr'):
                    v = self.models.deref_pointer(self, st, v, d)
                cell, path = self.follow(st, v)
                shapes = [None] * len(path)
            elif k == 'f':
                path = path + (('f', e[1]),)
                shapes.append((e[3], variant))
                variant = None
            elif k == 'i':
                i = self.local(st, fr, e[1])
                path = path + (('i', i),)
                shapes.append(None)
                self.indices.append((fr.body.path, None, i, st.norm(i)))
            elif k == 'c':
                row = self.load(st, cell, path)
                i = isub(slen(row), e[1]) if e[3] else I(e[1])
                path = path + (('i', i),)
                shapes.append(None)
            elif k == 'sub':
                row = self.load(st, cell, path)
                path = path + (('s', I(e[1]), isub(isub(slen(row), e[1]), e[2])),)
                shapes.append(None)
            elif k == 'd':
                variant = e[1]
        return cell, path, shapes

    def static(self, path, ty, value=None):
        if value:
            return self.const(value)
        if ty is not None and self.ty(ty).get('path') == BASETABLE:
            return G
        v = self.models.static(self, path, ty)
        return v

    def promoted(self, body, i):
        key = (id(body), i)
        v = self.prom.get(key)
        if v is None:
            st = State()
            outs = self.run(body.promoted[i], [], st)
            rets = [(s, o) for s, o in outs if o[0] == 'ret']
            if len(rets) != 1:
                raise Unsupported('promoted constant')
            s, o = rets[0]
            v = self.freeze(s, o[1])
            self.prom[key] = v
        return v

    def freeze(self, st, v):
        """A value which does not refer to the cells of a state."""
        if v.t == 'ref' and v.a[0][0] != 'v':
            return vref(self.freeze(st, self.load(st, v.a[0], v.a[1])))
        if v.t in ('adt',):
            return adt(v.a[0], v.a[1], [self.freeze(st, x) for x in v.a[2]])
        if v.t == 'tup':
            return tup(*[self.freeze(st, x) for x in v.a[0]])
        return v

    def local(self, st, fr, n):
        return st.mem.get(('l', fr.depth, n), UNDEF)

    # -- operands and rvalues

    def operand(self, st, o, fr):
        p = o.get('copy') or o.get('move')
        if p is not None:
            c, path, _ = self.place(st, p, fr)
            v = self.load(st, c, path)
            return st.norm(v) if v.t != 'undef' else self.unwritten(p['ty'])
        if 'const' in o:
            return self.const(o['const'])
        if 'fn' in o:
            return mk('fn', self.fnkey(o['fn']))
        raise Unsupported('operand')

    def unwritten(self, t):
        """What was never written to has a value if there is only one of its type."""
        d = self.ty(t)
        if d['k'] == 'tuple' and not d['elems']:
            return UNIT
        if d['k'] == 'adt' and d['adt'] == 'struct' and not d['variants'][0]['fields']:
            return adt(d['path'], 0, ())
        if d['k'] == 'closure' and not d.get('upvars'):
            return mk('clo', t, None, ())
        return UNDEF

    FNS = []
    FNIDX = {}

    def fnkey(self, f):
        k = id(f)
        i = self.FNIDX.get(k)
        if i is None:
            i = len(self.FNS)
            self.FNS.append(f)
            self.FNIDX[k] = i
        return i

    def const(self, c):
        d = self.ty(c['ty'])
        k = d['k']
        if 'bits' in c:
            x = int(c['bits'])
            if k == 'bool':
                return boolean(x)
            if k == 'int':
                n = 8 * c['size']
                if x >= 1 << (n - 1):
                    x -= 1 << n
            if k == 'adt' and d['adt'] == 'enum':
                for i, v in enumerate(d['variants']):
                    if v['discr'] == x:
                        return adt(d['path'], i, [UNDEF] * len(v['fields']))
            if k in ('fnptr', 'ptr', 'ref'):
                return mk('null') if x == 0 else mk('opaque', E('addr', x))
            if k == 'adt' and d['adt'] == 'struct' and len(d['variants'][0]['fields']) == 1:
                return adt(d['path'], 0, [self.const(dict(c, ty=d['variants'][0]['fields'][0]['ty']))])
            return I(x)
        if 'refbytes' in c:
            return vref(self.from_bytes(d['to'], c['refbytes'], c.get('item'), c.get('relocs') or (), c.get('len')))
        if 'bytes' in c:
            return self.from_bytes(c['ty'], c['bytes'], c.get('item'), c.get('relocs') or ())
        if k == 'tuple' and not d['elems']:
            return UNIT
        if k == 'closure':
            return mk('clo', c['ty'], None, ())
        if k == 'adt' and d['adt'] == 'struct' and not d['variants'][0]['fields']:
            return adt(d['path'], 0, ())
        if k == 'fndef':
            return mk('opaque', E('fndef', d['s']))
        return mk('opaque', E('const', str(c.get('item') or d['s'])))

    def size_of(self, t):
        """The number of bytes of a type in a constant, or None."""
        d = self.ty(t)
        if d['k'] in ('uint', 'int'):
            return {'8': 1, '16': 2, '32': 4, '64': 8, 'size': 8, '128': 16}[d['name'][1:]]
        if d['k'] == 'char':
            return 4
        if d['k'] == 'bool':
            return 1
        if d['k'] == 'ref':
            return 16 if self.ty(d['to'])['k'] in ('str', 'slice', 'dyn') else 8
        if d['k'] == 'array':
            n = self.size_of(d['elem'])
            return None if n is None or d.get('len') is None else n * int(d['len'])
        return None

    def from_bytes(self, t, bs, item=None, relocs=(), length=None):
        """The value of a constant, from its bytes and what the pointers in it point to."""
        d = self.ty(t)
        p = d.get('path')
        if d['k'] in ('str', 'array', 'slice'):
            if d['k'] == 'array' and d.get('len') is not None:
                length = d['len']
            if d['k'] == 'str' or self.elemkey(d['elem']) == 'u8':
                return bytes_(bs if length is None or d['k'] == 'str' else bs[:int(length)])
            n = self.size_of(d['elem'])
            if n and length is not None:
                r = EMPTY
                for i in range(int(length)):
                    r = cat(r, lit(self.from_bytes(d['elem'], bs[i * n:i * n + n], item,
                                                   [(o - i * n, b, x) for o, b, x in relocs if i * n <= o < i * n + n])))
                return r
            return mk('opaque', E('const', str(item)))
        if d['k'] == 'ref' and relocs:
            at, to, more = relocs[0]
            n = int.from_bytes(bytes(bs[:8]), 'little')
            if at == 0 and len(relocs) == 1 and len(bs) in (8, 16):
                size = int.from_bytes(bytes(bs[8:]), 'little') if len(bs) == 16 else None
                to = to[n:]
                if self.ty(d['to'])['k'] == 'str':
                    to = to[:size]
                return vref(self.from_bytes(d['to'], to, item, [(o - n, b, x) for o, b, x in more if o >= n], size))
        if p == POINT or p == BASETABLE:
            if item and item.startswith('curve25519_dalek::constants::RISTRETTO_BASEPOINT'):
                return G
            return latom(E('constpoint', str(item)))
        if p == SCALAR:
            c = int.from_bytes(bytes(bs), 'little')
            return pconst(c) if len(bs) == 32 and c < L_ORDER else patom(E('constscalar', str(item)))
        if d['k'] == 'array' and self.elemkey(d['elem']) == 'u8':
            return bytes_(bs)
        if d['k'] in ('uint', 'int', 'char'):
            return I(int.from_bytes(bytes(bs), 'little', signed=d['k'] == 'int'))
        if d['k'] == 'bool':
            return boolean(bs[0])
        if p == COMPRESSED:
            return adt(p, 0, [bytes_(bs)])
        if d['k'] == 'adt' and d['adt'] == 'struct':
            fs = d['variants'][0]['fields']
            if not fs:
                return adt(p, 0, ())
            if len(fs) == 1:
                return adt(p, 0, [self.from_bytes(fs[0]['ty'], bs, item)])
        if d['k'] == 'tuple' and not d['elems']:
            return UNIT
        return mk('opaque', E('const', str(item)))

    def rvalue(self, st, r, fr, dty, span):
        k = r['k']
        if k == 'use':
            return self.operand(st, r['o'], fr)
        if k == 'ref':
            c, p, _ = self.place(st, r['p'], fr)
            if not p and (c not in st.mem or st.mem[c].t == 'undef'):
                v = self.unwritten(r['p']['ty'])
                if v.t != 'undef':
                    st.mem[c] = v
            return ref(c, p)
        if k == 'repeat':
            v = self.operand(st, r['o'], fr)
            return seq((('rep', v, I(int(r['n']))),))
        if k == 'len':
            c, p, _ = self.place(st, r['p'], fr)
            return slen(self.load(st, c, p))
        if k == 'cast':
            return self.cast(st, r, fr)
        if k in ('bin', 'cbin'):
            a, b = self.operand(st, r['a'], fr), self.operand(st, r['b'], fr)
            ta = self.operand_type(r['a'], fr)
            return self.binary(st, r['op'], a, b, ta, k == 'cbin')
        if k == 'un':
            a = self.operand(st, r['a'] if 'a' in r else r['o'], fr)
            t = self.operand_type(r['a'] if 'a' in r else r['o'], fr)
            if r['op'] == 'Not':
                if is_cond(a):
                    return cnot(a)
                if a.t == 'int' and self.int_range(t):
                    lo, hi = self.int_range(t)
                    return isub(I(hi) if lo == 0 else I(-1), a)
                return mk('opaque', E('not', a))
            if r['op'] == 'Neg' and a.t == 'int':
                return iscale(a, -1)
            return mk('opaque', E('un', r['op'], a))
        if k == 'discr':
            c, p, _ = self.place(st, r['p'], fr)
            return self.discr(st, self.load(st, c, p), r['p']['ty'])
        if k == 'agg':
            ops = [self.operand(st, o, fr) for o in r['ops']]
            of = r['of']
            if of == 'array':
                return lit(*ops)
            if of == 'tuple':
                return tup(*ops)
            if of == 'adt':
                return self.make_adt(r, ops)
            if of == 'closure':
                return mk('clo', r['ty'], r.get('inst'), tuple(ops))
            raise Unsupported('aggregate %s' % of)
        if k == 'nullary':
            return mk('opaque', E('nullary', dty))
        raise Unsupported('rvalue %s' % k)

    def make_adt(self, a, ops):
        d = self.ty(a['ty'])
        if d.get('path') in (VEC, SCALAR, POINT):
            raise Unsupported('construction of %s' % d['path'])
        return adt(d['path'], a['v'], ops)

    def discr(self, st, v, t):
        v = st.norm(v)
        if v.t == 'adt':
            d = self.ty(t)
            if d['k'] == 'adt' and d['variants'] and v.a[1] < len(d['variants']):
                return I(int(d['variants'][v.a[1]]['discr']))
            return I(v.a[1])
        if v.t == 'sym':
            raise ForkVariant(v)
        if v.t == 'opaque':
            d = self.ty(t)
            n = len(d['variants']) if d['k'] == 'adt' else 2
            return I(ia(E('discr', v.a[0]), 0, max(0, n - 1)))
        if v.t == 'undef':
            raise Unsupported('discriminant of an undefined value')
        return I(0)

    def operand_type(self, o, fr):
        p = o.get('copy') or o.get('move')
        if p is not None:
            return p['ty']
        if 'const' in o:
            return o['const']['ty']
        return o.get('ty')

    def cast(self, st, r, fr):
        v = self.operand(st, r['o'], fr)
        to = self.ty(r['ty'])
        c = r['c']
        if c == 'Unsize' or c in ('UnsafeFnPointer', 'ClosureFnPointer', 'ReifyFnPointer', 'MutToConstPointer'):
            return v
        rng = self.int_range(r['ty'])
        if rng:
            if is_cond(v):
                d = st.decide(v)
                if d is None:
                    raise Fork(v)
                return I(1 if d else 0)
            if v.t == 'int':
                lo, hi = rng
                if st.decide(cand(ige(v, I(lo)), ige(I(hi), v))) is True:
                    return v
                if st.decide(ige(v, I(lo))) is True and lo == 0:
                    return rem(v, hi + 1)
                return I(ia(E('wrap', v, hi), lo, hi))
            if v.t == 'adt':
                d = [x for x in self.w.types if x.get('path') == v.a[0]][0]
                return I(int(d['variants'][v.a[1]]['discr']))
            return I(ia(E('cast', v), rng[0], rng[1]))
        if to['k'] == 'ptr' and v.t == 'int' and iconst(v) == 0:
            return mk('null')
        return v

    def binary(self, st, op, a, b, t, checked):
        rng = self.int_range(t)
        if op in ('Eq', 'Ne'):
            c = self.equality(st, a, b)
            return c if op == 'Eq' else cnot(c)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            if a.t == 'int' and b.t == 'int':
                return {'Lt': ilt(a, b), 'Le': ige(b, a), 'Gt': ilt(b, a), 'Ge': ige(a, b)}[op]
            return mk('cond', E(op, a, b))
        if is_cond(a) and is_cond(b):
            if op == 'BitAnd':
                return cand(a, b)
            if op == 'BitOr':
                return cor(a, b)
            if op == 'BitXor':
                return cnot(equal(a, b))
        if a.t != 'int' or b.t != 'int' or rng is None:
            r = mk('opaque', E('bin', op, a, b)) if rng is None else I(ia(E('bin', op, a, b), rng[0], rng[1]))
            return tup(r, FALSE) if checked else r
        lo, hi = rng
        if op in ('Add', 'Sub', 'Mul'):
            r = iadd(a, b) if op == 'Add' else isub(a, b) if op == 'Sub' else imul(a, b)
            fits = cand(ige(r, I(lo)), ige(I(hi), r))
            if checked:
                return tup(r, cnot(fits))
            d = st.decide(fits)
            if d is None:
                raise Fork(fits)
            if d:
                return r
            if iconst(r) is not None:
                x = (iconst(r) - lo) % (hi - lo + 1) + lo
                return I(x)
            return I(ia(E('wrap', r, hi), lo, hi))
        ca, cb = iconst(a), iconst(b)
        if op in ('Div', 'Rem'):
            self.vartime.append((op, None, a, b))
        nonneg = st.decide(ige(a, I(0))) is True
        if op in ('BitAnd', 'BitOr', 'BitXor') and nonneg and (ca is None) != (cb is None):
            r = self.high_bits(st, op, a, cb) if ca is None else self.high_bits(st, op, b, ca)
            if r is not None:
                return r
        if op in ('Rem', 'Shr') and cb is not None and 0 < cb < (1 << 32 if op == 'Rem' else 32) and nonneg:
            m = cb if op == 'Rem' else 1 << cb
            k = self.multiple(st, a, m)
            if k is not None:
                return isub(a, I(k * m)) if op == 'Rem' else I(k)
        if op == 'Div' and cb and cb > 0 and nonneg:
            return div(a, cb)
        if op == 'Rem' and cb and cb > 0 and nonneg:
            return rem(a, cb)
        if op in ('Shl', 'Shr') and cb is not None and nonneg:
            r = iscale(a, 1 << cb) if op == 'Shl' else div(a, 1 << cb)
            if op == 'Shl' and st.decide(ige(I(hi), r)) is not True:
                r = I(ia(E('wrap', r, hi), lo, hi))
            return tup(r, FALSE) if checked else r
        if op == 'BitAnd' and nonneg:
            for x, c in ((a, cb), (b, ca)):
                if c is not None and c >= 0 and (c & (c + 1)) == 0:
                    return rem(x, c + 1)
        if ca is not None and cb is not None:
            if op == 'BitAnd':
                return I(ca & cb)
            if op == 'BitOr':
                return I(ca | cb)
            if op == 'BitXor':
                return I(ca ^ cb)
        if op == 'BitOr' and ca == 0:
            return b
        if op == 'BitOr' and cb == 0:
            return a
        r = I(ia(E('bin', op, a, b), lo, hi))
        if op == 'BitAnd' and lo == 0:
            m = min(ibounds(a)[1], ibounds(b)[1])
            r = I(ia(E('bin', op, a, b), 0, min(m, hi)))
        return tup(r, FALSE) if checked else r

    def multiple(self, st, a, m):
        """a div m, if it is known and not more than 32."""
        for k in range(min(ibounds(a)[1] // m, 32) + 1):
            if st.decide(ige(a, I(k * m))) is not True:
                return None
            if st.decide(ige(I((k + 1) * m - 1), a)) is True:
                return k
        return None

    def high_bits(self, st, op, a, c):
        """A bitwise operation with a constant which leaves the low bits alone (or drops them), when the others are known."""
        if c <= 0 or ibounds(a)[0] < 0:
            return None
        low = op == 'BitAnd' and (c & (c + 1)) == 0
        j = c.bit_length() if low else (c & -c).bit_length() - 1
        k = self.multiple(st, a, 1 << j)
        if k is None:
            return None
        if low:
            return isub(a, I(k << j))
        h = c >> j
        if op == 'BitAnd':
            return I((k & h) << j)
        return iadd(a, I((((k | h) if op == 'BitOr' else k ^ h) - k) << j))

    def equality(self, st, a, b):
        if a.t in ('null', 'symptr', 'ref', 'ptr') or b.t in ('null', 'symptr', 'ref', 'ptr'):
            return self.models.pointer_eq(self, st, a, b)
        return equal(self.deref(st, a), self.deref(st, b))

    # -- running

    def require(self, st, c, kind):
        """Panics unless a condition holds."""
        c = st.norm(c)
        d = st.decide(c)
        if d is None:
            raise Fork(c)
        if not d:
            raise Panic(kind)

    def test(self, st, c):
        c = st.norm(c)
        d = st.decide(c)
        if d is None:
            raise Fork(c)
        return d

    def split(self, st, f, site=None):
        """Run f on copies of a state, splitting on the conditions it asks for: [(state, result)]."""
        todo, out = [st], []
        n = 0
        while todo:
            s = todo.pop()
            n += 1
            if n > 4000:
                raise Unsupported('too many cases')
            t = s.copy()
            try:
                r = f(t)
            except Fork as e:
                a, b = s.copy(), s
                if b.assume(e.cond, False, site):
                    todo.append(b)
                if a.assume(e.cond, True, site):
                    todo.append(a)
                continue
            except ForkVariant as e:
                for v in reversed(self.variants(e.sym)):
                    a = s.copy()
                    a.conds = a.conds + ((mk('variant', e.sym, v.a[1]), True, site, mk('variant', e.sym, v.a[1])),)
                    a.substitute({e.sym: v})
                    todo.append(a)
                continue
            except Panic as e:
                out.append((t, ('panic', e.kind)))
                continue
            if isinstance(r, list):
                out.extend(r)
            else:
                out.append((t, ('ret', r)))
        return out

    def run(self, body, args, st):
        """Interpret a function: [(state, ('ret', value) | ('panic', kind, where))]."""
        if len(self.stack) > 60:
            raise Unsupported('recursion')
        if body.iid is not None:
            self.visited[body.iid] = body.path
        self.stack.append(body)
        st = st.copy()
        st.depth += 1
        fr = Frame(body, st.depth)
        for i, a in enumerate(args):
            st.mem[('l', fr.depth, i + 1)] = a
        try:
            outs = self.from_block(st, fr, 0, None, None)
        finally:
            self.stack.pop()
        res = []
        for s, o in outs:
            if o[0] == 'ret':
                v = s.norm(self.settle(s.mem.get(('l', fr.depth, 0), UNDEF), body.locals[0]['ty']))
                d = fr.depth
                v = self.escape(s, v, d)
                s.mem = {c: x for c, x in s.mem.items() if not (c[0] == 'l' and c[1] >= d)}
                s.depth = d - 1
                res.append((s, ('ret', v)))
            else:
                s.depth = fr.depth - 1
                res.append((s, o))
        return res

    def settle(self, v, t):
        """A result, with the parts of it of which there is only one value."""
        if v.t == 'undef':
            return self.unwritten(t)
        if v.t == 'adt':
            d = self.ty(t)
            if d['k'] == 'adt' and d.get('path') == v.a[0] and UNDEF in v.a[2]:
                fs = d['variants'][v.a[1]]['fields']
                return adt(v.a[0], v.a[1], [self.settle(x, f['ty']) for x, f in zip(v.a[2], fs)])
        return v

    def escape(self, st, v, d):
        """References into the frame which is left: only raw pointers can be."""
        if v.t == 'ref' and v.a[0][0] == 'l' and v.a[0][1] >= d:
            return mk('dangling', self.load(st, v.a[0], v.a[1]))
        if v.t == 'ptr' and v.a[0] == 'into':
            r = v.a[1]
            if r.t == 'ref' and r.a[0][0] == 'l' and r.a[0][1] >= d:
                return mk('ptr', 'heap', self.load(st, r.a[0], r.a[1]))
        if v.t == 'adt':
            return adt(v.a[0], v.a[1], [self.escape(st, x, d) for x in v.a[2]])
        if v.t == 'tup':
            return tup(*[self.escape(st, x, d) for x in v.a[0]])
        return v

    def from_block(self, st, fr, b, loop, head):
        """Follow the paths from a block. Within a loop, returning to its head ends a path with ('back',), and
        leaving it with ('exit', block)."""
        body = fr.body
        loops = body.loops()
        todo = [(st, b, True)]
        out = []
        while todo:
            s, b, first = todo.pop()
            if loop is not None and not first:
                if b == head:
                    out.append((s, ('back',)))
                    continue
                if b not in loop:
                    out.append((s, ('exit', b)))
                    continue
            if b in loops and not (b == head and first):
                for s2, o in self.run_loop(s, fr, b):
                    if o[0] == 'exit':
                        todo.append((s2, o[1], False))
                    else:
                        out.append((s2, o))
                continue
            for s2, o in self.exec_block(s, fr, b):
                if o[0] == 'goto':
                    todo.append((s2, o[1], False))
                else:
                    out.append((s2, o))
        return out

    def exec_block(self, st, fr, b):
        self.budget -= 1
        if self.budget < 0:
            raise Unsupported('analysis budget')
        if not self.budget % 16 and (time.process_time() > CPU_LIMIT or time.time() - START > WALL_LIMIT):
            raise Unsupported('analysis time')
        blk = fr.body.blocks[b]
        states = [st]
        for s in blk['st']:
            nxt = []
            for x in states:
                for t, o in self.split_statement(x, s, fr):
                    if o[0] == 'panic':
                        return [(t, o + ((fr.body.path, s.get('sp')),))]
                    nxt.append(t)
            states = nxt
        out = []
        for x in states:
            out.extend(self.terminator(x, fr, blk['t']))
        return out

    def split_statement(self, st, s, fr):
        k = s['s']
        if k == 'dead':
            st.mem.pop(('l', fr.depth, s['l']), None)
            return [(st, ('ret', None))]
        if k == 'live':
            return [(st, ('ret', None))]

        def go(t):
            self.statement(t, s, fr)
        try:
            go(st)
            return [(st, ('ret', None))]
        except (Fork, ForkVariant):
            return self.split(st, go, (fr.body.path, s.get('sp')))

    def statement(self, st, s, fr):
        if s['s'] == '=':
            p = s['p']
            v = self.rvalue(st, s['r'], fr, p['ty'], s.get('sp'))
            c, path, shapes = self.place(st, p, fr)
            self.store(st, c, path, v, shapes)
        elif s['s'] == 'discr':
            p = s['p']
            c, path, shapes = self.place(st, p, fr)
            v = self.load(st, c, path)
            d = self.ty(p['ty'])
            n = len(d['variants'][s['v']]['fields'])
            if v.t == 'adt' and v.a[1] == s['v']:
                return
            fs = v.a[2] if v.t == 'adt' and len(v.a[2]) == n and v.a[1] == s['v'] else [UNDEF] * n
            self.store(st, c, path, adt(d['path'], s['v'], fs), shapes)

    def site(self, fr, t):
        return (fr.body.path, t.get('sp'))

    def terminator(self, st, fr, t):
        k = t['t']
        if k == 'goto':
            return [(st, ('goto', t['to']))]
        if k == 'return':
            return [(st, ('ret',))]
        if k == 'drop':
            p = t['p']
            st.event('drop', self.peek(st, p, fr), fr.body.path, str(t.get('sp')), p['ty'], fr.depth,
                     p['b'][1] if p['b'][0] == 'l' else -1)
            return [(st, ('goto', t['to']))]
        if k == 'dropreplace':
            v = self.operand(st, t['o'], fr)
            c, path, shapes = self.place(st, t['p'], fr)
            self.store(st, c, path, v, shapes)
            return [(st, ('goto', t['to']))]
        if k == 'switch':
            return self.switch(st, fr, t)
        if k == 'assert':
            site = self.site(fr, t)

            def go(s):
                c = self.operand(s, t['o'], fr)
                if not is_cond(c):
                    raise Unsupported('assertion of %s' % c.t)
                self.require(s, c if t['exp'] else cnot(c), t['msg'])
                return None
            out = []
            for s, o in self.split(st, go, site):
                out.append((s, ('goto', t['to']) if o[0] == 'ret' else o + (site,)))
            return out
        if k == 'call':
            return self.call_terminator(st, fr, t)
        if k == 'unreachable':
            return []
        if k in ('resume', 'abort'):
            return [(st, ('panic', 'abort', self.site(fr, t)))]
        raise Unsupported('terminator %s' % k)

    def peek(self, st, p, fr):
        try:
            c, path, _ = self.place(st, p, fr)
            return st.norm(self.load(st, c, path))
        except (Fork, ForkVariant, Unsupported):
            return UNDEF

    def switch(self, st, fr, t):
        site = self.site(fr, t)
        try:
            v = self.operand(st, t['o'], fr)
        except (Fork, ForkVariant):
            return [x for s, _ in self.split(st, lambda s: self.operand(s, t['o'], fr), site)
                    for x in self.switch(s, fr, t)]
        if is_cond(v):
            conds = []
            for x in t['vals']:
                conds.append(v if int(x) else cnot(v))
        elif v.t == 'int':
            conds = [ieq(v, I(int(x))) for x in t['vals']]
        elif v.t == 'undef':
            raise Unsupported('switch on an undefined value')
        else:
            conds = [mk('cond', E('case', v, int(x))) for x in t['vals']]
        out = []
        cur = st
        for c, to in zip(conds, t['to']):
            d = cur.decide(c)
            if d is None:
                self.branches.append((site, cur.norm(c)))
                a = cur.copy()
                if a.assume(c, True, site):
                    out.append((a, ('goto', to)))
                cur = cur.copy()
                if not cur.assume(c, False, site):
                    return out
                conds = [cur.norm(x) for x in conds]
            elif d:
                out.append((cur, ('goto', to)))
                return out
        out.append((cur, ('goto', t['to'][-1])))
        return out

    def call_terminator(self, st, fr, t):
        site = self.site(fr, t)
        out = []
        f = t['f']

        def go(s):
            args = [self.operand(s, a, fr) for a in t['a']]
            if 'fn' in f:
                r = self.call(s, f['fn'], args, site, t['dst']['ty'] if t.get('dst') else None)
            else:
                fv = self.operand(s, f, fr)
                r = self.call_value(s, fv, args, site, t['dst']['ty'] if t.get('dst') else None)
            return r
        for s, o in self.split(st, go, site):
            if o[0] == 'panic':
                out.append((s, o if len(o) > 2 else o + (site,)))
                continue
            if t.get('to') is None:
                out.append((s, ('panic', 'diverges', site)))
                continue
            for s2, o2 in self.split(s, lambda x: self.assign(x, t['dst'], o[1], fr), site):
                out.append((s2, ('goto', t['to'])))
        return out

    def assign(self, st, p, v, fr):
        c, path, shapes = self.place(st, p, fr)
        self.store(st, c, path, st.norm(v), shapes)

    def call(self, st, f, args, site, dty):
        """[(state, outcome)] of calling a function."""
        h = self.hooks.get(f.get('rpath')) or self.hooks.get(f.get('path'))
        if h is not None:
            r = h(self, st, f, args, site, dty)
            if r is not NotImplemented:
                return self.results(st, r)
        m = self.models.lookup(self, f)
        if m is not None:
            r = m(self, st, Call(self, f, args, site, dty))
            if r is not NotImplemented:
                return self.results(st, r)
        if f.get('inst') is not None:
            return self.run(self.w.body(f['inst']), args, st)
        r = self.models.by_value(self, st, Call(self, f, args, site, dty))
        if r is not NotImplemented:
            return self.results(st, r)
        return [(st, ('ret', self.havoc(st, f, args, site, dty)))]

    def results(self, st, r):
        if isinstance(r, list):
            return r
        return [(st, ('ret', r))]

    def havoc(self, st, f, args, site, dty):
        """The result of something about which nothing is known, nor of what it does to what it can write to."""
        name = f.get('rpath') or f.get('path')
        self.unmodelled.setdefault(name, set()).add(site)
        self.counter += 1
        e = E('call', name, self.counter)
        st.event('unknown', name, site)
        for i, a in enumerate(args):
            self.scramble(st, a, E('arg', e, i), f)
        return self.symbolic(e, dty) if dty is not None else UNIT

    def scramble(self, st, v, e, f):
        if v.t == 'ref' and v.a[0][0] != 'v':
            x = self.load(st, v.a[0], v.a[1])
            # Whether it is a mutable reference is not known here: assume so.
            if x.t in ('poly', 'lin', 'seq', 'int', 'adt', 'opaque') and self.mutable(f):
                self.store(st, v.a[0], v.a[1], self.blur(x, e))

    def mutable(self, f):
        return True

    def blur(self, x, e):
        if x.t == 'poly':
            return patom(e)
        if x.t == 'lin':
            return latom(e)
        if x.t == 'int':
            return I(ia(e, -BIG, BIG))
        if x.t == 'seq':
            return sub_of(base(e, elem_key(x)), 0, I(ia(E('len', e), 0, 2 ** 63 - 1)))
        if x.t == 'adt' and x.a[2]:
            return adt(x.a[0], x.a[1], [self.blur(y, E('fld', e, i)) for i, y in enumerate(x.a[2])])
        if x.t in ('ref', 'fn', 'clo'):
            return x
        return mk('opaque', e)

    def call_value(self, st, fv, args, site, dty=None):
        """Call a closure or a function pointer."""
        while fv.t in ('ref', 'symref'):
            if self.deref1(st, fv).t in ('clo', 'fn', 'ref', 'symref'):
                inner = self.deref1(st, fv)
                if inner.t == 'clo':
                    return self.call_closure(st, inner, fv, args, site)
                fv = inner
            else:
                break
        if fv.t == 'clo':
            return self.call_closure(st, fv, None, args, site)
        if fv.t == 'fn':
            return self.call(st, self.FNS[fv.a[0]], args, site, dty)
        self.unmodelled.setdefault('indirect call', set()).add(site)
        self.counter += 1
        return [(st, ('ret', self.symbolic(E('call', 'indirect', self.counter), dty) if dty is not None else UNIT))]

    def deref1(self, st, r):
        c, p = self.follow(st, r)
        return st.norm(self.load(st, c, p))

    def call_closure(self, st, clo, cref, args, site):
        inst = clo.a[1]
        if inst is None:
            inst = self.closure_inst(clo.a[0])
        if inst is None:
            raise Unsupported('closure without a body')
        body = self.w.body(inst)
        # The closure's own argument may be by reference or by value.
        envt = self.ty(body.locals[1]['ty'])
        if envt['k'] == 'ref':
            if cref is None:
                self.counter += 1
                cell = ('c', self.counter)
                st.mem[cell] = clo
                cref = ref(cell)
            env = cref
        else:
            env = clo
        if body.d.get('spread') or body.argc != 1 + len(args):
            if body.argc == 2 and body.d.get('spread'):
                return self.run(body, [env, tup(*args)], st)
        return self.run(body, [env] + list(args), st)

    def closure_inst(self, t):
        """The body of a closure, which takes the closure or a reference to it."""
        if t not in self.clos:
            self.clos[t] = None
            for i, x in enumerate(self.w.d['insts']):
                if x.get('closure'):
                    e = x['locals'][1]['ty']
                    d = self.ty(e)
                    if e == t or d['k'] == 'ref' and d['to'] == t:
                        self.clos[t] = i
        return self.clos[t]

    # -- loops

    def run_loop(self, st, fr, head):
        from loops import summarise
        loop = fr.body.loops()[head]

        def step(s):
            return self.from_block(s, fr, head, loop, head)

        def clean(s):
            live = fr.body.live_at(head)
            s.mem = {c: v for c, v in s.mem.items()
                     if not (c[0] == 'l' and c[1] == fr.depth and c[2] not in live)}
            return s

        def typeof(c):
            return fr.body.locals[c[2]]['ty'] if c[0] == 'l' and c[1] == fr.depth else None

        def tidy(s, o):
            if o[0] == 'exit':
                read = fr.body.read_at(o[1])
                keep = {c for c in s.mem if not (c[0] == 'l' and c[1] == fr.depth and c[2] not in read)}
                todo = list(keep)
                while todo:
                    for c in referents(s.mem[todo.pop()]):
                        if c in s.mem and c not in keep:
                            keep.add(c)
                            todo.append(c)
                s.mem = {c: v for c, v in s.mem.items() if c in keep}
        return summarise(self, st, step, clean, (fr.body.path, head), typeof, tidy)

    # -- entry points

    def analyse(self, inst, args=None, st=None):
        """The ways a function may end, from unknown arguments or given ones."""
        body = self.w.body(inst) if isinstance(inst, int) else inst
        st = st or State()
        if args is None:
            args = self.unknown_args(st, body)
        return self.run(body, args, st)

    def unknown_args(self, st, body, names=None):
        args = []
        for i in range(body.argc):
            l = body.locals[i + 1]
            name = (names or {}).get(i) or l['name'] or 'arg%d' % i
            args.append(self.symbolic(E('in', name), l['ty']))
        return args


class Call(object):
    def __init__(self, ip, f, args, site, dty):
        self.f, self.args, self.site, self.dty = f, args, site, dty
        self.name = f['name']
        self.path = f.get('rpath') or f['path']
        self.trait = f.get('trait') or f.get('impl_trait')
