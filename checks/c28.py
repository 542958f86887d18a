"""Every reachable function of the crates whose result contains system parameters is followed on unknown arguments (a
loop from its first and from a general iteration). Each way of returning parameters must imply that g and h differ and
neither is the identity. Those not decoding must use the basepoint for g; a generated h must be decompressed from one
draw of 32 bytes from the caller's generator, and a converted one must be the given point or what the given bytes
encode. Decoding must accept exactly two valid encodings of such points in 64 bytes; converting may refuse, by an
error or a panic, only degenerate or invalid input."""
from lib import *
from interp import G_BYTES, bytes_, valid_cond

PARAMS = 'SystemParameters'


def points(s, v):
    return F(v, 'g'), F(v, 'h')


def row_of(p):
    """The bytes a point was decompressed from."""
    if p.t == 'lin' and len(p.a[0]) == 1 and p.a[0][0][1] is ONE:
        e = p.a[0][0][0].a[0]
        if e.t == 'e' and e.a[0] == 'dec':
            return e.a[1]
    return None


def encoding(p):
    return bytes_(G_BYTES) if p is G else bytes_([0] * 32) if p is IDENT else row_of(p)


def differ(s, a, b):
    a, b = s.norm(a), s.norm(b)
    if holds(s, leq(a, b), False):
        return True
    # Distinct bytes encode distinct points.
    x, y = encoding(a), encoding(b)
    return x is not None and y is not None and holds(s, equal(x, y), False)


def inside(v, depth=0):
    """The system parameters a returned value contains."""
    if v.t == 'adt':
        if v.a[0].endswith('::SystemParameters'):
            return [v]
        return [x for y in v.a[2] for x in inside(y)]
    if v.t == 'tup':
        return [x for y in v.a[0] for x in inside(y)]
    return []


def mentions(w, t, depth=0):
    d = w.types[t]
    if d['k'] == 'adt':
        if d['path'].endswith('::' + PARAMS):
            return True
        return d['path'].split('::')[0] in ('core', 'alloc', 'std') and \
            any(mentions(w, x, depth + 1) for x in d['args'] if isinstance(x, int))
    if d['k'] == 'tuple':
        return any(mentions(w, x) for x in d['elems'])
    return False


def makers():
    r = []
    for crate in ('aeonflux', 'signal_credential'):
        w = world(crate)
        for it in w.items:
            if it['inst'] is None or it.get('output') is None or not mentions(w, it['output']):
                continue
            tr = (it.get('trait') or '').split('::')[-1]
            if tr in ('Clone', 'Deserialize', 'Visitor') or not it['reachable']:
                continue   # copies; what deserialises calls the decoder (C29)
            r.append(Fn(w, it))
    return r


def sound(c):
    fs = makers()
    kinds = {'decode': 0, 'generate': 0, 'point': 0, 'bytes': 0}
    for f in fs:
        ip = Interp(f.w)
        ip.deep = True
        r = c.run(f, ip=ip)
        ins = [tyname(f.w, x) for x in f.item['inputs']]
        decoding = f.name == 'from_bytes'
        gen = any(f.w.types[x]['k'] == 'ref' and f.w.types[x].get('mut') for x in f.item['inputs'])
        kind = 'decode' if decoding else 'point' if ins == ['RistrettoPoint'] else 'generate' if gen else 'bytes'
        kinds[kind] += 1
        n = 0
        bad = {}
        for s, o in r.outs:
            if o[0] != 'ret':
                continue
            for v in inside(o[1]):
                n += 1
                g, h = points(s, v)
                for what, x, y in (('g and h are distinct', g, h), ('g is not the identity', g, IDENT),
                                   ('h is not the identity', h, IDENT)):
                    if not differ(s, x, y):
                        bad.setdefault(what, (s, v))
                if kind != 'decode' and s.norm(g) is not G:
                    bad.setdefault('g is the basepoint', (s, v))
                if kind == 'generate' and not drawn(r, s, h):
                    bad.setdefault('h is decompressed from bytes drawn from the given generator', (s, v))
                if kind == 'point' and not same(s, h, r.arg(0, s)):
                    bad.setdefault('h is the given point', (s, v))
                if kind == 'bytes' and not taken(r, s, h):
                    bad.setdefault('h is what the given bytes encode', (s, v))
        for what in ('g and h are distinct', 'g is not the identity', 'h is not the identity') + (
                () if kind == 'decode' else ('g is the basepoint',)) + (
                {'generate': ('h is decompressed from bytes drawn from the given generator',),
                 'point': ('h is the given point',), 'bytes': ('h is what the given bytes encode',)}.get(kind, ())):
            b = bad.get(what)
            c.ob(n > 0 and b is None, '%s:%s' % (short(f), what), '%s: %s' % (short(f), what), f.where,
                 (show(b[1]) + '\n' + conditions(b[0])) if b else '' if n else 'it never returns any')
        refusals(c, f, r, kind)
    for k, n in sorted(kinds.items()):
        c.ob(n > 0, 'makers:' + k, 'there is a way to obtain system parameters of the kind: ' + k)


def drawn(r, s, h):
    """Whether a point is decompressed from 32 bytes which are one draw from a generator passed as an argument."""
    b = row_of(s.norm(h))
    if b is None or len(b.a[0]) != 1 or b.a[0][0][0] != 'sub':
        return False
    src, off = b.a[0][0][1], b.a[0][0][2]
    e = src.a[0] if src.t == 'base' else src
    if iconst(off) != 0 or e.t != 'e' or e.a[0] != 'fill' or iconst(e.a[2]) != 32:
        return False
    e = e.a[1]
    return e.t == 'e' and e.a[0] == 'rbytes' and e.a[1].t == 'e' and e.a[1].a[0] == 'deref' and \
        e.a[1].a[1].t == 'e' and e.a[1].a[1].a[0] == 'in'


def taken(r, s, h):
    b = row_of(s.norm(h))
    return b is not None and any(x.t == 'seq' and same(s, x, b) for x in [r.arg(i, s) for i in range(len(r.args))])


def refusals(c, f, r, kind):
    """What is refused is degenerate or invalid."""
    if kind == 'decode':
        a = r.arg(0)
        p, q = seq_sub(r.st.facts, a, I(0), I(32)), seq_sub(r.st.facts, a, I(32), I(32))
        P, Q = latom(E('dec', p)), latom(E('dec', q))
        c.exactly_when(r, [(ieq(slen(a), I(64)), True, 'there are 64 bytes'),
                           (valid_cond(p), True, 'g is validly encoded'), (valid_cond(q), True, 'h is validly encoded'),
                           (leq(P, Q), False, 'g and h differ'), (leq(P, IDENT), False, 'g is not the identity'),
                           (leq(Q, IDENT), False, 'h is not the identity')], short(f), 'decodes good parameters')
        return
    for s, o in r.outs:
        if o[0] == 'ret' and inside(o[1]):
            continue
        if kind == 'point':
            h = r.arg(0)
            bad = possible(s, [(leq(h, G), False), (leq(h, IDENT), False)])
        elif kind == 'bytes':
            b = next((x for x in (r.arg(i) for i in range(len(r.args))) if x.t == 'seq'), None)
            h = latom(E('dec', b)) if b is not None else None
            bad = b is not None and possible(s, [(valid_cond(b), True), (leq(h, G), False), (leq(h, IDENT), False),
                                                 (equal(b, bytes_(G_BYTES)), False),
                                                 (equal(b, bytes_([0] * 32)), False),
                                                 (ieq(slen(b), I(32)), True)])
        else:
            bad = s
        c.ob(not bad, short(f) + ':refuses', '%s refuses only degenerate or invalid input' % short(f), f.where,
             conditions(s))
    c.ob(True, short(f) + ':refusals', '%s was checked for what it refuses' % short(f), f.where)


PARTS = [sound]
