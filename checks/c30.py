"""Provenance of every secret the library generates. Each generating function is analysed on unknown arguments; the scalars
in their roles (key components, nonces, openings, rerandomisation factors) are read off the returned terms, and each must be
exactly one full-width draw whose generator is the one passed by the caller, or a transcript generator reseeded by a draw
from it or from the operating system. Within an operation no two roles share a draw (for rows, no two elements). The
blindings of the proofs are examined in the same way here, and further under C13."""
from protocol import *
from nipk import systems, unknown as unknown_statement, run_create


def drawn(p):
    """(generator, number) if a term is exactly one full-width draw."""
    if p.t == 'poly':
        d = draw_of(p)
        if d:
            return d
        if len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1 and p.a[0][0][0][0][1] == 1:
            e = p.a[0][0][0][0][0].a[0]
            if e.t == 'e' and e.a[0] == 'wide' and iconst(slen(e.a[1])) == 64 and len(e.a[1].a[0]) == 1:
                g = e.a[1].a[0][0]
                b = g[1].a[0] if g[0] == 'sub' else None
                if b is not None and b.t == 'e' and b.a[0] == 'fill' and b.a[1].t == 'e' and b.a[1].a[0] == 'rbytes' \
                        and iconst(I(b.a[2])) == 64:
                    return b.a[1].a[1], b.a[1].a[2]
    if p.t == 'lin' and len(p.a[0]) == 1 and p.a[0][0][1] is ONE:
        e = p.a[0][0][0].a[0]
        if e.t == 'e' and e.a[0] == 'randpoint':
            return e.a[1], e.a[2]
    return None


def allowed(g, depth=0):
    """Whether a generator is one passed by the caller, or reseeded from it or the operating system."""
    if g.t != 'e' or depth > 4:
        return False
    if g.a[0] == 'os':
        return depth > 0
    if g.a[0] == 'deref' and g.a[1].t == 'e' and g.a[1].a[0] == 'in' or g.a[0] == 'in':
        return True
    if g.a[0] == 'trng':
        seed = g.a[2]
        return seed.t == 'e' and seed.a[0] == 'seed' and allowed(seed.a[1], depth + 1)
    return False


def coeff(l, b):
    """The coefficient of one group element in another; both linear combinations of unknowns."""
    if l.t != 'lin' or b.t != 'lin' or len(b.a[0]) != 1:
        return None
    for v, k in l.a[0]:
        if v is b.a[0][0][0]:
            return k if b.a[0][0][1] is ONE else None
    return pconst(0)


def nonce_of(P):
    """The secret in the choice of a group element: itself if it was drawn, or what it is the multiple of the basepoint by."""
    if drawn(P):
        return P
    return multiple_of(P, G)


def by_type(r, name):
    for i, t in enumerate(r.f.argtypes()):
        if tyname(r.f.w, t) == name:
            return r.arg(i)
    raise Missing('%s takes a %s' % (r.f.path, name))


def key_roles(v):
    yield 'x0', F(v, 'x0')
    yield 'xn', F(v, 'xn')


def pub_secret(v):
    return key_roles(F(v, 'secret'))


def issuance_roles(r, s, v, params):
    yield 'nonce of the MAC', nonce_of(F(v, 'credential', 'mac', 'nonce'))
    yield 'nonce of the commitment to the key', coeff(strip(F(v, 'secret_key_commitment')), s.norm(F(params, 'h')))


def strip(v):
    while v.t == 'adt' and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def show_roles(r, s, v, u, with_nonces):
    h = s.norm(F(u, 'system_parameters', 'h'))
    cred = s.norm(F(u, 'credential'))
    P = F(payload((None, cred)), 'mac', 'nonce')
    yield 'rerandomisation', coeff(F(v, 'rerandomized_nonce'), P)
    yield 'nonce of the commitment to the MAC', coeff(strip(F(v, 'rerandomized_mac_commitment')), h)
    if with_nonces:
        yield 'nonce of the attribute', coeff(strip(at(s.norm(F(v, 'attributes_blinded')), 0)), h)


S = 'signal_credential'
TABLE = [
    # crate, module or None, type, function, roles
    ('aeonflux', 'amacs', 'SecretKey', 'new', lambda r, s, v: key_roles(v)),
    ('aeonflux', 'amacs', 'SecretKey', 'mac', lambda r, s, v: [('nonce', nonce_of(F(v, 'nonce')))]),
    ('aeonflux', 'amacs', 'Keypair', 'new', lambda r, s, v: pub_secret(v)),
    ('aeonflux', 'amacs', 'Rerandomization', 'new', lambda r, s, v: [('factor', F(v, 0))]),
    ('aeonflux', 'elgamal', 'SecretKey', 'generate', lambda r, s, v: [('key', F(v, 0))]),
    ('aeonflux', 'elgamal', 'Keypair', 'generate', lambda r, s, v: [('key', F(v, 'secret', 0))]),
    ('aeonflux', 'nonces', 'Ephemeral', 'new', lambda r, s, v: [('nonce', F(v, 0))]),
    ('aeonflux', 'nonces', 'Nonces', 'new', lambda r, s, v: [('nonces', F(v, 0))]),
    ('aeonflux', 'issuer', 'Issuer', 'create', lambda r, s, v: pub_secret(F(v, 'keypair'))),
    ('aeonflux', 'issuer', 'Issuer', 'issue',
     lambda r, s, v: issuance_roles(r, s, v, F(by_type(r, 'Issuer'), 'system_parameters'))),
    ('aeonflux', 'user', 'User', 'show', lambda r, s, v: show_roles(r, s, v, by_type(r, 'User'), False)),
    (S, 'issuer', 'SignalIssuer', 'create', lambda r, s, v: pub_secret(F(v, 'issuer', 'keypair'))),
    (S, 'issuer', 'SignalIssuer', 'issue',
     lambda r, s, v: issuance_roles(r, s, v, F(by_type(r, 'SignalIssuer'), 'issuer', 'system_parameters'))),
    (S, 'user', 'SignalUser', 'show',
     lambda r, s, v: show_roles(r, s, F(v, 'presentation'), F(by_type(r, 'SignalUser'), 'user'), True)),
    (S, 'phone_number', 'RosterEntryCommitment', 'create', lambda r, s, v: [('opening', F(v, 'opening'))]),
]


def differ(s, a, b):
    """Whether two draws are certainly different ones."""
    return a[0] is not b[0] or holds(s, ieq(a[1], b[1]), False)


def examine(c, key, f, s, roles, bad):
    """Each role is a draw, and no two the same."""
    got = []
    n = 0
    for name, v in roles:
        v = strip(s.norm(v)) if v is not None else None
        if v is not None and v.t == 'seq':
            # A row of them: an element in general, and two of them.
            num = slen(v)
            k = iconst(num)
            if k is not None and k <= 8:
                for m in range(k):
                    x = strip(s.norm(seq_index(s.facts, v, I(m))))
                    n += 1
                    d = drawn(x)
                    if d is None or not allowed(d[0]):
                        bad.append((name, 'element %d is %s' % (m, show(x)[:500]), s))
                    else:
                        got.append(('%s[%d]' % (name, m), d, s))
                continue
            i, j = ia(E('row', 'i', name), 0, BIG), ia(E('row', 'j', name), 0, BIG)
            s2 = s.copy()
            if iconst(num) == 0 or not s2.assume(ige(isub(num, I(i)), I(1))):
                continue
            x = strip(s2.norm(seq_index(s2.facts, v, I(i))))
            n += 1
            d = drawn(x)
            if d is None or not allowed(d[0]):
                bad.append((name, 'an element is ' + show(x)[:500], s2))
                continue
            s3 = s2.copy()
            if s3.assume(ige(isub(num, I(j)), I(1))) and s3.assume(ige(isub(I(j), I(i)), I(1))):
                y = drawn(strip(s3.norm(seq_index(s3.facts, v, I(j)))))
                if y is None or not differ(s3, (d[0], s3.norm(d[1])), y):
                    bad.append((name, 'two elements may be one draw', s3))
            got.append((name, d, s2))
            continue
        n += 1
        d = drawn(v) if v is not None else None
        if d is None:
            bad.append((name, 'it is ' + (show(v)[:500] if v is not None else 'no multiple'), s))
        elif not allowed(d[0]):
            bad.append((name, 'its generator is ' + show(d[0])[:500], s))
        else:
            got.append((name, d, s))
    for i, (n1, d1, s1) in enumerate(got):
        for n2, d2, s2 in got[i + 1:]:
            if not differ(s1 if s1 is not s else s2, d1, d2):
                bad.append((n2, 'it is the same draw as ' + n1, s))
    return n


def operations(c):
    for crate, mod, own, name, roles in TABLE:
        f = fn(crate, own, name, module=mod)
        key = '%s::%s::%s' % (mod, own, name)
        r = c.run(f, hooks=Nizk().hooks)
        bad = []
        n = 0
        for s, o in r.outs:
            if o[0] != 'ret' or is_err(o):
                continue
            v = payload(o) if is_ok(o) else o[1]
            try:
                n += examine(c, key, f, s, list(roles(r, s, v)), bad)
            except Missing:
                raise
        c.ob(not bad, key, 'every secret %s generates is a draw of its own from a proper generator' % key, f.where,
             '%s: %s\n%s' % (bad[0][0], bad[0][1], conditions(bad[0][2])) if bad else '')
        c.ob(n, key + ':reached', '%s generates secrets' % key, f.where)


def blindings(c):
    for y in systems():
        sec, pub = unknown_statement(y)
        r = run_create(c, y, sec, pub)
        bad = []
        n = 0
        for s, o in r.outs:
            if o[0] != 'ret':
                continue
            ch, resp = F(o[1], 'challenge'), F(o[1], 'responses')
            n += examine(c, y.name, y.create, s, [(w, psub(F(resp, w), pmul(ch, sec[w]))) for w in y.secrets], bad)
        c.ob(not bad and n, y.name, 'every blinding of %s is a draw of its own from a proper generator' % y.name, y.create.where,
             '%s: %s\n%s' % (bad[0][0], bad[0][1], conditions(bad[0][2])) if bad else '')


def generators(c):
    """Wherever else something is drawn, the generator is a proper one."""
    n = 0
    bad = []
    for crate in ('aeonflux', S):
        w = world(crate)
        for it in w.items:
            if it['inst'] is None or it.get('trait') or '_IMPL_' in it['path'] or not it['reachable']:
                continue
            f = Fn(w, it)
            if not any('RngCore' in str(g) or 'CryptoRng' in str(g) for g in [it.get('generics')]) and \
                    not any(w.types[t]['k'] == 'ref' and w.types[w.types[t]['to']]['k'] == 'param' for t in f.argtypes()):
                continue
            r = c.run(f, hooks=Nizk().hooks)
            for s, o in r.outs:
                for e in s.ev:
                    if e[0] == 'draw':
                        n += 1
                        g = e[2]
                        if not allowed(g, 1 if e[1] == 'seed' else 0):
                            bad.append((f, g, s))
    c.ob(not bad, 'generators', 'everything is drawn from the generator passed by the caller or a reseeded one',
         bad[0][0].where if bad else '', '%s: %s' % (bad[0][0].path, show(bad[0][1])[:500]) if bad else '')
    c.ob(n >= 20, 'draws', '%d draws were traced' % n)
    c.floor = 25


PARTS = [operations, blindings, generators]
