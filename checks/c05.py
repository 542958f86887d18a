"""User::show and then Issuer::verify (and the Signal counterparts) are followed as one program, the proofs included, for
an unknown issuer key, attribute, credential nonce and randomness with a valid MAC: every way this may end must be
acceptance, except where the presented nonce is the identity. Showing without a credential or with wrong numbers of
attributes, nonces or parameters must end in an error, for unknown users and nonces."""
from parties import *


def identity_path(s, P):
    return holds(s, leq(P, IDENT))


def present(c, f, g, u, iss_arg, extra, key, attr, pres_nonce):
    st = State()
    r = c.run(f, args_by_type(f, st, extra), st)
    c.no_panic(r)
    bad = [(s, o) for s, o in r.outs if not is_ok(o)]
    c.ob(not bad, key + ':show', 'showing a credential always succeeds', f.where, conditions(bad[0][0]) if bad else '')
    n = 0
    outs = []
    for s, o in r.outs:
        if not is_ok(o):
            continue
        n += 1
        s = s.copy()
        p = payload(o)
        v = c.run(g, args_by_type(g, s, {tyname(g.w, g.argtypes()[0]): iss_arg, tyname(g.w, g.argtypes()[1]): p}), s)
        c.no_panic(v)
        bad = [(s2, o2) for s2, o2 in v.outs if not is_ok(o2) and not identity_path(s2, pres_nonce(p))]
        c.ob(not bad, key + ':verify', 'an honest presentation is accepted unless its nonce is the identity', g.where,
             conditions(bad[0][0]) if bad else '')
        good = [(s2, o2) for s2, o2 in v.outs if is_ok(o2)]
        c.ob(good, key + ':accepts', 'an honest presentation can be accepted', g.where)
        outs += [(s2, o2, p) for s2, o2 in good]
    c.ob(n, key + ':reached', 'verifying is reached', f.where)
    return outs


def aeonflux_(c):
    f, g = fn('aeonflux', 'User', 'show'), fn('aeonflux', 'Issuer', 'verify')
    iss = issuer()
    a = scalar('attribute')
    u = user('aeonflux', iss, some(credential('aeonflux', iss, [a])))
    nt = [i for i, t in enumerate(f.argtypes()) if tyname(f.w, t) == 'Nonces'][0]
    for z in (lit(scalar('z')),):
        present(c, f, g, u, iss, {'User': u, 'Nonces': nonces(f, z)}, 'show', a, lambda p: F(p, 'rerandomized_nonce'))


def nonces(f, row):
    """Nonces with given scalars."""
    w = f.w
    t = [t for t in f.argtypes() if tyname(w, t) == 'Nonces'][0]
    d = w.types[t]
    while d['k'] == 'ref':
        t = d['to']
        d = w.types[t]
    e = w.types[d['variants'][0]['fields'][0]['ty']]['args'][0]
    p = w.types[e]['path'] if w.types[e]['k'] == 'adt' else None
    vals = [v for g in row.a[0] for v in g[1]]
    from interp import SCALAR
    return adt(d['path'], 0, [lit(*[v if p == SCALAR else adt(p, 0, [v]) for v in vals])])


def signal(c):
    crate = 'signal_credential'
    f, g = fn(crate, 'SignalUser', 'show'), fn(crate, 'SignalIssuer', 'verify')
    iss = issuer(crate)
    w = world(crate)
    a = scalar('attribute')
    u = user(crate, iss, some(credential(crate, iss, [a])))
    me = make(w, ty(crate, '::user::SignalUser'), {'phone_number': pn(w, a), 'user': u})
    sig = make(w, ty(crate, '::issuer::SignalIssuer'), {'issuer': iss})
    present(c, f, g, me, sig, {'SignalUser': me}, 'signal', a, lambda p: F(p, 'presentation', 'rerandomized_nonce'))


def pn(w, a):
    return adt('signal_credential::phone_number::PhoneNumber', 0, [a])


def errors(c):
    f = fn('aeonflux', 'User', 'show')
    r = c.run(f)
    c.no_panic(r)
    by = {tyname(f.w, t): r.arg(i) for i, t in enumerate(f.argtypes())}
    u, z = by['User'], by['Nonces']
    for s, o in r.outs:
        if not is_ok(o):
            continue
        cr = s.norm(F(u, 'credential'))
        good = cr.t == 'adt' and cr.a[1] == 1
        c.ob(good, 'errors:credential', 'showing needs a credential', f.where, conditions(s))
        if good:
            l = slen(F(cr.a[2][0], 'attributes'))
            c.ob(same(s, l, I(1)) and same(s, slen(F(z, 0)), I(1)), 'errors:counts',
                 'showing needs one attribute and one nonce', f.where, conditions(s))
        c.ob(holds(s, ige(slen(F(u, 'issuer_parameters', 'Xn')), I(1))), 'errors:parameters',
             'showing needs issuer parameters', f.where, conditions(s))
    g = fn('signal_credential', 'SignalUser', 'show')
    x = c.run(g)
    c.no_panic(x)
    for s, o in x.outs:
        if is_ok(o):
            cr = s.norm(F(x.arg(0), 'user', 'credential'))
            c.ob(cr.t == 'adt' and cr.a[1] == 1, 'errors:signal', 'showing needs a credential', g.where, conditions(s))


PARTS = [aeonflux_, signal, errors]
