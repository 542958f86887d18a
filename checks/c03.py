"""Issuer::issue and User::obtain_finish (and their Signal counterparts), for an unknown key, attribute and randomness,
are followed as one program: every way issuing ends must be success with the stated values, as polynomials in the
unknowns, and every way accepting ends must be success storing exactly the issued credential. For unknown numbers of
attributes and key components, issuing succeeds only if they agree."""
from parties import *


def attributes():
    return [scalar('attribute')]


def check_issued(c, f, outs, iss, attrs_of, key, gens):
    bad_ok = [(s, o) for s, o in outs if not is_ok(o)]
    h, g = params()['h'], params()['g']
    n = 0
    for s, o in outs:
        if not is_ok(o):
            continue
        n += 1
        v = payload(o)
        cred = F(v, 'credential')
        attrs = attrs_of(s)
        c.ob(same(s, F(cred, 'attributes'), lit(*attrs)), key + ':attributes',
             'the credential holds exactly the requested attributes', f.where, show(F(cred, 'attributes'))[:800])
        P, Q = F(cred, 'mac', 'nonce'), F(cred, 'mac', 'mac')
        k = multiple_of(P, G)
        d = draw_of(k) if k is not None else None
        c.ob(d, key + ':nonce', 'P is one fresh draw times the basepoint', f.where, show(P)[:500])
        c.ob(same(s, Q, tag_value(iss, attrs, P)), key + ':mac', 'the MAC is one on the attributes under the key', f.where,
             show(Q)[:800])
        C = F(v, 'secret_key_commitment')
        if C.t == 'adt':
            C = F(C, 0)
        rest = lsub(C, lmul(F(iss, 'keypair', 'secret', 'x0'), g))
        k2 = multiple_of(rest, h)
        d2 = draw_of(k2) if k2 is not None else None
        c.ob(d2, key + ':commitment', 'the commitment is g*x0 + h*r for one fresh draw r', f.where, show(C)[:800])
        if d and d2:
            c.ob(d != d2, key + ':distinct', 'the nonce and the opening are different draws', f.where)
    c.ob(n, key + ':succeeds', 'issuing can succeed', f.where)
    return bad_ok


def reference(c):
    f = fn('aeonflux', 'Issuer', 'issue')
    g = fn('aeonflux', 'User', 'obtain_finish')
    iss = issuer()
    st = State()
    req = make(f.w, ty('aeonflux', '::credential::CredentialRequest'), {'attributes_revealed': lit(*attributes())})
    r = c.run(f, args_by_type(f, st, {'Issuer': iss, 'CredentialRequest': req}), st)
    c.no_panic(r)
    bad = check_issued(c, f, r.outs, iss, lambda s: attributes(), 'issue', r.names)
    c.ob(not bad, 'issue:total', 'issuing for one attribute always succeeds', f.where, conditions(bad[0][0]) if bad else '')
    accept(c, g, r.outs, 'aeonflux', user('aeonflux', iss), 'obtain_finish', lambda u: u)


def accept(c, g, outs, crate, u, key, inner):
    n = 0
    for s, o in outs:
        if not is_ok(o):
            continue
        s = s.copy()
        me = mutable(s, 'user', u)
        a = args_by_type(g, s, {tyname(g.w, g.argtypes()[0]): me, 'Option<CredentialIssuance>': some(vref(payload(o)))})
        x = c.run(g, a, s)
        c.no_panic(x)
        for s2, o2 in x.outs:
            n += 1
            c.ob(is_ok(o2), key + ':accepts', 'what was issued is accepted', g.where, conditions(s2))
            if is_ok(o2):
                want = some(F(payload(o), 'credential'))
                got = F(inner(read(s2, 'user')), 'credential')
                c.ob(same(s2, got, want), key + ':stores', 'the user then holds exactly the issued credential', g.where,
                     show(got)[:1500])
    c.ob(n, key + ':reached', 'accepting is reached', g.where)


def signal(c):
    crate = 'signal_credential'
    f = fn(crate, 'SignalIssuer', 'issue')
    g = fn(crate, 'SignalUser', 'obtain_finish')
    mk_user = fn(crate, 'SignalUser', 'new')
    iss = issuer(crate)
    w = world(crate)
    sig = make(w, ty(crate, '::issuer::SignalIssuer'), {'issuer': iss})
    for length in LENGTHS:
        st = State()
        number = sub_of(base(E('in', 'number'), 'u8'), 0, length)
        u = c.run(mk_user, args_by_type(mk_user, st, {'SystemParameters': params(), 'PublicKey': F(iss, 'keypair', 'public'),
                                                      '[u8]': number}), st)
        c.no_panic(u)
        good = [(s, o) for s, o in u.outs if is_ok(o)]
        c.ob(good and len(good) == len(u.outs), 'signal:new', 'a user is created for every phone number of 1 to 26 digits',
             mk_user.where)
        for s, o in good:
            me = payload(o)
            pn = F(me, 'phone_number', 0)
            c.ob(same(s, F(me, 'user', 'system_parameters', 'h'), params()['h']) and
                 same(s, F(me, 'user', 'system_parameters', 'g'), params()['g']) and
                 same(s, F(me, 'user', 'issuer_parameters', 'Xn'), F(iss, 'keypair', 'public', 'Xn')) and
                 same(s, F(me, 'user', 'credential'), NONE),
                 'signal:user', 'a new user has the given parameters and no credential', mk_user.where, show(me)[:900])
            s = s.copy()
            r = c.run(f, args_by_type(f, s, {'SignalIssuer': sig, '[u8]': number}), s)
            c.no_panic(r)
            bad = check_issued(c, f, r.outs, iss, lambda s: [pn], 'signal:issue', r.names)
            c.ob(not bad, 'signal:issue:total', 'issuing for an acceptable phone number always succeeds', f.where,
                 conditions(bad[0][0]) if bad else '')
            accept(c, g, r.outs, crate, me, 'signal:obtain_finish', lambda u: F(u, 'user'))


LENGTHS = [1, 10, 26]


def counts(c):
    f = fn('aeonflux', 'Issuer', 'issue')
    r = c.run(f)
    c.no_panic(r)
    by = {tyname(f.w, t): r.arg(i) for i, t in enumerate(f.argtypes())}
    n = slen(F(by['Issuer'], 'keypair', 'secret', 'xn'))
    l = slen(F(by['CredentialRequest'], 'attributes_revealed'))
    bad = [s for s, o in r.outs if is_ok(o) and not holds(s, ieq(n, l))]
    c.ob(not bad, 'issue:counts', 'a request with another number of attributes than the key supports gets an error',
         f.where, conditions(bad[0]) if bad else '')
    g = fn('aeonflux', 'User', 'obtain')
    x = c.run(g)
    c.no_panic(x)
    i = [k for k, t in enumerate(g.argtypes()) if tyname(g.w, t).startswith('Vec')][0]
    c.each(x, lambda o: o[0] == 'ret', 'obtain', 'a request holds the given attributes',
           lambda s, o: same(s, F(o[1], 'attributes_revealed'), x.arg(i)))


def keys(c):
    """Issuers are created with public parameters belonging to their key."""
    for crate, own, name, inner in (('aeonflux', 'Issuer', 'create', lambda v: v),
                                    ('signal_credential', 'SignalIssuer', 'create', lambda v: F(v, 'issuer'))):
        f = fn(crate, own, name)
        st = State()
        r = c.run(f, args_by_type(f, st, {'SystemParameters': params()}), st)
        c.no_panic(r)

        def t(s, o):
            v = inner(o[1])
            sec, pub = F(v, 'keypair', 'secret'), F(v, 'keypair', 'public')
            h = F(v, 'system_parameters', 'h')
            if not (same(s, h, params()['h']) and same(s, F(v, 'system_parameters', 'g'), params()['g'])):
                return 'other system parameters'
            if iconst(slen(F(sec, 'xn'))) != 1:
                return 'the key has %s components' % show(slen(F(sec, 'xn')))
            return same(s, F(pub, 'Xn'), lit(*[lmul(elem(F(sec, 'xn'), 0), h)])) or show(pub)
        c.each(r, lambda o: o[0] == 'ret', '%s:create' % own, 'the issuer has the given system parameters, a key for one '
               'attribute and the public parameters x1*h', t)
    for crate, own, inner in (('aeonflux', 'Issuer', lambda v: v), ('signal_credential', 'SignalIssuer', lambda v: F(v, 'issuer'))):
        f = fn(crate, own, 'get_issuer_parameters')
        r = c.run(f)
        c.no_panic(r)
        c.each(r, lambda o: o[0] == 'ret', own + ':parameters', 'the issuer parameters are the public part of the key',
               lambda s, o: same(s, F(o[1], 'Xn'), F(inner(r.arg(0)), 'keypair', 'public', 'Xn')))
        f = fn(crate, own, 'new')
        r2 = c.run(f)
        by = {tyname(f.w, t): r2.arg(i) for i, t in enumerate(f.argtypes())}
        c.no_panic(r2)
        c.each(r2, lambda o: o[0] == 'ret', own + ':new', 'a new issuer has the given parameters and keypair',
               lambda s, o: same(s, F(inner(o[1]), 'keypair'), by['Keypair']) and
               same(s, F(inner(o[1]), 'system_parameters'), by['SystemParameters']))
    f = fn('aeonflux', 'SecretKey', 'get_public_key', module='amacs')
    r = c.run(f)
    c.no_panic(r)
    xn = F(r.arg(0), 'xn')
    c.each(r, lambda o: o[0] == 'ret', 'public_key', 'each public component is the secret one times h',
           lambda s, o: same(s, F(o[1], 'Xn'), row(slen(xn), lambda i: lit(lmul(at(xn, i), r.arg(1))))) or show(o[1]))


PARTS = [reference, signal, counts, keys]
