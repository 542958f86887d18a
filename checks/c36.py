"""Value-flow analysis of every constructor and accessor of keys, issuers, users and requests on unknown arguments (a key
of any number of parts): each part of the result must be the term the property names. Public key parts are compared
element by element, at a general index; lengths as terms."""
from lib import *
from c14 import strip
from c21 import const


def rets(o):
    return o[0] == 'ret'


def number(crate='aeonflux'):
    return const(crate, 'parameters::NUMBER_OF_ATTRIBUTES' if crate == 'aeonflux' else 'credential::NUMBER_OF_ATTRIBUTES')


def belongs(s, public, secret, h):
    """Whether every part of a public key is the secret's times h."""
    X, x = s.norm(F(public, 'Xn')), s.norm(F(secret, 'xn'))
    if not same(s, slen(X), slen(x)):
        return 'the keys have different lengths: %s, %s' % (show(slen(X)), show(slen(x)))
    n = slen(X)
    if iconst(n) is not None:
        return all(same(s, elem(X, i, s.facts), lmul(elem(x, i, s.facts), h)) for i in range(iconst(n))) or \
            'a part is not the secret\'s times h: %s' % show(X)[:300]
    k = ia(E('any'), 0, BIG)
    s = s.copy()
    if not s.assume(ilt(I(k), n), True):
        return True
    a, b = seq_index(s.facts, X, I(k)), seq_index(s.facts, x, I(k))
    return same(s, a, lmul(b, h)) or '%s is not h*%s' % (show(a)[:200], show(b)[:200])


def keys(c):
    f = fn('aeonflux', 'SecretKey', 'new', module='amacs')
    r = c.run(f)
    c.no_panic(r)
    n = next(r.arg(i) for i in range(len(r.args)) if tyname(f.w, f.argtypes()[i]) == 'usize')
    c.each(r, rets, 'secret', 'a new secret key has one part for each attribute besides x0',
           lambda s, o: same(s, slen(s.norm(F(o[1], 'xn'))), n) or show(o[1])[:300])
    f = fn('aeonflux', 'SecretKey', 'get_public_key')
    r = c.run(f)
    c.no_panic(r)
    h = next(strip(r.arg(i)) for i in range(len(r.args)) if tyname(f.w, f.argtypes()[i]) == 'RistrettoPoint')
    k = next(r.arg(i) for i in range(len(r.args)) if tyname(f.w, f.argtypes()[i]) == 'SecretKey')
    c.each(r, rets, 'public', 'the public key of a secret has h times each of its parts, in order',
           lambda s, o: belongs(s, o[1], k, h))
    f = fn('aeonflux', 'Keypair', 'new', module='amacs')
    r = c.run(f)
    c.no_panic(r)
    h = next(strip(r.arg(i)) for i in range(len(r.args)) if tyname(f.w, f.argtypes()[i]) == 'RistrettoPoint')
    c.each(r, rets, 'pair', 'a new keypair\'s public key belongs to its secret one',
           lambda s, o: belongs(s, F(o[1], 'public'), F(o[1], 'secret'), h))
    c.each(r, rets, 'pair:length', 'a new keypair is for messages of NUMBER_OF_ATTRIBUTES attributes',
           lambda s, o: same(s, slen(s.norm(F(o[1], 'secret', 'xn'))), I(number())))


def lengths(c):
    for own, want in (('PublicKey', lambda v: slen(F(v, 'Xn'))), ('SecretKey', lambda v: iadd(slen(F(v, 'xn')), I(1))),
                      ('Keypair', lambda v: iadd(iadd(slen(F(v, 'public', 'Xn')), slen(F(v, 'secret', 'xn'))), I(1)))):
        f = fn('aeonflux', own, 'len', module='amacs')
        r = c.run(f)
        c.no_panic(r)
        c.each(r, rets, 'len:' + own, 'the length of a %s is the number of its parts' % own,
               lambda s, o: same(s, o[1], want(r.arg(0))) or show(o[1]))


def arg_of(r, name):
    for i, t in enumerate(r.f.argtypes()):
        if tyname(r.f.w, t) == name:
            return r.arg(i)
    raise Missing('an argument of the type %s of %s' % (name, r.f.path))


def issuers(c):
    for crate, own, inner in (('aeonflux', 'Issuer', ()), ('signal_credential', 'SignalIssuer', ('issuer',))):
        f = fn(crate, own, 'create')
        r = c.run(f)
        c.no_panic(r)
        sp = arg_of(r, 'SystemParameters')
        c.each(r, rets, own + ':create:parameters', 'a new issuer has the given system parameters',
               lambda s, o: same(s, F(o[1], *inner + ('system_parameters',)), sp))
        c.each(r, rets, own + ':create:key', 'a new issuer\'s public key is its secret key\'s under the h it was given',
               lambda s, o: belongs(s, F(o[1], *inner + ('keypair', 'public')), F(o[1], *inner + ('keypair', 'secret')),
                                    F(sp, 'h')))
        c.each(r, rets, own + ':create:length', 'a new issuer\'s key is for NUMBER_OF_ATTRIBUTES attributes',
               lambda s, o: same(s, slen(s.norm(F(o[1], *inner + ('keypair', 'secret', 'xn')))), I(number(crate))))
        f = fn(crate, own, 'new')
        r = c.run(f)
        c.no_panic(r)
        sp, kp = arg_of(r, 'SystemParameters'), arg_of(r, 'Keypair')
        c.each(r, rets, own + ':new', 'an issuer made from parameters and a keypair has exactly those',
               lambda s, o: same(s, F(o[1], *inner + ('system_parameters',)), sp) and
               same(s, F(o[1], *inner + ('keypair',)), kp))
        f = fn(crate, own, 'get_issuer_parameters')
        r = c.run(f)
        c.no_panic(r)
        me = r.arg(0)
        c.each(r, rets, own + ':parameters', 'the parameters an issuer publishes are its public key',
               lambda s, o: same(s, o[1], F(me, *inner + ('keypair', 'public'))))


def users(c):
    f = fn('aeonflux', 'User', 'new')
    r = c.run(f)
    c.no_panic(r)
    given = [(x, arg_of(r, t)) for x, t in (('system_parameters', 'SystemParameters'), ('issuer_parameters', 'PublicKey'),
                                            ('key', 'Option<Keypair>'))]
    c.each(r, rets, 'user', 'a new user has the given parameters and key and no credential',
           lambda s, o: all(same(s, F(o[1], x), v) for x, v in given) and same(s, F(o[1], 'credential'), NONE) or
           show(o[1])[:300])
    f = fn('aeonflux', 'User', 'obtain')
    r = c.run(f)
    c.no_panic(r)
    a = arg_of(r, 'Vec<Scalar>')
    c.each(r, rets, 'obtain', 'a request has exactly the given attributes',
           lambda s, o: same(s, F(o[1], 'attributes_revealed'), a))
    f = fn('signal_credential', 'SignalUser', 'new')
    g = fn('signal_credential', 'PhoneNumber', 'try_from_bytes')
    r = c.run(f)
    c.no_panic(r)
    given = [(x, arg_of(r, t)) for x, t in (('system_parameters', 'SystemParameters'), ('issuer_parameters', 'PublicKey'),
                                            ('key', 'Option<Keypair>'))]
    c.each(r, is_ok, 'signal:user', 'a new Signal user has the given parameters and key and no credential',
           lambda s, o: all(same(s, F(payload(o), 'user', x), v) for x, v in given) and
           same(s, F(payload(o), 'user', 'credential'), NONE) or show(o[1])[:300])
    # Its number is what the bytes of the number convert to, and it is refused exactly when they do not.
    b = arg_of(r, '[u8]')
    for s, o in r.outs:
        if o[0] != 'ret':
            continue
        x = c.run(g, [vref(b) if f.w.types[g.argtypes()[0]]['k'] == 'ref' else b], s)
        for s2, o2 in x.outs:
            if is_ok(o):
                c.ob(is_ok(o2) and same(s2, F(payload(o), 'phone_number'), payload(o2)), 'signal:number',
                     'a new Signal user has the number the given bytes are', f.where, conditions(s2))
            else:
                c.ob(not is_ok(o2), 'signal:refuses', 'a Signal user is refused only for bytes which are no number', f.where,
                     conditions(s2))


PARTS = [keys, lengths, issuers, users]
