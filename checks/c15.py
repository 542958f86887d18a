"""Value-flow analysis of the ElGamal functions on unknown keys, messages and nonces: key derivation, the form of a
ciphertext, and encryption (or the sum of two) followed by decryption as one program, compared as linear combinations."""
from lib import *
from c14 import strip


def keys(c):
    n = 0
    for f in functions('aeonflux', 'Keypair', 'generate', module='elgamal'):
        n += 1
        r = c.run(f)
        c.no_panic(r)

        def t(s, o):
            k = strip(F(o[1], 'secret'))
            d = draw_of(k)
            return bool(d and any(from_arg(d[0], x) for x in r.names)) and same(s, strip(F(o[1], 'public')), lmul(k, G))
        c.each(r, lambda o: o[0] == 'ret', 'generate', 'the secret is a fresh draw and the public key the secret times the '
               'basepoint', t)
    for f in functions('aeonflux', 'SecretKey', 'generate', module='elgamal'):
        n += 1
        r = c.run(f)
        c.no_panic(r)

        def t(s, o):
            d = draw_of(strip(o[1]))
            return bool(d and any(from_arg(d[0], x) for x in r.names))
        c.each(r, lambda o: o[0] == 'ret', 'generate:secret', 'the secret is a fresh draw', t)
    for f in functions('aeonflux', 'PublicKey', 'from', trait='From', inputs=['SecretKey']):
        n += 1
        r = c.run(f)
        c.no_panic(r)
        k = strip(r.arg(0))
        c.each(r, lambda o: o[0] == 'ret', 'derive', 'the public key derived from a secret is the secret times the basepoint',
               lambda s, o: same(s, strip(o[1]), lmul(k, G)))
    c.ob(n == 3, 'keys', 'key generation and derivation were found')


def parts(w, i):
    while w.types[i]['k'] == 'ref':
        i = w.types[i]['to']
    return i


def encryption(c):
    pk = fn('aeonflux', 'PublicKey', 'encrypt', module='elgamal')
    kp = fn('aeonflux', 'Keypair', 'encrypt', module='elgamal')
    dec = fn('aeonflux', 'SecretKey', 'decrypt', module='elgamal')
    add = [f for f in functions('aeonflux', None, 'add', trait='Add') if [tyname(f.w, i) for i in f.item['inputs']] ==
           ['Encryption', 'Encryption']]
    w = pk.w
    k, m, z = scalar('key'), point('message'), scalar('nonce')
    el = 'aeonflux::elgamal::'
    sk = adt(el + 'SecretKey', 0, [k])
    pub = adt(el + 'PublicKey', 0, [lmul(k, G)])
    pair = make(w, ty_of(w, el + 'Keypair'), {'secret': sk, 'public': pub})
    msg = lambda x: adt(el + 'Message', 0, [x])
    eph = lambda f, x: adt('aeonflux::nonces::Ephemeral', 0, [x])
    for f, me in ((pk, pub), (kp, pair)):
        st = State()
        own = tyname(w, f.argtypes()[0])
        r = c.run(f, args_by_type(f, st, {own: me, 'Message': msg(m), 'Ephemeral': eph(f, z)}), st)
        c.no_panic(r)
        c.each(r, lambda o: o[0] == 'ret', '%s:form' % own, 'a ciphertext is (nonce*basepoint, message + nonce*public key)',
               lambda s, o: same(s, F(o[1], 'commitment'), lmul(z, G)) and
               same(s, F(o[1], 'encryption'), ladd(m, lmul(z, lmul(k, G)))) or show(o[1]))
        for s, o in r.outs:
            if o[0] != 'ret':
                continue
            s = s.copy()
            x = c.run(dec, args_by_type(dec, s, {'SecretKey': sk, 'Encryption': o[1]}), s)
            c.no_panic(x)
            c.each(x, lambda o: True, '%s:decrypts' % own, 'decrypting gives the message',
                   lambda s, o: o[0] == 'ret' and same(s, strip(o[1]), m) or show(o[1]))
    for f in add:
        st = State()
        m2, z2 = point('message2'), scalar('nonce2')
        ct = lambda m, z: make(w, ty_of(w, el + 'Encryption'),
                               {'commitment': lmul(z, G), 'encryption': ladd(m, lmul(z, lmul(k, G)))})
        r = c.run(f, [vref(ct(m, z)) if w.types[f.argtypes()[0]]['k'] == 'ref' else ct(m, z),
                      vref(ct(m2, z2)) if w.types[f.argtypes()[1]]['k'] == 'ref' else ct(m2, z2)], st)
        c.no_panic(r)
        for s, o in r.outs:
            if o[0] != 'ret':
                continue
            s = s.copy()
            x = c.run(dec, args_by_type(dec, s, {'SecretKey': sk, 'Encryption': o[1]}), s)
            c.each(x, lambda o: True, 'sum', 'the sum of two ciphertexts decrypts to the sum of their messages',
                   lambda s, o: o[0] == 'ret' and same(s, strip(o[1]), ladd(m, m2)) or show(o[1]))
        u = c.run(f)
        a, b = u.arg(0), u.arg(1)
        c.each(u, lambda o: o[0] == 'ret', 'sum:form', 'adding ciphertexts adds their parts',
               lambda s, o: same(s, F(o[1], 'commitment'), ladd(F(a, 'commitment'), F(b, 'commitment'))) and
               same(s, F(o[1], 'encryption'), ladd(F(a, 'encryption'), F(b, 'encryption'))))
    c.ob(len(add) >= 1, 'sum:exists', 'ciphertexts can be added')
    n = 0
    for f in functions('aeonflux', 'Message', 'from', trait='From', inputs=['Scalar'], module='elgamal'):
        n += 1
        r = c.run(f)
        c.no_panic(r)
        x = r.arg(0)
        c.each(r, lambda o: o[0] == 'ret', 'message', 'a scalar\'s message is the scalar times the basepoint',
               lambda s, o: same(s, strip(o[1]), lmul(x, G)))
    c.ob(n == 1, 'message:exists', 'scalars convert to messages')


def ty_of(w, path):
    for i, d in enumerate(w.types):
        if d['k'] == 'adt' and d['path'] == path:
            return i
    raise Missing(path)


PARTS = [keys, encryption]
