"""Value-flow analysis, on unknown values (rows of any length), of every operator on nonces, every conversion between
nonces, keys, messages, numbers and ciphertexts, and every indexing function: each result must be the named combination of
the operand's scalars or group elements, unchanged, and indexing must give the element at the index and panic only past
the end. Which functions these are is taken from the traits they implement, so a new one is examined too."""
from lib import *
from c14 import strip
from c15 import ty_of
from models import consume, scalar_bytes

E_ = 'aeonflux::elgamal::'


def rets(o):
    return o[0] == 'ret'


def nonces(c):
    """Nonces act as their scalars."""
    n = 0
    w = world('aeonflux')
    for it in w.items:
        if it['inst'] is None or (it.get('trait') or '').split('::')[-1] not in ('Mul', 'Neg', 'Add', 'Sub'):
            continue
        f = Fn(w, it)
        ins = [tyname(w, i) for i in it['inputs']]
        if 'Ephemeral' not in ins:
            continue
        r = c.run(f)
        n += 1
        key = 'nonces:%s:%s' % (f.name, '*'.join(ins))
        vals = [strip(r.arg(i)) for i in range(len(ins))]
        c.no_panic(r, key)
        if f.name == 'neg':
            want = pneg(vals[0])
        elif f.name == 'mul':
            z = vals[ins.index('Ephemeral')]
            x = vals[1 - ins.index('Ephemeral')]
            want = pmul(z, x) if x.t == 'poly' else lmul(z, x)
        else:
            want = padd(vals[0], vals[1] if f.name == 'add' else pneg(vals[1]))
        c.each(r, rets, key, 'a nonce acts as its scalar', lambda s, o: same(s, strip(o[1]), want) or show(o[1]))
    c.ob(n >= 11, 'nonces', '%d operations on nonces were examined' % n)


def conversions(c):
    """What each conversion must give, by the names of the types; other conversions must keep the contents."""
    known = {('Scalar', 'Message@elgamal'): lambda x: lmul(x, G),
             ('SecretKey', 'PublicKey'): lambda x: lmul(x, G),
             ('Scalar', 'Message@amacs'): lambda x: lit(x),
             ('Vec<Scalar>', 'Message@amacs'): lambda x: x,
             ('String', 'Message@amacs'): lambda x: lit(patom(E('hash', x))),
             ('PhoneNumber', 'Message@amacs'): lambda x: lit(x),
             ('EncryptedPhoneNumber', 'Vec<Encryption>'): lambda x: lit(x)}
    n = 0
    for crate in ('aeonflux', 'signal_credential'):
        w = world(crate)
        for it in w.items:
            if it['inst'] is None or (it.get('trait') or '').split('::')[-1] != 'From':
                continue
            f = Fn(w, it)
            a, b = tyname(w, it['inputs'][0]), self_name(w, it)
            if b in ('MacError', 'CredentialError', 'PhoneNumberError', 'SystemParameters') or \
                    (crate, a, b) == ('signal_credential', 'PhoneNumber', 'String'):
                continue          # errors; system parameters: C28; digits: C16
            if b == 'Message':
                b += '@' + w.types[it['output']]['path'].split('::')[-2]
            r = c.run(f)
            n += 1
            c.no_panic(r, 'from:%s:%s' % (a, b))
            x = r.arg(0)
            want = known.get((a, b), lambda x: x)(strip(x) if a != 'EncryptedPhoneNumber' else F(x, 0))
            c.each(r, rets, 'from:%s:%s' % (a, b), 'converting a %s to a %s gives what it stands for' % (a, b),
                   lambda s, o: same(s, strip(ipd(r, s, o[1])), strip(want)) or show(o[1])[:300])
    c.ob(n >= 11, 'conversions', '%d conversions were examined' % n)


def indexing(c):
    n = 0
    for crate in ('aeonflux', 'signal_credential'):
        for f in functions(crate, None, 'index', trait='Index'):
            r = c.run(f)
            n += 1
            own = self_name(f.w, f.item)
            i = r.arg(1)
            x = strip(r.arg(0))
            if x.t == 'poly':
                x = scalar_bytes(x)
            for s, o in r.outs:
                if rets(o):
                    y = ipd(r, s, o[1])
                    c.ob(holds(s, ilt(i, slen(x))) and same(s, y, seq_index(s.facts, x, i)), 'index:' + own,
                         'indexing a %s gives the element at the index' % own, f.where, show(y)[:200] + conditions(s))
                else:
                    c.ob(holds(s, ilt(i, slen(x)), False), 'index:%s:panic' % own,
                         'indexing a %s panics only past its end' % own, f.where, conditions(s))
    c.ob(n >= 3, 'indexing', '%d indexing functions were examined' % n)


def ipd(r, s, v):
    while v.t in ('ref', 'symref', 'vref'):
        v = r.ip.deref(s, v)
    return v


def iterating(c):
    f = fn('aeonflux', 'Nonces', 'iter')
    r = c.run(f)
    c.no_panic(r)
    x = strip(r.arg(0))
    c.each(r, rets, 'iter', 'iterating over nonces gives each of them in order',
           lambda s, o: all(o2[0] == 'done' and same(s2, o2[1], x) for s2, o2 in items(r.ip, s, o[1])) or show(o[1])[:300])


def items(ip, s, it):
    """What an iterator gives, as a row."""
    site = ('check', '')
    return consume(ip, s.copy(), it, EMPTY, lambda s, acc, x: [(s, ('next', cat(acc, lit(ip.deref(s, x)))))], site)


def encryption(c):
    f = fn('signal_credential', 'PhoneNumber', 'encrypt')
    st = State()
    k, m, z, p = scalar('key'), scalar('number'), scalar('nonce'), point('public')
    w = f.w
    pair = make(w, ty_of(w, E_ + 'Keypair'), {'secret': adt(E_ + 'SecretKey', 0, [k]), 'public': adt(E_ + 'PublicKey', 0, [p])})
    r = c.run(f, args_by_type(f, st, {'PhoneNumber': adt('signal_credential::phone_number::PhoneNumber', 0, [m]),
                                      'Keypair': pair, 'Ephemeral': adt('aeonflux::nonces::Ephemeral', 0, [z])}), st)
    c.no_panic(r)
    c.each(r, rets, 'number', 'an encrypted phone number is (nonce*basepoint, number*basepoint + nonce*public key)',
           lambda s, o: same(s, F(o[1], 0, 'commitment'), lmul(z, G)) and
           same(s, F(o[1], 0, 'encryption'), ladd(lmul(m, G), lmul(z, p))) or show(o[1])[:300])


PARTS = [nonces, conversions, indexing, iterating, encryption]
