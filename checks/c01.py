"""Value-flow analysis of SecretKey::mac and SecretKey::verify for an unknown key, message and pair of every length:
every way they end is derived with its path condition (loops over the attributes by summarised sums), and compared with
the equation, as polynomials in the unknown scalars; no values are tried."""
from lib import *


def spec(run, key, msg):
    xn, m = F(key, 'xn'), F(msg, 0)
    n = slen(xn)
    v = padd(F(key, 'x0'), msum(n, lambda i: pmul(at(xn, i), at(m, i))))
    return n, slen(m), v


def create(c):
    r = c.run(fn('aeonflux', 'SecretKey', 'mac', module='amacs'))
    key, msg = r.arg(0), r.arg(2) if r.names[1] == 'csprng' else r.arg(1)
    rng = [n for n in r.names if n not in ('self', 'message')]
    n, l, v = spec(r, key, msg)
    c.no_panic(r)
    c.exactly_when(r, [(ieq(n, l), True, 'the message has as many attributes as the key')], 'mac',
                   'the message has as many attributes as the key')

    def nonce(s, o):
        k = multiple_of(F(payload(o), 'nonce'), G)
        d = k is not None and draw_of(k)
        return bool(d and any(from_arg(d[0], x) for x in rng)) or 'P = %s' % show(F(payload(o), 'nonce'))
    c.each(r, is_ok, 'mac:nonce', 'P is one fresh draw from the given generator times the basepoint', nonce)
    c.each(r, is_ok, 'mac:equation', 'Q = (x0 + sum xi*mi)*P',
           lambda s, o: same(s, F(payload(o), 'mac'), lmul(s.norm(v), F(payload(o), 'nonce'))) or
           'expected %s' % show(lmul(s.norm(v), F(payload(o), 'nonce'))))


def verify(c):
    r = c.run(fn('aeonflux', 'SecretKey', 'verify', module='amacs'))
    by = dict(zip(r.names, range(9)))
    key, tag, msg = r.arg(0), None, None
    for i in range(1, len(r.args)):
        v = r.arg(i)
        if v.a[0].endswith('Tag'):
            tag = v
        else:
            msg = v
    n, l, v = spec(r, key, msg)
    P, Q = F(tag, 'nonce'), F(tag, 'mac')
    c.no_panic(r)
    c.exactly_when(r, [(leq(P, IDENT), False, 'P is not the identity'),
                       (ieq(n, l), True, 'the message has as many attributes as the key'),
                       (leq(Q, lmul(v, P)), True, 'Q = (x0 + sum xi*mi)*P')], 'verify', '')


PARTS = [create, verify]
