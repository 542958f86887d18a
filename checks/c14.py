"""Value-flow analysis of the Pedersen commitment operations on unknown values: the commitment is value + nonce*base,
opening succeeds exactly when the commitment equals that, and conversions, scaling and subtraction are linear
combinations of the committed group element alone."""
from lib import *


def strip(v):
    while v.t == 'adt' and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def by_type(r):
    d = {}
    for i, t in enumerate(r.f.argtypes()):
        d.setdefault(tyname(r.f.w, t), []).append(strip(r.arg(i)))
    return d


def to(c):
    f = fn('aeonflux', 'Commitment', 'to')
    r = c.run(f)
    c.no_panic(r)
    d = by_type(r)
    v, b = d['RistrettoPoint']
    z = d['Ephemeral'][0]
    c.each(r, lambda o: o[0] == 'ret', 'to', 'the commitment is value + nonce*base',
           lambda s, o: same(s, strip(o[1]), ladd(v, lmul(z, b))) or show(o[1]))


def open_(c):
    f = fn('aeonflux', 'Commitment', 'open')
    r = c.run(f)
    c.no_panic(r)
    d = by_type(r)
    v, b = d['RistrettoPoint']
    z, C = d['Ephemeral'][0], d['Commitment'][0]
    c.exactly_when(r, [(leq(C, ladd(v, lmul(z, b))), True, 'the commitment equals value + nonce*base')], 'open', '')


def operations(c):
    n = 0
    for it in world('aeonflux').items:
        if it['inst'] is None or '::pedersen::' not in '::' + it['path'].replace('<', '').replace('aeonflux', ''):
            continue
        t = (it.get('trait') or '').split('::')[-1]
        f = Fn(world('aeonflux'), it)
        ins = [tyname(f.w, i) for i in it['inputs']]
        if 'Commitment' not in ins:
            continue
        if t == 'From':
            r = c.run(f)
            n += 1
            x = strip(r.arg(0))
            c.each(r, lambda o: o[0] == 'ret', 'from:%s' % ins[0], 'conversion gives the committed element',
                   lambda s, o: same(s, strip(o[1]), x))
        elif t == 'Mul' and sorted(ins) == ['Commitment', 'Scalar']:
            r = c.run(f)
            n += 1
            d = by_type(r)
            want = lmul(d['Scalar'][0], d['Commitment'][0])
            c.each(r, lambda o: o[0] == 'ret', 'mul:%s' % '*'.join(ins), 'scaling scales the committed element',
                   lambda s, o: same(s, strip(o[1]), want))
        elif t in ('SubAssign', 'AddAssign') and ins[1] == 'Commitment':
            st = State()
            x, y = point('left'), point('right')
            me = mutable(st, 'left', x if ins[0] == 'RistrettoPoint' else adt('aeonflux::pedersen::Commitment', 0, [x]))
            a = args_by_type(f, st, {'Commitment': adt('aeonflux::pedersen::Commitment', 0, [y])}) \
                if ins[0] != 'Commitment' else [None, adt('aeonflux::pedersen::Commitment', 0, [y])]
            a[0] = me
            r = c.run(f, a, st)
            n += 1
            want = lsub(x, y) if t == 'SubAssign' else ladd(x, y)
            c.each(r, lambda o: o[0] == 'ret', t, '%s acts on the committed element' % t,
                   lambda s, o: same(s, strip(read(s, 'left')), want) or show(read(s, 'left')))
        else:
            continue
        c.no_panic(r, f.name + ':' + '*'.join(ins))
    c.ob(n >= 4, 'operations', '%d operations on commitments were examined' % n)


PARTS = [to, open_, operations]
