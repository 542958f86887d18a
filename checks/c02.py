"""Value-flow analysis of Rerandomization::new and of every function applying one to a tag, on unknown inputs: the
scalar is a draw from the caller's generator, and both parts of the result are the scalar times those of the tag."""
from lib import *


def new(c):
    r = c.run(fn('aeonflux', 'Rerandomization', 'new'))
    c.no_panic(r)

    def t(s, o):
        d = draw_of(F(o[1], 0))
        return bool(d and any(from_arg(d[0], n) for n in r.names)) or show(o[1])
    c.each(r, lambda o: o[0] == 'ret', 'new:fresh', 'the scalar is one fresh draw from the given generator', t)


def apply(c):
    fs = functions('aeonflux', 'Rerandomization', 'apply_to_tag') + functions('aeonflux', None, 'mul', trait='Mul')
    n = 0
    for f in fs:
        w = f.w
        ins = [tyname(w, i) for i in f.item['inputs']]
        if sorted(ins) != ['Rerandomization', 'Tag']:
            continue
        n += 1
        r = c.run(f)
        k, tag = (r.arg(0), r.arg(1)) if ins[0] == 'Rerandomization' else (r.arg(1), r.arg(0))
        c.no_panic(r)
        x = F(k, 0)
        c.each(r, lambda o: o[0] == 'ret', 'apply:%s:%s' % (f.name, '*'.join(ins)),
               'the result is (r*P, r*Q)',
               lambda s, o: same(s, F(o[1], 'nonce'), lmul(x, F(tag, 'nonce'))) and
               same(s, F(o[1], 'mac'), lmul(x, F(tag, 'mac'))))
    c.ob(n >= 3, 'apply:ways', 'there are %d ways of applying a rerandomisation' % n)


PARTS = [new, apply]
