"""Every exported function of the C interface is analysed on unknown pointers, lengths and bytes, through the decoders
and the whole library: no path may end in a panic. Each path on which a pointer may be null or a length zero must end in
the failure value."""
from ffi import *


def calls(c):
    n = 0
    for f in exported():
        x = Call(c, f)
        c.no_panic(x.r)
        u = sorted({str(e[1]) for s, o in x.r.outs for e in s.ev if e[0] == 'unknown'})
        c.ob(not u, f.name + ':known', 'everything %s calls is known not to panic' % f.name, f.where, ', '.join(u))
        if f.name == 'buf_free':
            continue
        n += 1
        for i, (p, m) in enumerate(x.buffers):
            bad = None
            for s, o in x.r.outs:
                if o[0] == 'ret' and not failure(o[1]):
                    if s.decide(isnull(p)) is not False:
                        bad = (s, 'null')
                    elif m is not None and not holds(s, ieq(m, I(0)), False):
                        bad = (s, 'empty')
            c.ob(not bad, '%s:argument %d' % (f.name, i + 1), '%s fails if its argument %d is null or empty' % (f.name, i + 1),
                 f.where, '%s\n%s' % (bad[1], conditions(bad[0])) if bad else '')
    c.ob(n >= 12, 'functions', '%d functions were examined' % n)
    c.floor = 50


PARTS = [calls]
