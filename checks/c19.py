"""Every decoder of the two crates is followed by its encoder, as one program, on an unknown byte string of unknown
length: wherever decoding succeeds, the bytes encoded must be the input."""
from codec import *


def canonical(c):
    n = 0
    for crate, name, d, e in codecs(c):
        if d is None:
            continue
        if e is None:
            c.ob(False, name + ':encoder', 'there is an encoder for %s' % name, d.where)
            continue
        r = c.run(d)
        src = r.arg(0)
        ok = 0
        for s, o in r.outs:
            if not is_ok(o):
                continue
            ok += 1
            s = s.copy()
            v = payload(o)
            x = c.run(e, [vref(v)], s)
            for s2, o2 in x.outs:
                n += 1
                if o2[0] != 'ret':
                    c.ob(False, name + ':encodes', 'what was decoded can be encoded: %s' % name, e.where, conditions(s2))
                    continue
                c.ob(same(s2, o2[1], src), name, 'decoding a %s accepts only its canonical encoding' % name, d.where,
                     'encoded again: %s\ninput: %s\n%s' % (show(s2.norm(o2[1]))[:1500], show(s2.norm(src))[:300], conditions(s2)))
        c.ob(ok, name + ':decodes', 'decoding a %s can succeed' % name, d.where)
    c.floor = 40


PARTS = [canonical]
