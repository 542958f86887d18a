"""PhoneNumber::try_from_bytes and try_from_string are analysed for every length from 0 to 26 with unknown characters, and
for all longer inputs at once: they must succeed exactly for 1 to 26 (digit) characters, with the scalar of the documented
32 bytes, the last of which is below 16 so that reducing modulo the group order changes nothing; as the count is the last
non-zero byte and the digits stand at fixed places, the bytes determine the number. Parsing followed by conversion to a
string is analysed as one program for every length and must give the string back."""
from lib import *
from models import scalar_of

MAX = 26


def encoding(L, digit):
    return lit(*([I(15), I(15)] + [digit(i) for i in range(L)] + [I(15), I(15), I(L)] + [I(0)] * (27 - L)))


def source(f, L):
    t = tyname(f.w, f.argtypes()[0])
    b = base(E('in', 'source'), 'u8')
    v = sub_of(b, 0, L) if L is not None else sub_of(b, 0, E_len())
    return v, (lambda i: element(b, I(i)))


def one(c, name, text):
    f = fn('signal_credential', 'PhoneNumber', name)
    # Too long, of any length.
    r0 = c.run(f)
    src = r0.arg(0)
    st = State()
    n = slen(src)
    c.ob(st.assume(ige(n, I(MAX + 1)), True), name + ':long', 'inputs may be too long')
    r = c.run(f, list(r0.args), st)
    c.no_panic(r, name)
    c.each(r, lambda o: o[0] == 'ret', name + ':long', 'more than %d characters are refused' % MAX,
           lambda s, o: is_err(o) or show(o[1]))
    for L in range(0, MAX + 1):
        b = base(E('in', 'source'), 'u8')
        digits = [element(b, I(i)) for i in range(L)]
        r = c.run(f, [vref(sub_of(b, 0, L))])
        c.no_panic(r, name)
        ok = [(s, o) for s, o in r.outs if is_ok(o)]
        if L == 0:
            c.ob(not ok, name + ':empty', 'the empty input is refused', f.where)
            continue
        conds = []
        if text:
            for d in digits:
                conds += [(ige(d, I(48)), True, 'is a digit'), (ige(I(57), d), True, 'is a digit')]
        c.exactly_when(r, conds, name, 'the characters are digits')
        want = encoding(L, lambda i: isub(digits[i], I(48)) if text else digits[i])
        c.ob(ok, name + ':accepts', 'inputs of %d characters are accepted' % L, f.where)
        for s, o in ok:
            v = payload(o)
            c.ob(v.t == 'adt' and same(s, F(v, 0), scalar_of(want)), name + ':encoding',
                 'the scalar of %d characters is the one of the bytes 15, 15, digits, 15, 15, count, 0...' % L, f.where,
                 show(v)[:1000])



def bytes_(c):
    one(c, 'try_from_bytes', False)


def string(c):
    one(c, 'try_from_string', True)


def round_trip(c):
    f = fn('signal_credential', 'PhoneNumber', 'try_from_string')
    gs = functions('signal_credential', 'String', 'from', trait='From', inputs=['PhoneNumber'])
    if len(gs) != 1:
        raise Missing('the conversion of a phone number to a string')
    g = gs[0]
    for L in range(1, MAX + 1):
        b = base(E('in', 'source'), 'u8')
        src = sub_of(b, 0, L)
        r = c.run(f, [vref(src)])
        n = 0
        for s, o in r.outs:
            if not is_ok(o):
                continue
            s = s.copy()
            x = c.run(g, [payload(o)], s)
            c.no_panic(x, 'back')
            for s2, o2 in x.outs:
                if o2[0] == 'ret':
                    n += 1
                    c.ob(same(s2, o2[1], src), 'round-trip', 'a parsed number of %d digits converts back to its string' % L,
                         g.where, show(o2[1])[:600] + '\n' + conditions(s2))
        c.ob(n, 'round-trip:reached', 'conversion of %d digits is reached' % L, g.where)


def as_message(c):
    gs = functions('signal_credential', 'Message', 'from', trait='From', inputs=['PhoneNumber'])
    c.ob(len(gs) == 1, 'message', 'phone numbers convert to messages')
    for g in gs:
        r = c.run(g)
        c.no_panic(r)
        pn = r.arg(0)
        c.each(r, lambda o: o[0] == 'ret', 'message', 'a number\'s message is the one attribute that is its scalar',
               lambda s, o: same(s, F(o[1], 0), lit(F(pn, 0))) or show(o[1]))


PARTS = [bytes_, string, round_trip, as_message]
