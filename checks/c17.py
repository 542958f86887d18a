"""RosterEntryCommitment::create and open are analysed for every number of every length (0 to 26 one by one, all longer
ones at once) and unknown entries, parameters and randomness: creating must give number*h + opening*g with the opening a
fresh draw which is stored, and opening must succeed exactly when the bytes are an acceptable number and the commitment is
number*h + opening*g. Creating and then opening is also followed as one program."""
from parties import *
from c14 import strip

S = 'signal_credential'


def numbers(c):
    """(name, state, bytes): all byte strings."""
    b = base(E('in', 'number'), 'u8')
    for L in range(0, 27):
        yield State(), sub_of(b, 0, L)
    f = fn(S, 'PhoneNumber', 'try_from_bytes')
    r = c.run(f)
    st = State()
    src = r.arg(0)
    if st.assume(ige(slen(src), I(27)), True):
        yield st, src


def parsed(c, st, bs):
    f = fn(S, 'PhoneNumber', 'try_from_bytes')
    for s, o in c.run(f, [vref(bs)], st).outs:
        if o[0] == 'ret':
            yield s, (F(payload(o), 0) if is_ok(o) else None)


def create(c):
    f = fn(S, 'RosterEntryCommitment', 'create')
    o_ = fn(S, 'RosterEntryCommitment', 'open')
    g, h = params()['g'], params()['h']
    good = 0
    for st, bs in numbers(c):
        for s, m in parsed(c, st, bs):
            s = s.copy()
            r = c.run(f, args_by_type(f, s, {'[u8]': bs, 'SystemParameters': params()}), s)
            c.no_panic(r, 'create')
            if m is None:
                c.each(r, lambda o: o[0] == 'ret', 'create:refuses', 'an unacceptable number is refused',
                       lambda s, o: is_err(o))
                continue
            c.each(r, lambda o: o[0] == 'ret', 'create:accepts', 'every acceptable number gets an entry', lambda s, o: is_ok(o))

            def form(s, o):
                z = strip(F(payload(o), 'opening'))
                d = draw_of(z)
                return bool(d and any(from_arg(d[0], x) for x in r.names)) and \
                    same(s, strip(strip(F(payload(o), 'commitment'))), ladd(lmul(m, h), lmul(z, g))) or show(o[1])[:800]
            c.each(r, is_ok, 'create:form', 'the commitment is number*h + opening*g, with the opening drawn fresh from the '
                   'given generator and stored', form)
            for s2, o2 in r.outs:
                if is_ok(o2):
                    s2 = s2.copy()
                    x = c.run(o_, args_by_type(o_, s2, {'RosterEntryCommitment': payload(o2), '[u8]': bs,
                                                        'SystemParameters': params()}), s2)
                    c.no_panic(x, 'open')
                    c.each(x, lambda o: True, 'opens', 'a new entry opens to its number', lambda s, o: is_ok(o))
                    good += 1
    c.ob(good >= 26, 'create:lengths', 'entries are made for numbers of all lengths from 1 to 26', f.where)


def open_(c):
    f = fn(S, 'RosterEntryCommitment', 'open')
    g, h = params()['g'], params()['h']
    C, z = point('commitment'), scalar('opening')
    t = ty(S, '::RosterEntryCommitment')
    e = make(f.w, t, {'commitment': wrap(f.w, t, 'commitment', C), 'opening': wrap(f.w, t, 'opening', z)})
    n = 0
    for st, bs in numbers(c):
        for s, m in parsed(c, st, bs):
            s = s.copy()
            r = c.run(f, args_by_type(f, s, {'[u8]': bs, 'RosterEntryCommitment': e, 'SystemParameters': params()}), s)
            c.no_panic(r, 'open')
            if m is None:
                c.each(r, lambda o: o[0] == 'ret', 'open:number', 'nothing opens to an unacceptable number',
                       lambda s, o: is_err(o))
                continue
            n += 1
            c.exactly_when(r, [(leq(C, ladd(lmul(m, h), lmul(z, g))), True, 'the commitment is number*h + opening*g')],
                           'open', '')
    c.ob(n >= 26, 'open:lengths', 'numbers of all lengths from 1 to 26 can be opened', f.where)


def wrap(w, t, field, v):
    """A value inside the newtypes a field has."""
    k = [f for f in w.types[t]['variants'][0]['fields'] if f['name'] == field][0]['ty']

    def go(k):
        d = w.types[k]
        if d['k'] == 'adt' and d['adt'] == 'struct' and len(d['variants'][0]['fields']) == 1 and not basic(d['path']):
            return adt(d['path'], 0, [go(d['variants'][0]['fields'][0]['ty'])])
        return v
    return go(k)


def basic(p):
    return p.startswith('curve25519_dalek::')


def committed(c):
    """CommittedPhoneNumber on its own."""
    f = fn(S, 'CommittedPhoneNumber', 'from_phone_number')
    r = c.run(f)
    c.no_panic(r)
    v = {n: strip(r.arg(i)) for i, n in enumerate(r.names)}
    num, z = [strip(r.arg(i)) for i, t in enumerate(f.argtypes()) if tyname(f.w, t) in ('PhoneNumber', 'Ephemeral')]
    c.each(r, lambda o: o[0] == 'ret', 'commit', 'committing to a number gives number*h + nonce*g',
           lambda s, o: same(s, strip(strip(o[1])), ladd(lmul(num, v['h']), lmul(z, v['g']))) or show(o[1]))
    f = fn(S, 'CommittedPhoneNumber', 'open')
    r = c.run(f)
    c.no_panic(r)
    v = {n: strip(r.arg(i)) for i, n in enumerate(r.names)}
    me, num, z = [strip(r.arg(i)) for i, t in enumerate(f.argtypes())
                  if tyname(f.w, t) in ('CommittedPhoneNumber', 'PhoneNumber', 'Ephemeral')]
    me = strip(me)
    c.exactly_when(r, [(leq(me, ladd(lmul(num, v['h']), lmul(z, v['g']))), True, 'the commitment is number*h + nonce*g')],
                   'commit:open', '')


PARTS = [create, open_, committed]
