"""Ownership across the C interface, from the events of the analysis of each exported function: reads of raw pointers with
their lengths, boxes given up and taken back. What is returned is either the failure value, or the pointer of a box of
initialised bytes given up on that path, with the length of that box; no argument is read before it is known not to be
null, nor beyond its length (32 for a seed); releasing takes back exactly the memory of the given pointer and length, in the
form it was given up in, once, and only if it is not null."""
from ffi import *


def reads(c, x):
    f = x.f
    bad = []
    n = 0
    for s, o in x.r.outs:
        for e in s.ev:
            if e[0] == 'reads':
                n += 1
                p, m, checked = e[1], s.norm(e[2]), e[3]
                lim = x.length(p)
                if checked is not TRUE:
                    bad.append(('a pointer which may be null is read', s))
                elif lim is None:
                    bad.append(('a pointer which is no argument is read', s))
                elif not holds(s, ige(s.norm(lim), m)):
                    bad.append(('%s bytes of %s are read' % (show(m), show(p)), s))
            elif e[0] == 'derefs':
                n += 1
                p = e[1]
                lim = x.length(p)
                if e[2] is not TRUE or lim is None or not holds(s, ige(s.norm(lim), I(1))):
                    bad.append(('a pointer is dereferenced which may be null or empty', s))
            elif e[0] == 'writes':
                bad.append(('an argument is written to', s))
            elif e[0] == 'writable' and s.norm(s.mem[e[2]]) is not s.norm(e[3]):
                bad.append(('an argument is written to', s))
            elif e[0] == 'unknown':
                bad.append(('what %s does with memory is not known' % (e[1],), s))
    c.ob(not bad, f.name + ':reads', '%s reads only within its arguments, if they are not null' % f.name, f.where,
         '%s\n%s' % (bad[0][0], conditions(bad[0][1])) if bad else '')
    c.ob(n, f.name + ':read', '%s reads its arguments' % f.name, f.where)


def initialised(v):
    return all(not (g[0] == 'lit' and any(y.t in ('undef', 'dangling') for y in g[1])) for g in v.a[0])


def results(c, x):
    f = x.f
    bad = []
    n = 0
    for s, o in x.r.outs:
        if o[0] != 'ret':
            continue
        n += 1
        m, p = buffer(o[1])
        if p.t == 'null':
            few = (0, 1) if f.name == 'roster_entry_commitment_open' else (0,)
            if iconst(m) not in few:
                bad.append(('a null pointer with the length ' + show(m), s))
            if [e for e in s.ev if e[0] in ('into_raw', 'forgotten')]:
                bad.append(('memory is given up, but not to the caller', s))
            continue
        row = given_up(f.w, s, p)
        if isinstance(row, str):
            bad.append((row, s))
            continue
        if not same(s, m, slen(row)):
            bad.append(('the length %s is returned of memory of %s bytes' % (show(m), show(slen(row))), s))
        if not initialised(row):
            bad.append(('not all of the memory was initialised', s))
        if [e for e in s.ev if e[0] == 'from_raw']:
            bad.append(('memory is taken back', s))
    c.ob(not bad, f.name + ':result', '%s returns the failure value, or memory of that length which the caller owns' % f.name,
         f.where, '%s\n%s' % (bad[0][0], conditions(bad[0][1])) if bad else '')
    c.ob(n, f.name + ':returns', '%s returns' % f.name, f.where)


def calls(c):
    n = 0
    for f in exported():
        if f.name == 'buf_free':
            continue
        x = Call(c, f)
        reads(c, x)
        results(c, x)
        n += 1
    c.ob(n >= 12, 'functions', '%d functions were examined' % n)


def release(c):
    f = [f for f in exported() if f.name == 'buf_free'][0]
    r = c.run(f)
    n, p = buffer(r.args[0])
    seen = set()
    for s, o in r.outs:
        if o[0] != 'ret':
            c.ob(False, 'buf_free:returns', 'buf_free returns', f.where, '%s\n%s' % (o[1], conditions(s)))
            continue
        null = s.decide(isnull(p))
        taken = [e for e in s.ev if e[0] == 'from_raw']
        c.ob(null is not None, 'buf_free:null', 'buf_free distinguishes null pointers', f.where, conditions(s))
        seen.add(null)
        if null:
            c.ob(not taken and not [e for e in s.ev if e[0] in ('reads', 'derefs')], 'buf_free:null:nothing',
                 'releasing a null pointer does nothing', f.where)
            continue
        row = r.ip.deref(s, taken[0][1]) if taken and taken[0][1].t == 'ref' else None
        good = len(taken) == 1 and row is not None and row.t == 'seq' and same(s, row, mem(p, n))
        c.ob(good, 'buf_free:takes', 'releasing takes back the box of exactly that length, once', f.where,
             '\n'.join(show(x) if isinstance(x, N) else str(x) for e in taken for x in e) + conditions(s))
        freed = [e for e in s.ev if (e[0] == 'dropped' and boxed(f.w, e[2]) or e[0] == 'drop' and boxed(f.w, e[4]))
                 and isinstance(e[1], N) and row is not None and s.norm(e[1]) is s.norm(row)]
        c.ob(len(freed) == 1, 'buf_free:frees', 'the box taken back is dropped, once', f.where, str(freed)[:500])
        c.ob(not [e for e in s.ev if e[0] == 'forgotten'], 'buf_free:forgets', 'the box is not forgotten', f.where)
    c.ob(seen == {True, False}, 'buf_free:both', 'buf_free was analysed on null and other pointers', f.where)
    c.floor = 50


PARTS = [calls, release]
