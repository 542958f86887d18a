"""Proof::verify of each proof system on an unknown proof, unknown public values and an unknown transcript: the ways it
ends with success and with failure are exactly separated by equality of the proof's challenge with the one squeezed from
the transcript into which, for each declared equation, the sum of the bases times their witnesses' responses minus the
challenge times the public value went."""
from nipk import *
from c11 import derive, proof_of


def one(c, y):
    sec, pub = unknown(y)
    st = State()
    proof = proof_of(y)
    t = mutable(st, 'transcript', T0)
    r = c.run(y.verify, args(y.verify, st, self=proof, transcript=t, publics=pub), st)
    c.no_panic(r)
    f = y.verify
    ch = F(proof, 'challenge')
    resp = {w: F(proof, 'responses', w) for w in y.secrets}
    com = {e: lsub(combination(t, pub, resp), lmul(ch, pub[e])) for e, t in y.eqs.items()}
    found = set()
    for s, o in r.outs:
        for k, _, _, _ in s.conds:
            found |= {x for x in subterms(k) if x.t == 'pa' and x.a[0].t == 'e' and x.a[0].a[0] == 'wide'}
    if not c.ob(len(found) == 1, y.name + ':one', 'one challenge is recomputed', f.where, repr([show(x)[:200] for x in found])):
        return
    x = mk('poly', ((((found.pop(), 1),), 1),))
    w = wide_challenge(x)
    if not c.ob(w, y.name + ':whole', 'the whole challenge is used', f.where, show(x)):
        return
    datas = [d for _, _, d in chain(w[0])[1]]
    for e in com:
        c.ob(point_bytes(com[e]) in datas, '%s:equation:%s' % (y.name, e),
             'the commitment recomputed for %s is %s - challenge*%s' %
             (e, ' + '.join('%s*response(%s)' % t for t in y.eqs[e]), e), f.where,
             'expected the encoding of %s' % show(com[e])[:1500])
    n = sum(1 for d in datas if text(d) is None)
    c.exactly_when(r, [(peq(ch, x), True, 'the proof\'s challenge equals the recomputed one')], y.name + ':accept', '')


def systems_(c):
    for y in systems():
        one(c, y)
    c.floor = 5 * 4 + 14


PARTS = [systems_]
