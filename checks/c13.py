"""Proof::create of each proof system on unknown secrets and public values: each response is shown to be challenge times
secret plus one draw, the generators of the draws are traced to a fork of the transcript of the whole statement, keyed
with every secret and reseeded from the operating system, the draws must be pairwise different, and everything else which
depends on secrets or draws must be one of the declared commitments."""
from nipk import *


def one(c, y):
    sec, pub = unknown(y)
    r = run_create(c, y, sec, pub)
    c.no_panic(r)
    f = y.create
    n = 0
    for s, o in r.outs:
        if o[0] != 'ret':
            continue
        n += 1
        ch, resp = F(o[1], 'challenge'), F(o[1], 'responses')
        rho, gens = {}, {}
        for w in y.secrets:
            x = psub(F(resp, w), pmul(ch, sec[w]))
            d = draw_of(x)
            c.ob(d, '%s:response:%s' % (y.name, w), 'the response for %s is challenge*secret + one draw' % w, f.where,
                 show(F(resp, w))[:1000])
            if d:
                rho[w] = x
                gens[w] = d
        c.ob(len(set(gens.values())) == len(y.secrets), y.name + ':distinct',
             'every secret of %s has a draw of its own' % y.name, f.where, repr({w: show(d[1]) for w, d in gens.items()}))
        for w, (g, k) in gens.items():
            ok_ = g.t == 'e' and g.a[0] == 'trng' and g.a[1].t == 'fork'
            if not c.ob(ok_, '%s:generator:%s' % (y.name, w), 'the blinding of %s comes from a transcript generator' % w,
                        f.where, show(g)[:500]):
                continue
            fork, seed = g.a[1], g.a[2]
            c.ob(seed.t == 'e' and seed.a[0] == 'seed' and seed.a[1] is E('os'), '%s:reseeded:%s' % (y.name, w),
                 'this generator is reseeded from the operating system', f.where, show(seed)[:300])
            root, ops = chain(fork.a[0])
            datas = [d for _, _, d in ops]
            c.ob(root is T0 and all(point_bytes(pub[p]) in datas for p in y.publics), '%s:statement:%s' % (y.name, w),
                 'this generator depends on the whole statement', f.where, repr([text(l) for _, l, _ in ops]))
            keyed = [d for _, d in fork.a[1]]
            miss = [z for z in y.secrets if scalar_bytes(sec[z]) not in keyed]
            c.ob(not miss, '%s:keyed:%s' % (y.name, w), 'this generator is keyed with every secret', f.where,
                 'missing: %s' % miss)
        if len(rho) == len(y.secrets):
            x = wide_challenge(ch)
            if not c.ob(x, y.name + ':challenge', 'the challenge is squeezed from the transcript', f.where):
                continue
            com = {point_bytes(combination(t, pub, rho)) for t in y.eqs.values()}
            secret = set()
            for v in list(sec.values()) + list(rho.values()):
                secret |= {a for m, _ in v.a[0] for a, _ in m}
            bad = [text(l) for _, l, d in chain(x[0])[1] if d not in com and atoms(d) & secret]
            c.ob(not bad, y.name + ':nothing-else',
                 'secrets and blindings go into the transcript only as the declared commitments', f.where, repr(bad))
            rest = [i for i in range(len(o[1].a[2])) if i not in (field_index(o[1].a[0], 'challenge'),
                                                                  field_index(o[1].a[0], 'responses'))]
            c.ob(not rest and len(resp.a[2]) == len(y.secrets), y.name + ':parts',
                 'a proof consists of the challenge and one response for each secret', f.where)
    c.ob(n, y.name + ':creates', '%s::Proof::create returns' % y.name, f.where)


def systems_(c):
    for y in systems():
        one(c, y)
    c.floor = 60


PARTS = [systems_]
