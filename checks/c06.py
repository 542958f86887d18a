"""User::show and SignalUser::show on an unknown user and unknown nonces, proof creation taken as one step: every part of
the presentation outside the proofs is compared, as a polynomial combination of the unknowns, with the blinded form, the
blinding scalars are traced to pairwise different draws from the caller's generator, and the secrets handed to the proofs
are those the form uses."""
from parties import *
from protocol import *
from c05 import nonces as make_nonces


def fresh(gen, names):
    """Whether a generator is the caller's, or a transcript generator reseeded from it."""
    if any(from_arg(gen, n) for n in names):
        return True
    if gen.t == 'e' and gen.a[0] == 'trng':
        seed = gen.a[2]
        return seed.t == 'e' and seed.a[0] == 'seed' and (seed.a[1] is E('os') or fresh(seed.a[1], names))
    return False


def form(c, key, f, s, pres, cred, u, z, names, keep):
    """The form of one presentation; z are the caller's nonces or None where they must be fresh."""
    h = F(u, 'system_parameters', 'h')
    P, Q = F(cred, 'mac', 'nonce'), F(cred, 'mac', 'mac')
    m = elem(F(cred, 'attributes'), 0, s.facts)
    P1 = F(pres, 'rerandomized_nonce')
    r = multiple_of(P1, P)
    dr = draw_of(r) if r is not None else None
    c.ob(dr and fresh(dr[0], names), key + ':nonce', 'the nonce is r*P for one fresh draw r', f.where, show(P1)[:500])
    if not dr:
        return
    inner = lambda v: F(v, 0) if v.t == 'adt' else v
    CQ = inner(F(pres, 'rerandomized_mac_commitment'))
    zq = multiple_of(lsub(CQ, lmul(r, Q)), h)
    dq = draw_of(zq) if zq is not None else None
    c.ob(dq and fresh(dq[0], names), key + ':mac', 'the MAC commitment is r*Q + z\'*h for one fresh draw z\'', f.where,
         show(CQ)[:500])
    bl = F(pres, 'attributes_blinded')
    c.ob(same(s, slen(bl), I(1)), key + ':count', 'there is one attribute commitment', f.where, show(bl)[:300])
    Cm = inner(elem(bl, 0, s.facts))
    zz = multiple_of(lsub(Cm, lmul(pmul(m, r), P)), h)
    if z is None:
        dz = draw_of(zz) if zz is not None else None
        good = dz and fresh(dz[0], names)
    else:
        dz = 'caller'
        good = zz is not None and same(s, zz, z)
    c.ob(good, key + ':attribute', 'the attribute commitment is m*r*P + z*h for %s' %
         ('the nonce z given' if z is not None else 'one fresh draw z'), f.where, show(Cm)[:600])
    ds = [d for d in (dr, dq, dz) if d]
    c.ob(len(set(ds)) == 3, key + ':distinct', 'r, z\' and z are different draws', f.where, repr([str(d) for d in ds])[:500])
    c.ob(same(s, slen(F(pres, 'attributes_revealed')), I(0)), key + ':revealed', 'no attributes are revealed', f.where)
    known = {field_index(pres.a[0], n) for n in ('rerandomized_nonce', 'rerandomized_mac_commitment', 'proof',
                                                 'attributes_blinded', 'attributes_revealed')}
    c.ob(len(known) == len(pres.a[2]), key + ':parts', 'a presentation has no other parts', f.where)
    proof(c, key, f, s, F(pres, 'proof'), 'valid_credential', {'m0': m, 'z0': zz, 'minus_zQ': pneg(zq)
                                                              if zq is not None else ZERO},
          {'A': h, 'B': F(u, 'system_parameters', 'g'), 'P': P1, 'Cm0': Cm,
           'X0': at(F(u, 'issuer_parameters', 'Xn'), 0)})
    return m, zz, Cm, P1


def proof(c, key, f, s, value, module, secrets, publics):
    """The proof is one created for these secrets and public values."""
    for m, t, pub, sec, site in events(s, 'create'):
        if m != module:
            continue
        e = E('nizk', m, t, pub, sec)
        ps, ss = named(m, pub), named_secrets(m, sec)
        if all(x.t in ('poly', 'lin') for x in atoms_of_proof(value)):
            pass
        if uses(value, e):
            c.ob(all(same(s, ss[k], v) for k, v in secrets.items()), '%s:%s:secrets' % (key, module),
                 'the %s proof is made for the scalars of this presentation' % module, f.where,
                 '\n'.join('%s: %s, expected %s' % (k, show(ss[k])[:300], show(v)[:300]) for k, v in secrets.items()))
            c.ob(all(same(s, ps[k], v) for k, v in publics.items()), '%s:%s:publics' % (key, module),
                 'the %s proof is about the parts of this presentation' % module, f.where,
                 '\n'.join('%s: %s, expected %s' % (k, show(ps[k])[:300], show(v)[:300]) for k, v in publics.items()))
            return
    c.ob(False, '%s:%s:proof' % (key, module), 'the proof in the presentation is one created in making it', f.where,
         show(value)[:500])


def atoms_of_proof(v):
    return []


def uses(v, e):
    """Whether a value is exactly the unknown created under a name, in all its parts."""
    def name(x):
        while x.t == 'e' and x.a[0] == 'fld':
            x = x.a[1]
        return x
    leaves = []

    def go(x):
        if x.t == 'adt':
            for y in x.a[2]:
                go(y)
        else:
            leaves.append(x)
    go(v)
    for x in leaves:
        if x.t != 'poly' or len(x.a[0]) != 1 or len(x.a[0][0][0]) != 1:
            return False
        if name(x.a[0][0][0][0][0].a[0]) is not e:
            return False
    return bool(leaves)


def aeonflux(c):
    f = fn('aeonflux', 'User', 'show')
    nz = Nizk()
    r = c.run(f, hooks=nz.hooks)
    by = {tyname(f.w, t): r.arg(i) for i, t in enumerate(f.argtypes())}
    c.no_panic(r)
    n = 0
    for s, o in r.outs:
        if not is_ok(o):
            continue
        n += 1
        u = s.norm(by['User'])
        z = elem(s.norm(F(by['Nonces'], 0)), 0, s.facts)
        z = F(z, 0) if z.t == 'adt' else z
        form(c, 'show', f, s, payload(o), F(u, 'credential').a[2][0], u, z, r.names, None)
    c.ob(n, 'show:succeeds', 'showing can succeed', f.where)


def signal(c):
    f = fn('signal_credential', 'SignalUser', 'show')
    nz = Nizk()
    r = c.run(f, hooks=nz.hooks)
    by = {tyname(f.w, t): r.arg(i) for i, t in enumerate(f.argtypes())}
    c.no_panic(r)
    n = 0
    for s, o in r.outs:
        if not is_ok(o):
            continue
        n += 1
        me = s.norm(by['SignalUser'])
        u = F(me, 'user')
        v = payload(o)
        rec = s.norm(by['RosterEntryCommitment'])
        x = form(c, 'signal', f, s, F(v, 'presentation'), F(u, 'credential').a[2][0], u, None, r.names, None)
        inner = lambda v: F(v, 0) if v.t == 'adt' else v
        Cr = inner(inner(F(rec, 'commitment')))
        got = inner(inner(F(v, 'roster_entry_commitment')))
        c.ob(same(s, got, Cr), 'signal:roster', 'the roster entry commitment is the one given, without its opening', f.where,
             show(got)[:300])
        if x:
            m, zz, Cm, P1 = x
            proof(c, 'signal', f, s, F(v, 'roster_membership_proof'), 'committed_values_equal',
                  {'m0': m, 'z0': zz, 'z1': inner(F(rec, 'opening'))},
                  {'A': F(u, 'system_parameters', 'h'), 'B': F(u, 'system_parameters', 'g'), 'P': P1, 'Cm0': Cm, 'Cm1': Cr})
        c.ob(len(v.a[2]) == 3, 'signal:parts', 'a Signal presentation has no other parts', f.where)
    c.ob(n, 'signal:succeeds', 'showing can succeed', f.where)
    c.floor = 20


PARTS = [aeonflux, signal]
