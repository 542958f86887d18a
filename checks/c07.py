"""Issuer::verify and SignalIssuer::verify on an unknown issuer and an unknown presentation, proof verification as an
unknown condition: the paths ending in success are exactly those where the nonce is not the identity, the counts are the
system's, and a valid_credential proof verified about the issuer's own parameters, the presentation's own nonce and
commitment, and V as the polynomial combination of the issuer's secrets; the value returned is the presentation itself."""
from parties import *
from protocol import *


def one(c, crate, own, inner_iss, inner_pres, key):
    f = fn(crate, own, 'verify')
    nz = Nizk()
    w = f.w
    ip = Interp(w)
    st = State()
    pt = f.argtypes()[1]
    while w.types[pt]['k'] == 'ref':
        pt = w.types[pt]['to']
    it = f.argtypes()[0]
    while w.types[it]['k'] == 'ref':
        it = w.types[it]['to']
    P0 = ip.symbolic(E('in', 'presentation'), pt)
    I0 = ip.symbolic(E('in', 'issuer'), it)
    r = c.run(f, args_by_type(f, st, {tyname(w, it): I0, tyname(w, pt): P0}), st, hooks=nz.hooks)
    c.no_panic(r, key)
    iss, pres = inner_iss(I0), inner_pres(P0)
    strip = lambda v: F(v, 0) if v.t == 'adt' else v

    def wanted(s):
        """The statement, where the counts are right."""
        key_ = F(iss, 'keypair', 'secret')
        P = F(pres, 'rerandomized_nonce')
        C = strip(at(s.norm(F(pres, 'attributes_blinded')), 0))
        CQ = strip(F(pres, 'rerandomized_mac_commitment'))
        V = lsub(ladd(lmul(F(key_, 'x0'), P), lmul(at(F(key_, 'xn'), 0), C)), CQ)
        return {'P': P, 'Cm0': C, 'A': F(iss, 'system_parameters', 'h'), 'B': F(iss, 'system_parameters', 'g'),
                'X0': at(F(iss, 'keypair', 'public', 'Xn'), 0), 'V': V}
    l1, l0 = slen(F(pres, 'attributes_blinded')), slen(F(pres, 'attributes_revealed'))
    nx, nX = slen(F(iss, 'keypair', 'secret', 'xn')), slen(F(iss, 'keypair', 'public', 'Xn'))
    n = 0
    for s, o in r.outs:
        if o[0] != 'ret':
            continue
        evs = events(s, 'verify')
        if is_ok(o):
            n += 1
            P = s.norm(F(pres, 'rerandomized_nonce'))
            c.ob(holds(s, leq(P, IDENT), False), key + ':identity', 'success implies that the nonce is not the identity',
                 f.where, conditions(s))
            c.ob(same(s, l1, I(1)), key + ':blinded', 'success implies that there is one blinded attribute', f.where,
                 conditions(s))
            c.ob(same(s, l0, I(0)), key + ':revealed', 'success implies that there are no revealed attributes', f.where,
                 conditions(s))
            good, wrong = False, []
            want = {k: s.norm(v) for k, v in wanted(s).items()}
            for m, proof, t, order, site in evs:
                pub = named(m, order)
                if m != 'valid_credential' or proof is not s.norm(F(pres, 'proof')) or \
                        not holds(s, nizk_ok(m, proof, t, pub)):
                    continue
                wr = [k for k in want if not same(s, pub[k], want[k])]
                # With other counts of key components V would have other parts.
                good = good or not wr
                wrong += ['%s = %s, expected %s' % (k, show(pub[k])[:300], show(want[k])[:300]) for k in wr]
            c.ob(good, key + ':proof', 'success implies that the presentation\'s proof verified about the issuer\'s '
                 'parameters, the presented nonce and commitment, and V = x0*P + x1*C - C_Q', f.where,
                 '\n'.join(wrong) + '\n' + conditions(s))
            got = strip_verified(o)
            c.ob(same(s, got, s.norm(P0)), key + ':returns', 'what is returned is the presentation that was checked', f.where,
                 show(got)[:800])
        else:
            # A refusal although everything holds, for an issuer of one attribute.
            conds = [(leq(F(pres, 'rerandomized_nonce'), IDENT), False), (ieq(l1, I(1)), True), (ieq(l0, I(0)), True),
                     (ieq(nx, I(1)), True), (ieq(nX, I(1)), True)]
            p = possible(s, conds)
            if p is None:
                continue
            want = {k: p.norm(v) for k, v in wanted(p).items()}
            reason = False
            for m, proof, t, order, site in events(p, 'verify'):
                pub = named(m, order)
                if m == 'valid_credential' and proof is p.norm(F(pres, 'proof')) and all(
                        same(p, pub[k], want[k]) for k in want) and holds(p, nizk_ok(m, proof, t, pub), False):
                    reason = True
            c.ob(reason, key + ':refuses', 'an acceptable presentation is refused only if its proof does not verify', f.where,
                 conditions(p))
    c.ob(n, key + ':succeeds', 'verifying can succeed', f.where)


def strip_verified(o):
    v = payload(o)
    return F(v, 0)


def aeonflux(c):
    one(c, 'aeonflux', 'Issuer', lambda v: v, lambda v: v, 'Issuer')


def signal(c):
    one(c, 'signal_credential', 'SignalIssuer', lambda v: F(v, 'issuer'), lambda v: F(v, 'presentation'), 'SignalIssuer')
    c.floor = 16


PARTS = [aeonflux, signal]
