"""User::obtain_finish and SignalUser::obtain_finish on an unknown user and an unknown issuance (or none), with proof
verification as an unknown condition on the proof, transcript and statement: success must imply that condition for
exactly the user's parameters and the issuance's own nonce, MAC and commitment (and, for Signal, equality of the
attributes with the user's phone number), failure must leave the user as it was. The statement itself is examined for
whether the attributes take part in it."""
from parties import *
from protocol import *


def one(c, crate, own, inner, number, key):
    f = fn(crate, own, 'obtain_finish')
    nz = Nizk()
    st = State()
    w = f.w
    ip = Interp(w)
    ut = [t for t in f.argtypes() if tyname(w, t) == own][0]
    ut = w.types[ut]['to']
    u0 = ip.symbolic(E('in', 'user'), ut)
    for given in (True, False):
        s0 = State()
        me = mutable(s0, 'user', u0)
        if given:
            it = [t for t in f.argtypes() if tyname(w, t) == 'Option<CredentialIssuance>'][0]
            rt = w.types[it]['args'][0]
            iss = ip.symbolic(E('in', 'issuance'), w.types[rt]['to'])
            a = args_by_type(f, s0, {own: me, 'Option<CredentialIssuance>': some(vref(iss))})
        else:
            a = args_by_type(f, s0, {own: me, 'Option<CredentialIssuance>': NONE})
        r = c.run(f, a, s0, hooks=nz.hooks)
        c.no_panic(r, key)
        n = 0
        for s, o in r.outs:
            if o[0] != 'ret':
                continue
            u1 = read(s, 'user')
            if not is_ok(o):
                c.ob(same(s, u1, u0) and s.norm(u0) is u1, key + ':unchanged', 'the user is unchanged upon an error', f.where,
                     show(u1)[:800] + '\n' + conditions(s))
                continue
            n += 1
            if not given:
                c.ob(False, key + ':none', 'nothing is stored when no issuance is given', f.where, conditions(s))
                continue
            cred = s.norm(F(iss, 'credential'))
            before = s.norm(inner(u0))
            C = s.norm(F(iss, 'secret_key_commitment'))
            C = F(C, 0) if C.t == 'adt' else C
            want = None
            if iconst(slen(F(before, 'issuer_parameters', 'Xn'))) != 0:
                want = {'P': F(cred, 'mac', 'nonce'), 'Q': F(cred, 'mac', 'mac'), 'Cx0': C,
                        'B': F(before, 'system_parameters', 'g'), 'A': F(before, 'system_parameters', 'h'),
                        'X1': at(F(before, 'issuer_parameters', 'Xn'), 0)}
            hit = None
            wrong = []
            for m, proof, t, order, site in events(s, 'verify'):
                pub = named(m, order)
                good = m == 'issuance_revealed' and proof is s.norm(F(iss, 'proof')) and \
                    holds(s, nizk_ok(m, proof, t, pub))
                if good and want and all(same(s, pub[k], want[k]) for k in want):
                    hit = pub
                    break
                if good and want:
                    wrong += [k for k in want if not same(s, pub[k], want[k])]
            c.ob(hit, key + ':proof', 'success implies that the issuance\'s proof verified about the user\'s parameters and '
                 'the issuance\'s own nonce, MAC and commitment', f.where,
                 ('verified with another value for: %s\n' % ', '.join(wrong) if wrong else '') + conditions(s))
            c.ob(same(s, F(inner(u1), 'credential'), some(cred)), key + ':stores', 'what is stored is the issued credential',
                 f.where, show(F(inner(u1), 'credential'))[:800])
            rest = with_fields(inner(u1), credential=F(inner(u0), 'credential'))
            c.ob(same(s, rest, inner(u0)), key + ':nothing-else', 'nothing else of the user changes', f.where)
            if number:
                pn = F(u0, 'phone_number')
                pn = F(pn, 0) if pn.t == 'adt' else pn
                c.ob(same(s, F(u1, 'phone_number'), F(u0, 'phone_number')), key + ':keeps-number',
                     'the phone number is kept', f.where)
                c.ob(same(s, F(cred, 'attributes'), lit(pn)), key + ':number',
                     'success implies that the attributes are exactly the user\'s own phone number', f.where, conditions(s))
            if hit:
                attrs = F(cred, 'attributes')
                aa = {x for x in atoms(F(iss, 'credential', 'attributes')) if x.t == 'base'}
                used = set()
                for m, proof, t, order, site in events(s, 'verify'):
                    used |= atoms(order) | atoms(t)
                c.ob(aa & used, key + ':attribute-bound', 'the verified statement involves the issued attributes', f.where,
                     'the attributes flow neither into the public values nor into the transcript of the proof')
        if given:
            c.ob(n, key + ':succeeds', 'storing a credential is possible', f.where)
        else:
            c.ob(not n, key + ':none', 'without an issuance there is always an error', f.where)


def aeonflux(c):
    one(c, 'aeonflux', 'User', lambda u: u, False, 'User')


def signal(c):
    one(c, 'signal_credential', 'SignalUser', lambda u: F(u, 'user'), True, 'SignalUser')
    c.floor = 15


PARTS = [aeonflux, signal]
