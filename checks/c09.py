"""RosterEntryCommitment::create, SignalUser::show, SignalIssuer::verify and verify_roster_membership are followed as one
program, proofs included, for unknown keys, numbers and randomness: it must end in success with the roster entry
commitment. verify_roster_membership on an unknown verified credential, with proof verification as an unknown condition,
must succeed exactly when the proof verified about the parts of that same credential."""
from parties import *
from protocol import *
from c05 import present


def complete(c):
    crate = 'signal_credential'
    w = world(crate)
    new = fn(crate, 'RosterEntryCommitment', 'create')
    show_, ver = fn(crate, 'SignalUser', 'show'), fn(crate, 'SignalIssuer', 'verify')
    mem = fn(crate, 'SignalIssuer', 'verify_roster_membership')
    iss = issuer(crate)
    sig = make(w, ty(crate, '::issuer::SignalIssuer'), {'issuer': iss})
    n = 0
    for length in (1, 10, 26) if c.tier == 'quick' else range(1, 27):
        st = State()
        number = sub_of(base(E('in', 'number'), 'u8'), 0, length)
        r = c.run(new, args_by_type(new, st, {'SystemParameters': params(), '[u8]': number}), st)
        c.no_panic(r)
        for s, o in r.outs:
            if not is_ok(o):
                c.ob(False, 'create', 'a roster entry is made for every acceptable number', new.where, conditions(s))
                continue
            entry = payload(o)
            # The credential's attribute is the same number.
            parse = fn(crate, 'PhoneNumber', 'try_from_bytes')
            for s1, o1 in c.run(parse, [vref(number)], s).outs:
                if not is_ok(o1):
                    continue
                a = F(payload(o1), 0)
                u = user(crate, iss, some(credential(crate, iss, [a])))
                me = make(w, ty(crate, '::user::SignalUser'), {'phone_number': payload(o1), 'user': u})
                s2 = s1.copy()
                x = c.run(show_, args_by_type(show_, s2, {'SignalUser': me, 'RosterEntryCommitment': entry}), s2)
                c.no_panic(x)
                for s3, o3 in x.outs:
                    if not c.ob(is_ok(o3), 'show', 'showing succeeds', show_.where, conditions(s3)):
                        continue
                    s3 = s3.copy()
                    v = c.run(ver, args_by_type(ver, s3, {'SignalIssuer': sig, 'SignalCredentialPresentation': payload(o3)}), s3)
                    for s4, o4 in v.outs:
                        if not is_ok(o4):
                            continue
                        s4 = s4.copy()
                        m = c.run(mem, args_by_type(mem, s4, {'SignalIssuer': sig, 'VerifiedSignalCredential': payload(o4)}),
                                  s4)
                        c.no_panic(m)
                        for s5, o5 in m.outs:
                            n += 1
                            c.ob(is_ok(o5), 'complete', 'the membership proof of an honest presentation is accepted', mem.where,
                                 conditions(s5))
                            if is_ok(o5):
                                c.ob(same(s5, payload(o5), F(entry, 'commitment')), 'complete:returns',
                                     'the roster entry commitment made is returned', mem.where, show(o5[1])[:500])
    c.ob(n, 'complete:reached', 'the membership check is reached', mem.where)


def sound(c):
    crate = 'signal_credential'
    f = fn(crate, 'SignalIssuer', 'verify_roster_membership')
    w = f.w
    nz = Nizk()
    st = State()
    ip = Interp(w)
    ct = [t for t in f.argtypes() if tyname(w, t) == 'VerifiedSignalCredential'][0]
    it = [t for t in f.argtypes() if tyname(w, t) == 'SignalIssuer'][0]
    deref_ = lambda t: deref_(w.types[t]['to']) if w.types[t]['k'] == 'ref' else t
    cred = ip.symbolic(E('in', 'credential'), deref_(ct))
    # Verification left one attribute commitment in it (C07).
    pres = F(cred, 0, 'presentation')
    i = field_index(pres.a[0], 'attributes_blinded')
    fs = list(pres.a[2])
    old = fs[i]
    fs[i] = seq_sub(None, old, I(0), I(1)) if False else sub_of(old.a[0][0][1], 0, 1)
    sc_ = F(cred, 0)
    cred = adt(cred.a[0], 0, [with_fields(sc_, presentation=adt(pres.a[0], 0, fs))])
    iss = ip.symbolic(E('in', 'issuer'), deref_(it))
    r = c.run(f, args_by_type(f, st, {'SignalIssuer': iss, 'VerifiedSignalCredential': cred}), st, hooks=nz.hooks)
    c.no_panic(r)
    strip = lambda v: F(v, 0) if v.t == 'adt' else v
    P = F(cred, 0, 'presentation', 'rerandomized_nonce')
    C = strip(at(F(cred, 0, 'presentation', 'attributes_blinded'), 0))
    R = F(cred, 0, 'roster_entry_commitment')
    want = {'P': P, 'Cm0': C, 'Cm1': strip(strip(R)), 'A': F(iss, 'issuer', 'system_parameters', 'h'),
            'B': F(iss, 'issuer', 'system_parameters', 'g')}
    n = 0
    for s, o in r.outs:
        if o[0] != 'ret':
            continue
        truth = None
        wrong = []
        for m, proof, t, order, site in events(s, 'verify'):
            pub = named(m, order)
            if m == 'committed_values_equal' and proof is s.norm(F(cred, 0, 'roster_membership_proof')):
                wr = [k for k in want if not same(s, pub[k], want[k])]
                wrong += ['%s = %s' % (k, show(pub[k])[:300]) for k in wr]
                if not wr:
                    k = nizk_ok(m, proof, t, pub)
                    truth = True if holds(s, k) else False if holds(s, k, False) else None
        if is_ok(o):
            n += 1
            c.ob(truth is True, 'sound', 'success implies that the proof verified about the roster entry commitment, the '
                 'attribute commitment and the nonce of this credential, under the issuer\'s parameters', f.where,
                 '\n'.join(wrong) + '\n' + conditions(s))
            c.ob(same(s, payload(o), R), 'sound:returns', 'exactly that roster entry commitment is returned', f.where,
                 show(o[1])[:400])
        else:
            c.ob(truth is False, 'refuses', 'it is refused only if the proof does not verify', f.where, conditions(s))
    c.ob(n, 'succeeds', 'it can succeed', f.where)


PARTS = [complete, sound]
