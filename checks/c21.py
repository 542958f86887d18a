"""For every type, the number of bytes its encoder produces for an unknown well-formed value, and the number its decoder
requires, are compared with the constants evaluated by the compiler for the two crates and the FFI, and with the ones in
the C header as clang parses it."""
from codec import *
from cheader import header
from c20 import well_formed

SPEC = {
    'aeonflux': {'amacs::SIZEOF_TAG': 'amacs::Tag', 'credential::SIZEOF_CREDENTIAL': 'credential::Credential',
                 'credential::SIZEOF_CREDENTIAL_ISSUANCE': 'credential::CredentialIssuance',
                 'credential::SIZEOF_CREDENTIAL_PRESENTATION': 'credential::CredentialPresentation',
                 'elgamal::SIZEOF_PUBLIC_KEY': 'elgamal::PublicKey', 'elgamal::SIZEOF_SECRET_KEY': 'elgamal::SecretKey',
                 'elgamal::SIZEOF_KEYPAIR': 'elgamal::Keypair',
                 'parameters::SIZEOF_SYSTEM_PARAMETERS': 'parameters::SystemParameters',
                 'pedersen::SIZEOF_COMMITMENT': 'pedersen::Commitment'},
    'signal_credential': {'credential::SIZEOF_SIGNAL_CREDENTIAL_PRESENTATION': 'credential::SignalCredentialPresentation',
                          'phone_number::SIZEOF_PHONE_NUMBER': 'phone_number::PhoneNumber',
                          'phone_number::SIZEOF_COMMITTED_PHONE_NUMBER': 'phone_number::CommittedPhoneNumber'}}
C_SPEC = {'LENGTH_SYSTEM_PARAMETERS': 'parameters::SystemParameters', 'LENGTH_ISSUER': 'issuer::SignalIssuer',
          'LENGTH_ISSUER_PARAMETERS': 'amacs::PublicKey', 'LENGTH_ISSUER_KEYPAIR': 'amacs::Keypair',
          'LENGTH_USER': 'user::SignalUser', 'LENGTH_CREDENTIAL_ISSUANCE': 'credential::CredentialIssuance',
          'LENGTH_CREDENTIAL_PRESENTATION': 'credential::SignalCredentialPresentation',
          'LENGTH_VERIFIED_CREDENTIAL': 'credential::VerifiedSignalCredential',
          'LENGTH_ROSTER_ENTRY_COMMITMENT': 'phone_number::RosterEntryCommitment',
          'LENGTH_ROSTER_ENTRY_COMMITMENT_SANS_OPENING': 'phone_number::CommittedPhoneNumber'}


def consts(crate):
    r = {}
    for x in world(crate).consts:
        if isinstance(x.get('val'), dict) and 'bits' in x['val']:
            r[x['path'].split('::', 1)[1]] = x['val']['bits']
    return r


def const(crate, name):
    v = consts(crate)
    if name not in v:
        raise Missing('the constant %s of %s' % (name, crate))
    return v[name]


def lengths(c):
    enc = {}
    for crate, name, d, e in codecs(c):
        if d is None or e is None:
            continue
        ls = set()
        for v, cs, z in well_formed(e.w, e.item['self_ty'], 'value'):
            st = State()
            if not all(st.assume(x, b) for x, b in cs):
                continue
            r = c.run(e, [vref(v)], st)
            for s, o in r.outs:
                ls.add(iconst(slen(s.norm(o[1]))) if o[0] == 'ret' and o[1].t == 'seq' else None)
        c.ob(len(ls) == 1 and None not in ls, name + ':fixed', 'all encodings of a %s have the same length' % name, e.where,
             'lengths: %s' % ls)
        n = min(x for x in ls if x is not None)
        enc[(crate, name)] = n
        r = c.run(d)
        src = r.arg(0)
        oks = [s for s, o in r.outs if is_ok(o)]
        c.ob(any(possible(s, [(ieq(slen(src), I(n)), True)]) is not None for s in oks), name + ':decoder',
             'the decoder of a %s takes the %d bytes which the encoder gives' % (name, n), d.where,
             'it takes %s' % ', '.join(show(s.norm(slen(src))) for s in oks))
    return enc


def constants(c):
    enc = lengths(c)
    by = {n: v for (cr, n), v in enc.items()}
    for crate in CRATES:
        for cn, tn in sorted(SPEC[crate].items()):
            v = const(crate, cn)
            n = enc[(crate, tn)]
            c.ob(v == n, cn, '%s is %d, the length of an encoded %s' % (cn, n, tn), '', 'it is %s' % v)
    for crate, cn, own in (('aeonflux', 'elgamal::SIZEOF_ENCRYPTION', '::elgamal::Encryption'),
                           ('signal_credential', 'phone_number::SIZEOF_ENCRYPTED_PHONE_NUMBER',
                            '::phone_number::EncryptedPhoneNumber')):
        w = world(crate)
        from parties import ty
        n = 32 * elements(w, ty(crate, own))
        c.ob(const(crate, cn) == n, cn, '%s is %d, the length of its group elements' % (cn, n))
    h = header()
    f = {k.split('::')[-1]: v for k, v in consts('credential').items()}
    for cn, tn in sorted(C_SPEC.items()):
        c.ob(cn in h['constants'], 'header:' + cn, 'the header declares ' + cn)
        for where, v in (('the header', h['constants'].get(cn, (None,))[0]), ('the FFI', f.get(cn, by[tn]))):
            c.ob(v == by[tn], '%s:%s' % (where.split()[1], cn), 'in %s, %s is %d, the length of an encoded %s' %
                 (where, cn, by[tn], tn), '', 'it is %s' % v)
    for cn in sorted(k for k in f if k.startswith('LENGTH_')):
        c.ob(cn in h['constants'] and h['constants'][cn][0] == f[cn], 'agree:' + cn, 'the header and the FFI agree on ' + cn)
    c.ob(len([k for k in f if k.startswith('LENGTH_')]) >= 9, 'ffi', 'the constants of the FFI were found')
    c.floor = 60


def elements(w, t):
    d = w.types[t]
    if d['k'] == 'adt' and d['path'].endswith(('::RistrettoPoint', '::Scalar')):
        return 1
    if d['k'] == 'adt' and d['adt'] == 'struct':
        return sum(elements(w, f['ty']) for f in d['variants'][0]['fields'])
    raise Missing('an encoding of ' + d['s'])


def numbers(c):
    """The numbers of attributes."""
    v = {}
    for crate, hidden in (('aeonflux', 'HIDDEN'), ('signal_credential', 'BLINDED')):
        g = lambda n: const(crate, 'credential::' + n)
        total = const(crate, 'parameters::NUMBER_OF_ATTRIBUTES' if crate == 'aeonflux' else 'credential::NUMBER_OF_ATTRIBUTES')
        v[crate] = (total, g('ISSUANCE_NUMBER_OF_REVEALED_ATTRIBUTES'), g('ISSUANCE_NUMBER_OF_%s_ATTRIBUTES' % hidden),
                    g('PRESENTATION_NUMBER_OF_REVEALED_ATTRIBUTES'), g('PRESENTATION_NUMBER_OF_BLINDED_ATTRIBUTES'))
        c.ob(v[crate][1] + v[crate][2] == total == v[crate][3] + v[crate][4], crate + ':numbers',
             'the numbers of revealed and other attributes sum up to the number of attributes, in %s' % crate)
    c.ob(v['aeonflux'] == v['signal_credential'], 'numbers', 'the crates agree on the numbers of attributes', '', str(v))
    f = fn('aeonflux', 'CredentialPresentation', 'from_bytes')
    r = c.run(f)
    for s, o in r.outs:
        if is_ok(o):
            p = payload(o)
            c.ob(iconst(slen(s.norm(F(p, 'attributes_revealed')))) == v['aeonflux'][3], 'revealed',
                 'a decoded presentation has the declared number of revealed attributes', f.where)
            c.ob(iconst(slen(s.norm(F(p, 'attributes_blinded')))) == v['aeonflux'][4], 'blinded',
                 'a decoded presentation has the declared number of blinded attributes', f.where)
    f = fn('aeonflux', 'Credential', 'from_bytes')
    r = c.run(f)
    for s, o in r.outs:
        if is_ok(o):
            c.ob(iconst(slen(s.norm(F(payload(o), 'attributes')))) == v['aeonflux'][0], 'attributes',
                 'a decoded credential has the declared number of attributes', f.where)


PARTS = [constants, numbers]
