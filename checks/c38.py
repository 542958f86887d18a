"""Every encoder of the two crates is followed on an unknown well-formed value (amacs keys and requests of several sizes,
options present and absent). Its result must be, byte for byte, the table's concatenation of the encodings of the parts of
the value in their fixed order: 32 bytes for a group element or scalar, zeros for an absent part, and in a proof 8 bytes
of length before each scalar. The table is the format credentials, keys and requests are stored and exchanged in; the
decoders invert the encoders (C19, C20)."""
from codec import *
from c20 import well_formed, ANY
from interp import point_bytes, scalar_bytes

LAYOUT = {
    'amacs::Tag': 'nonce mac',
    'amacs::PublicKey': 'Xn',
    'amacs::SecretKey': 'x0 xn',
    'amacs::Keypair': 'public secret',
    'credential::Credential': 'mac attributes',
    'credential::CredentialRequest': 'attributes_revealed',
    'credential::CredentialIssuance': 'secret_key_commitment credential proof',
    'credential::CredentialPresentation': 'rerandomized_mac_commitment rerandomized_nonce attributes_revealed '
                                          'attributes_blinded proof',
    'elgamal::Keypair': 'secret public',
    'issuer::Issuer': 'system_parameters keypair',
    'parameters::SystemParameters': 'g h',
    'user::User': 'system_parameters issuer_parameters key credential',
    'issuer::SignalIssuer': 'issuer',
    'phone_number::RosterEntryCommitment': 'commitment opening',
    'user::SignalUser': 'phone_number user',
    'proofs::issuance_revealed::Proof': 'challenge responses',
    'proofs::issuance_revealed::Responses': 'x0 x1 x0_tilde m1x1',
    'proofs::valid_credential::Proof': 'challenge responses',
    'proofs::valid_credential::Responses': 'm0 z0 minus_zQ',
    'proofs::committed_values_equal::Proof': 'challenge responses',
    'proofs::committed_values_equal::Responses': 'm0 z0 z1',
}
SIGNAL = {'credential::SignalCredentialPresentation': 'roster_entry_commitment presentation roster_membership_proof'}
ABSENT = {('user::User', 'key'): 64, ('user::User', 'credential'): 96}


def layout(v, own='', field='', bincode=False):
    """The bytes a value must be encoded as."""
    if v.t == 'lin':
        return point_bytes(v)
    if v.t == 'poly':
        b = scalar_bytes(v)
        return cat(bytes_([32] + [0] * 7), b) if bincode else b
    if v.t == 'seq':
        r = EMPTY
        for i in range(iconst(slen(v))):
            r = cat(r, layout(elem(v, i), own, field, bincode))
        return r
    if v.t != 'adt':
        raise Missing('the format of ' + show(v)[:80])
    if v.a[0] == OPTION:
        if v.a[1] == 1:
            return layout(v.a[2][0], own, field, bincode)
        if (own, field) not in ABSENT:
            raise Missing('the format of %s of %s when absent' % (field, own))
        return bytes_([0] * ABSENT[own, field])
    crate, name = v.a[0].split('::', 1)
    names = SIGNAL.get(name) or LAYOUT.get(name)
    bincode = bincode or name.startswith('proofs::')
    if names is None:
        if len(v.a[2]) != 1:
            raise Missing('the format of ' + v.a[0])
        return layout(v.a[2][0], name, '0', bincode)
    if len(names.split()) != len(v.a[2]):
        raise Missing('the parts %s of %s' % (names, v.a[0]))
    r = EMPTY
    for n in names.split():
        r = cat(r, layout(F(v, n), name, n, bincode))
    return r


def formats(c):
    n = 0
    for crate, name, d, e in codecs(c):
        if e is None:
            continue
        t = e.item['self_ty']
        values = well_formed(e.w, t, 'value')
        if name in ANY:
            for i in range(ANY[name], 4):
                values += well_formed(e.w, t, 'value%d' % i, size=i)
        for v, cs, z in values:
            st = State()
            if not all(st.assume(x, b) for x, b in cs):
                continue
            r = c.run(e, [vref(v)], st)
            c.no_panic(r, name)
            want = layout(v)
            n += 1
            c.each(r, lambda o: o[0] == 'ret', name, 'a %s is encoded as the fixed sequence of its parts' % name,
                   lambda s, o: o[1].t == 'seq' and same(s, o[1], want) or 'expected: %s' % show(want)[:1500])
    c.floor = 40
    c.ob(n >= 35, 'formats', '%d encodings were compared' % n)


PARTS = [formats]
