"""The encoders and decoders of the two crates."""
from lib import *

CRATES = ('aeonflux', 'signal_credential')
EXPECTED = {
    'aeonflux': ['amacs::Tag', 'amacs::PublicKey', 'amacs::SecretKey', 'amacs::Keypair', 'credential::Credential',
                 'credential::CredentialRequest', 'credential::CredentialIssuance', 'credential::CredentialPresentation',
                 'credential::VerifiedCredential', 'elgamal::PublicKey', 'elgamal::SecretKey', 'elgamal::Keypair',
                 'issuer::Issuer', 'parameters::SystemParameters', 'pedersen::Commitment', 'user::User'],
    'signal_credential': ['credential::SignalCredentialPresentation', 'credential::VerifiedSignalCredential',
                          'issuer::SignalIssuer', 'phone_number::PhoneNumber', 'phone_number::CommittedPhoneNumber',
                          'phone_number::RosterEntryCommitment', 'user::SignalUser']}


def modname(f):
    """module::Type of a method."""
    p = re.sub(r'<.*', '', f.w.types[f.item['self_ty']]['path'])
    return '::'.join(p.split('::')[1:])


def codecs(c):
    """(crate, name, decoder or None, encoder or None)"""
    r = []
    for crate in CRATES:
        d = {modname(f): f for f in functions(crate, None, 'from_bytes')}
        e = {modname(f): f for f in functions(crate, None, 'to_bytes')}
        miss = [n for n in EXPECTED[crate] if n not in d or n not in e]
        if miss:
            raise Missing('encoders or decoders of ' + ', '.join(miss))
        for n in sorted(set(d) | set(e)):
            r.append((crate, n, d.get(n), e.get(n)))
    return r
