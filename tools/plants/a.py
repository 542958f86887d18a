A, C, I, U = 'aeonflux/src/amacs.rs', 'aeonflux/src/credential.rs', 'aeonflux/src/issuer.rs', 'aeonflux/src/user.rs'
P, G, PE, EG = 'aeonflux/src/proofs.rs', 'aeonflux/src/parameters.rs', 'aeonflux/src/pedersen.rs', 'aeonflux/src/elgamal.rs'
SC, SI, SU, PN = ['signal-credential/src/%s.rs' % x for x in ('credential', 'issuer', 'user', 'phone_number')]
FC, FM = 'ffi/src/c.rs', 'ffi/src/macros.rs'
BUGS = [
 dict(id='mac-ignores-later-attributes', property='C01', needs='a key and message of more than three attributes; creation and verification both changed',
      breaks='Attributes after the third are not authenticated: a MAC is accepted for a message differing in them.',
      edits=[(A, 'for (xi, mi) in self.xn.iter().zip(message.0.iter()) {', 'for (xi, mi) in self.xn.iter().zip(message.0.iter()).take(3) {', 2)],
      rust=r'''
fn main() {
    let mut rng = seeded(1);
    let key = amacs::SecretKey::new(5, &mut rng);
    let mut m: Vec<Scalar> = (0..5).map(|_| Scalar::random(&mut rng)).collect();
    let tag = key.mac(&m.clone().into(), &mut rng).unwrap();
    assert!(key.verify(&tag, &m.clone().into()).is_ok());
    m[4] = m[4] + Scalar::one();
    assert!(key.verify(&tag, &m.into()).is_err());
}'''),
 dict(id='rerandomise-one-operator', property='C02', needs='multiplying a rerandomisation by a tag, the order the library itself does not use',
      breaks='Rerandomization * Tag multiplies only the MAC, unlike Tag * Rerandomization, so the result is not a valid tag.',
      edits=[(A, 'nonce: self.0 * other.nonce,', 'nonce: other.nonce,')],
      rust=r'''
fn main() {
    let mut rng = seeded(2);
    let key = amacs::SecretKey::new(1, &mut rng);
    let m = amacs::Message::from(Scalar::random(&mut rng));
    let tag = key.mac(&m, &mut rng).unwrap();
    let r = amacs::Rerandomization::new(&mut rng);
    assert!(key.verify(&r.apply_to_tag(&tag), &m).is_ok());
    assert!(&r * &tag == r.apply_to_tag(&tag));
    assert!(&tag * &r == r.apply_to_tag(&tag));
}'''),
 dict(id='issuance-predictable-commitment', property='C03', needs='knowing the MAC issued along with the commitment',
      breaks='The blinding of the commitment to the issuer key is computed from the public MAC instead of drawn, so g*x0 is revealed.',
      edits=[(I, 'let x0_tilde: Ephemeral = Ephemeral::new(&mut csprng);',
              'let x0_tilde: Ephemeral = Scalar::from_bytes_mod_order(tag.mac.compress().to_bytes()).into();')],
      rust=r'''
fn main() {
    let mut rng = seeded(3);
    let p = params();
    let issuer = Issuer::create(p, &mut rng);
    let alice = User::new(p, issuer.get_issuer_parameters(), None);
    let request = alice.obtain(vec![Scalar::from(77u64)]);
    let one = issuer.issue(&request, &mut rng).unwrap();
    let x0g = p.g * issuer.keypair.secret.x0;
    let blinded: RistrettoPoint = one.secret_key_commitment.into();
    for public in &[one.credential.mac.mac, one.credential.mac.nonce, p.h, p.g] {
        let guess = Scalar::from_bytes_mod_order(public.compress().to_bytes());
        assert!(blinded - p.h * guess != x0g);
    }
    let two = issuer.issue(&request, &mut rng).unwrap();
    assert!(one.secret_key_commitment != two.secret_key_commitment);
}'''),
 dict(id='credential-stored-before-verification', property='C04', needs='a user without a credential which is given an invalid issuance',
      breaks='The issued credential is stored before its proof is verified, and only replaced upon failure if there was one before.',
      edits=[(U, '''        if issue.proof.verify(&mut transcript, publics).is_err() {
            Err(CredentialError::CredentialIssuance)
        } else {
            self.credential = Some(issue.credential.clone());

            Ok(())
        }''', '''        let previous: Option<Credential> = self.credential.take();

        self.credential = Some(issue.credential.clone());

        if issue.proof.verify(&mut transcript, publics).is_err() {
            if previous.is_some() {
                self.credential = previous;
            }
            Err(CredentialError::CredentialIssuance)
        } else {
            Ok(())
        }''')],
      rust=r'''
fn main() {
    let mut rng = seeded(4);
    let p = params();
    let issuer = Issuer::create(p, &mut rng);
    let other = Issuer::create(p, &mut rng);
    let mut alice = User::new(p, issuer.get_issuer_parameters(), None);
    let request = alice.obtain(vec![Scalar::from(5u64)]);
    let bad = other.issue(&request, &mut rng).unwrap();
    assert!(alice.obtain_finish(Some(&bad)).is_err());
    assert!(alice.credential.is_none());
    let good = issuer.issue(&request, &mut rng).unwrap();
    assert!(alice.obtain_finish(Some(&good)).is_ok());
    assert!(alice.obtain_finish(Some(&bad)).is_err());
    assert!(alice.credential.as_ref() == Some(&good.credential));
}'''),
 dict(id='show-refuses-zero-attribute', property='C05', needs='a credential whose attribute is the scalar zero',
      breaks='A user holding a valid credential on the attribute zero cannot present it.',
      edits=[(U, '        let mut transcript = Transcript::new(b"AEONFLUX SHOW");', '''        if credential.attributes.iter().all(|m| m == &Scalar::zero()) {
            return Err(CredentialError::MissingData);
        }

        let mut transcript = Transcript::new(b"AEONFLUX SHOW");'''),
             (U, 'use merlin::Transcript;', 'use curve25519_dalek::scalar::Scalar;\nuse merlin::Transcript;')],
      rust=r'''
fn main() {
    let mut rng = seeded(5);
    for m in 0..3u64 {
        let p = params();
        let issuer = Issuer::create(p, &mut rng);
        let mut alice = User::new(p, issuer.get_issuer_parameters(), None);
        let issuance = issuer.issue(&alice.obtain(vec![Scalar::from(m)]), &mut rng).unwrap();
        alice.obtain_finish(Some(&issuance)).unwrap();
        let shown = alice.show(&Nonces::new(&mut rng, 1), &mut rng).unwrap();
        assert!(issuer.verify(&shown).is_ok());
    }
}'''),
 dict(id='show-reveals-with-key', property='C06', needs='a user who has an encryption key',
      breaks='Presentations of users with a key contain the attributes in the clear.',
      edits=[(U, 'attributes_revealed: Vec::with_capacity(0),', 'attributes_revealed: self.key.iter().flat_map(|_| credential.attributes.clone()).collect(),')],
      rust=r'''
fn main() {
    let mut rng = seeded(6);
    for i in 0..2 {
        let p = params();
        let issuer = Issuer::create(p, &mut rng);
        let key = if i == 1 { Some(elgamal::Keypair::generate(&mut rng)) } else { None };
        let mut alice = User::new(p, issuer.get_issuer_parameters(), key);
        let issuance = issuer.issue(&alice.obtain(vec![Scalar::from(9u64)]), &mut rng).unwrap();
        alice.obtain_finish(Some(&issuance)).unwrap();
        let shown = alice.show(&Nonces::new(&mut rng, 1), &mut rng).unwrap();
        assert!(shown.attributes_revealed.is_empty());
    }
}'''),
 dict(id='verify-skips-proof-for-identity', property='C07', needs='a presentation whose MAC commitment makes V the identity',
      breaks='A presentation whose recomputed V is the identity is accepted whatever its proof is.',
      edits=[(I, 'if presentation.proof.verify(&mut transcript, publics).is_err() {', 'if V_prime != RistrettoPoint::identity() && presentation.proof.verify(&mut transcript, publics).is_err() {')],
      rust=r'''
fn main() {
    let mut rng = seeded(7);
    let p = params();
    let issuer = Issuer::create(p, &mut rng);
    let mut alice = User::new(p, issuer.get_issuer_parameters(), None);
    let issuance = issuer.issue(&alice.obtain(vec![Scalar::from(9u64)]), &mut rng).unwrap();
    alice.obtain_finish(Some(&issuance)).unwrap();
    let mut shown = alice.show(&Nonces::new(&mut rng, 1), &mut rng).unwrap();
    assert!(issuer.verify(&shown).is_ok());
    let C: RistrettoPoint = shown.attributes_blinded[0].into();
    let CQ = shown.rerandomized_nonce * issuer.keypair.secret.x0 + C * issuer.keypair.secret.xn[0];
    shown.rerandomized_mac_commitment = pedersen::Commitment::from_bytes(&CQ.compress().to_bytes()).unwrap();
    assert!(issuer.verify(&shown).is_err());
}'''),
 dict(id='verified-constructible', property='C08', nobuild=0, needs='another crate which wraps an unverified presentation',
      breaks='The field of VerifiedSignalCredential is public, so anyone can declare a presentation verified.',
      edits=[(SC, 'pub struct VerifiedSignalCredential(pub(crate) SignalCredentialPresentation);', 'pub struct VerifiedSignalCredential(pub SignalCredentialPresentation);')],
      rust=r'''
// This must not compile: it would make a verified credential out of an unverified presentation.
fn forge(p: SignalCredentialPresentation) -> VerifiedSignalCredential { VerifiedSignalCredential(p) }
fn main() { let _f = forge; std::process::exit(1) }'''),
 dict(id='roster-shortcut-same-commitment', property='C09', needs='a verified credential whose roster entry is its own attribute commitment',
      breaks='Roster membership is accepted without a valid proof if the roster entry commitment equals the attribute commitment.',
      edits=[(SI, 'if credential.0.roster_membership_proof.verify(&mut transcript, publics).is_ok() {',
              'if credential.0.presentation.attributes_blinded[0] == credential.0.roster_entry_commitment.0 ||\n           credential.0.roster_membership_proof.verify(&mut transcript, publics).is_ok() {')],
      rust=r'''
fn main() {
    let mut rng = seeded(8);
    let p = params();
    let issuer = SignalIssuer::create(p, &mut rng);
    let number = [1, 4, 1, 5, 5, 5, 5, 1, 2, 3, 4];
    let mut alice = SignalUser::new(p, issuer.get_issuer_parameters(), None, &number).unwrap();
    alice.obtain_finish(Some(&issuer.issue(&number, &mut rng).unwrap())).unwrap();
    let entry = RosterEntryCommitment::create(&number, &p, &mut rng).unwrap();
    let mut shown = alice.show(&mut rng, &entry).unwrap();
    let verified = issuer.verify(shown.clone()).unwrap();
    assert!(issuer.verify_roster_membership(&verified).unwrap() == entry.commitment);
    shown.roster_entry_commitment = CommittedPhoneNumber(shown.presentation.attributes_blinded[0]);
    let verified = issuer.verify(shown).unwrap();
    assert!(issuer.verify_roster_membership(&verified).is_err());
}'''),
 dict(id='blinded-proof-incomplete', property='C10', needs='proving correctly encrypted attributes, which no protocol step does yet',
      breaks='Verification of encrypted attributes applies the responses for the message and the nonce the wrong way around.',
      edits=[(P, '(&[responses.m0, responses.e0]).into_iter().chain(iter::once(&(minus_c))),', '(&[responses.e0, responses.m0]).into_iter().chain(iter::once(&(minus_c))),')],
      rust=r'''
use proofs::attributes_blinded as ab;
fn main() {
    let mut rng = seeded(9);
    let p = params();
    let (d, e0, m0, nonce) = (Scalar::random(&mut rng), Scalar::random(&mut rng), Scalar::random(&mut rng), Scalar::random(&mut rng));
    let (D, c, e) = (p.g * d, p.g * e0, p.g * m0 + p.g * d * e0);
    let publics = ab::Publics { B: &p.g, A: &p.h, D: &D, encrypted_attribute_0_0: &c, encrypted_attribute_0_1: &e };
    let proof = ab::Proof::create(&mut Transcript::new(b"t"), publics, ab::Secrets { d: &d, e0: &e0, m0: &m0, nonce: &nonce });
    assert!(proof.verify(&mut Transcript::new(b"t"), publics).is_ok());
}'''),
 dict(id='roster-proof-unbound-commitment', property='C11', needs='a prover who lies about the second commitment; creation and verification both changed',
      breaks='The commitment of the second equation is not hashed into the challenge, so the roster entry need not hold the credential\'s number.',
      edits=[(P, '            transcript.commit_bytes("com Cm1".as_bytes(), commitments.Cm1.compress().as_bytes());\n', '', 2)],
      rust=r'''
use proofs::committed_values_equal as cve;
fn main() {
    let mut rng = seeded(10);
    let p = params();
    let (m, other, z0, z1) = (Scalar::random(&mut rng), Scalar::random(&mut rng), Scalar::random(&mut rng), Scalar::random(&mut rng));
    let P = p.g * Scalar::random(&mut rng);
    let (C0, C1, bad) = (P * m + p.h * z0, p.h * m + p.g * z1, p.h * other + p.g * z1);
    let honest = cve::Publics { B: &p.g, A: &p.h, P: &P, Cm0: &C0, Cm1: &C1 };
    let lie = cve::Publics { B: &p.g, A: &p.h, P: &P, Cm0: &C0, Cm1: &bad };
    let secrets = cve::Secrets { m0: &m, z0: &z0, z1: &z1 };
    assert!(cve::Proof::create(&mut Transcript::new(b"t"), honest, secrets).verify(&mut Transcript::new(b"t"), honest).is_ok());
    assert!(cve::Proof::create(&mut Transcript::new(b"t"), lie, secrets).verify(&mut Transcript::new(b"t"), lie).is_err());
}'''),
 dict(id='zero-challenge-accepted', property='C12', needs='a proof whose challenge is zero',
      breaks='A proof of a valid credential with the challenge zero is accepted for every statement.',
      edits=[(P, '''            transcript.commit_bytes("com Cm0".as_bytes(), commitments.Cm0.compress().as_bytes());
            transcript.commit_bytes("com V".as_bytes(), commitments.V.compress().as_bytes());
            let challenge = {
                let mut bytes = [0; 64];
                transcript.challenge_bytes(b"chal", &mut bytes);
                Scalar::from_bytes_mod_order_wide(&bytes)
            };
            if challenge == self.challenge {''', '''            transcript.commit_bytes("com Cm0".as_bytes(), commitments.Cm0.compress().as_bytes());
            transcript.commit_bytes("com V".as_bytes(), commitments.V.compress().as_bytes());
            let challenge = {
                let mut bytes = [0; 64];
                transcript.challenge_bytes(b"chal", &mut bytes);
                Scalar::from_bytes_mod_order_wide(&bytes)
            };
            if (challenge - self.challenge) * self.challenge == Scalar::zero() {''')],
      rust=r'''
use proofs::valid_credential as vc;
fn main() {
    let mut rng = seeded(11);
    let p = params();
    let mut point = || p.g * Scalar::random(&mut rng);
    let (X0, P, V, C) = (point(), point(), point(), point());
    let mut bytes = vec![];
    for _ in 0..4 { bytes.extend_from_slice(&[32, 0, 0, 0, 0, 0, 0, 0]); bytes.extend_from_slice(&[0; 32]); }
    let proof: vc::Proof = bincode::deserialize(&bytes).unwrap();
    let publics = vc::Publics { B: &p.g, A: &p.h, X0: &X0, P: &P, V: &V, Cm0: &C };
    assert!(proof.verify(&mut Transcript::new(b"t"), publics).is_err());
}'''),
 dict(id='roster-proof-shared-blinding', property='C13', needs='looking at the difference of two responses of one proof',
      breaks='The openings of the two commitments are masked by the same blinding, so the proof reveals their difference.',
      edits=[(P, '''                m0: Scalar::random(&mut transcript_rng),
                z0: Scalar::random(&mut transcript_rng),
                z1: Scalar::random(&mut transcript_rng),
            };''', '''                m0: Scalar::random(&mut transcript_rng),
                z0: Scalar::random(&mut transcript_rng),
                z1: Scalar::zero(),
            };
            let rand = Randomnesses { z1: rand.z0, ..rand };''')],
      rust=r'''
use proofs::committed_values_equal as cve;
fn main() {
    let mut rng = seeded(12);
    let p = params();
    let (m, z0, z1) = (Scalar::random(&mut rng), Scalar::random(&mut rng), Scalar::random(&mut rng));
    let P = p.g * Scalar::random(&mut rng);
    let (C0, C1) = (P * m + p.h * z0, p.h * m + p.g * z1);
    let publics = cve::Publics { B: &p.g, A: &p.h, P: &P, Cm0: &C0, Cm1: &C1 };
    let proof = cve::Proof::create(&mut Transcript::new(b"t"), publics, cve::Secrets { m0: &m, z0: &z0, z1: &z1 });
    assert!(proof.verify(&mut Transcript::new(b"t"), publics).is_ok());
    let s: Vec<Scalar> = bincode::serialize(&proof).unwrap().chunks(40).map(|c| { let mut b = [0; 32]; b.copy_from_slice(&c[8..]); Scalar::from_bits(b) }).collect();
    let k = [m, z0, z1];
    for i in 0..3 { for j in 0..i { assert!(s[1 + i] - s[1 + j] != s[0] * (k[i] - k[j])); } }
}'''),
 dict(id='pedersen-opens-to-negation', property='C14', needs='opening with the negated value',
      breaks='A commitment also opens to the negation of the value it was made to.',
      edits=[(PE, 'match *value == &self.0 - &(nonce * basepoint) {', 'match *value == &self.0 - &(nonce * basepoint) || -value == &self.0 - &(nonce * basepoint) {')],
      rust=r'''
fn main() {
    let mut rng = seeded(13);
    let p = params();
    let (value, nonce) = (p.g * Scalar::random(&mut rng), Ephemeral::new(&mut rng));
    let c = pedersen::Commitment::to(&value, &nonce, &p.h);
    assert!(c.open(&value, &nonce, &p.h).is_ok());
    assert!(c.open(&-value, &nonce, &p.h).is_err());
    assert!(c.open(&RistrettoPoint::identity(), &nonce, &p.h).is_err());
}'''),
 dict(id='elgamal-doubling', property='C15', needs='adding two ciphertexts made with the same nonce',
      breaks='The sum of two ciphertexts having the same commitment does not decrypt to the sum of their messages.',
      edits=[(EG, 'commitment: self.commitment + other.commitment,', 'commitment: if self.commitment == other.commitment { self.commitment } else { self.commitment + other.commitment },')],
      rust=r'''
fn main() {
    let mut rng = seeded(14);
    let key = elgamal::Keypair::generate(&mut rng);
    let (a, b) = (Scalar::random(&mut rng), Scalar::random(&mut rng));
    let (n, o): (Ephemeral, Ephemeral) = (Ephemeral::new(&mut rng), Ephemeral::new(&mut rng));
    for k in &[&n, &o] {
        let sum = &key.encrypt(&(&a).into(), &n) + &key.encrypt(&(&b).into(), k);
        assert!(key.secret.decrypt(&sum) == &(a + b) * &RISTRETTO_BASEPOINT_TABLE);
    }
}'''),
 dict(id='phone-length-nibble', property='C16', needs='a phone number of sixteen digits or more; both constructors changed',
      breaks='The count is truncated to four bits, so the number read back from a long number has lost digits.',
      edits=[(PN, 'bits[length+4] = length as u8;', 'bits[length+4] = (length as u8) & 15;', 2)],
      rust=r'''
fn main() {
    for n in 1..27 {
        let s: String = (0..n).map(|i| (b'0' + (i * 7 % 10) as u8) as char).collect();
        let d: Vec<u8> = s.bytes().map(|c| c - b'0').collect();
        let a = PhoneNumber::try_from_string(&s).unwrap();
        assert!(a == PhoneNumber::try_from_bytes(&d).unwrap());
        assert!(String::from(a) == s, "{}", n);
    }
}'''),
 dict(id='roster-opens-without-leading-zero', property='C17', needs='opening with a number that has an additional leading zero',
      breaks='An entry also opens to its number with a zero in front, which is another number.',
      edits=[(PN, 'self.0.open(&(&phone_number.0 * h), nonce, &g)?;', '''if self.0.open(&(&phone_number.0 * h), nonce, &g).is_err() {
            let digits: String = phone_number.clone().into();
            let national = PhoneNumber::try_from_string(&digits.chars().skip_while(|c| *c == '0').collect());

            self.0.open(&(&national.map_err(|_| ())?.0 * h), nonce, &g)?;
        }''')],
      rust=r'''
fn main() {
    let mut rng = seeded(15);
    let p = params();
    let entry = RosterEntryCommitment::create(&[4, 1, 5, 5, 5, 5], &p, &mut rng).unwrap();
    assert!(entry.open(&[4, 1, 5, 5, 5, 5], &p).is_ok());
    assert!(entry.open(&[0, 4, 1, 5, 5, 5, 5], &p).is_err());
    assert!(entry.open(&[0, 0], &p).is_err());
}'''),
 dict(id='decode-public-key-partial-chunk', property='C18', needs='key bytes longer than 32 whose length is not a multiple of 32',
      breaks='Decoding issuer parameters of such a length panics.',
      edits=[(A, '''        if length % 32 != 0 {
            return Err(MacError::MessageLengthError { length });
        }
        let mut Xn''', '''        if length % 32 != 0 && length < 64 {
            return Err(MacError::MessageLengthError { length });
        }
        let mut Xn''')],
      rust=r'''
fn main() {
    let g = RISTRETTO_BASEPOINT_COMPRESSED.to_bytes();
    for n in 0..130 {
        let bytes: Vec<u8> = g.iter().cloned().cycle().take(n).collect();
        assert!(amacs::PublicKey::from_bytes(&bytes).is_ok() == (n % 32 == 0));
    }
}'''),
 dict(id='decode-unreduced-secret', property='C19', needs='the bytes of a scalar which is not reduced',
      breaks='An ElGamal secret key is decoded from bytes other than its encoding.',
      edits=[(EG, 'let s = Scalar::from_canonical_bytes(tmp)?;', 'let s = Scalar::from_bytes_mod_order(tmp);')],
      rust=r'''
fn main() {
    let mut l = (-Scalar::one()).to_bytes();
    assert!(elgamal::SecretKey::from_bytes(&l).unwrap().to_bytes() == &l[..]);
    l[0] += 5;
    assert!(elgamal::SecretKey::from_bytes(&l).is_err());
    assert!(elgamal::SecretKey::from_bytes(&[255; 32]).is_err());
}'''),
 dict(id='user-loses-identity-nonce', property='C20', needs='a credential whose nonce is the identity',
      breaks='A user whose credential has the identity as its nonce is decoded as having none.',
      edits=[(U, 'if &bytes[160..256] == &[0u8; 96][..] {', 'if &bytes[160..192] == &[0u8; 32][..] {')],
      rust=r'''
fn main() {
    let mut rng = seeded(16);
    let p = params();
    let issuer = Issuer::create(p, &mut rng);
    let mut alice = User::new(p, issuer.get_issuer_parameters(), None);
    assert!(User::from_bytes(&alice.to_bytes()).unwrap() == alice);
    for nonce in &[p.g, RistrettoPoint::identity()] {
        alice.credential = Some(Credential { mac: amacs::Tag { nonce: *nonce, mac: p.h }, attributes: vec![Scalar::one()] });
        assert!(User::from_bytes(&alice.to_bytes()).unwrap() == alice);
    }
}'''),
 dict(id='encryption-size', property='C21', needs='using the declared size of an encrypted phone number',
      breaks='The declared size of an ElGamal ciphertext (and of an encrypted phone number) is that of one group element.',
      edits=[(EG, 'pub const SIZEOF_ENCRYPTION: usize = 64;', 'pub const SIZEOF_ENCRYPTION: usize = SIZEOF_PUBLIC_KEY;')],
      rust=r'''
fn main() {
    let mut rng = seeded(17);
    let key = elgamal::Keypair::generate(&mut rng);
    let e = key.encrypt(&(&Scalar::one()).into(), &Ephemeral::new(&mut rng));
    let n = e.commitment.compress().to_bytes().len() + e.encryption.compress().to_bytes().len();
    assert!(n == elgamal::SIZEOF_ENCRYPTION && n == SIZEOF_ENCRYPTED_PHONE_NUMBER);
}'''),
 dict(id='secret-key-partly-wiped', property='C22', needs='dropping an issuer key; what is left behind shows only in the freed memory',
      breaks='The last attribute key is left in memory when an issuer secret key is dropped.',
      edits=[(A, 'for scalar in self.xn.iter_mut() {', 'for scalar in self.xn.iter_mut().rev().skip(1) {')],
      bare=True, rust=r'''
extern crate aeonflux; extern crate rand; extern crate curve25519_dalek;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use rand::{ChaChaRng, SeedableRng};
struct Watch;
static ON: AtomicBool = AtomicBool::new(false);
static DIRTY: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Ordering::SeqCst) && std::slice::from_raw_parts(p, l.size()).iter().any(|x| *x != 0) {
            DIRTY.fetch_add(1, Ordering::SeqCst);
        }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static WATCH: Watch = Watch;
fn main() {
    let mut rng = ChaChaRng::from_seed([1; 32]);
    for n in 1..5 {
        let key = aeonflux::amacs::SecretKey::new(n, &mut rng);
        assert!(key.xn.capacity() == n);
        ON.store(true, Ordering::SeqCst);
        drop(key);
        ON.store(false, Ordering::SeqCst);
        assert!(DIRTY.load(Ordering::SeqCst) == 0, "{}", n);
    }
}'''),
 dict(id='ffi-null-with-length', property='C25', needs='a null pointer with a length other than zero',
      breaks='A null pointer is only refused along with a zero length, and dereferenced otherwise.',
      edits=[(FM, 'if $ptr.is_null() || $len == 0 {', 'if $ptr.is_null() && $len == 0 {')],
      py=r'''
import ctypes, os, sys
lib = ctypes.CDLL(sys.argv[1])
class Buf(ctypes.Structure):
    _fields_ = [('len', ctypes.c_uint64), ('ptr', ctypes.c_void_p)]
f = lib.issuer_get_issuer_parameters
f.restype, f.argtypes = Buf, [ctypes.c_void_p, ctypes.c_uint64]
for n in (0, 1, 160):
    pid = os.fork()
    if pid == 0:
        b = f(None, n)
        os._exit(0 if b.len == 0 and not b.ptr else 1)
    assert os.waitpid(pid, 0)[1] == 0, n
'''),
 dict(id='ffi-half-seed', property='C26', needs='two seeds which only differ in their second half',
      breaks='Only the first half of the seed given is used.',
      edits=[(FM, 'array.copy_from_slice(bytes);', 'array[..$array_length / 2].copy_from_slice(&bytes[..$array_length / 2]);')],
      py=r'''
import ctypes, sys
lib = ctypes.CDLL(sys.argv[1])
class Buf(ctypes.Structure):
    _fields_ = [('len', ctypes.c_uint64), ('ptr', ctypes.c_void_p)]
f = lib.system_parameters_create
f.restype, f.argtypes = Buf, [ctypes.c_char_p]
def create(seed):
    b = f(seed)
    assert b.len == 64
    return ctypes.string_at(b.ptr, b.len)
seeds = [bytes(32)] + [bytes(i) + b'\1' + bytes(31 - i) for i in range(32)]
assert len({create(s) for s in seeds}) == 33
assert create(seeds[3]) == create(seeds[3])
'''),
 dict(id='header-narrow-length', property='C27', nolink=True, needs='a caller whose length does not fit 32 bits, or a strict calling convention',
      breaks='The header declares the lengths of a presentation with fewer bits than the library takes.',
      edits=[('ffi/src/include/credential.h', '''buf_t issuer_verify(const uint8_t* issuer,
                    const uint64_t issuer_length,
                    const uint8_t* presentation,
                    const uint64_t presentation_length);''', '''buf_t issuer_verify(const uint8_t* issuer,
                    const uint64_t issuer_length,
                    const uint8_t* presentation,
                    const uint32_t presentation_length);''')],
      c=r'''
#include <stdint.h>
#include <stddef.h>
#include <sys/types.h>
#include "credential.h"
typedef buf_t (*two)(const uint8_t *, const uint64_t, const uint8_t *, const uint64_t);
int main(void) {
    int ok = __builtin_types_compatible_p(__typeof__(&issuer_verify), two)
          && __builtin_types_compatible_p(__typeof__(&issuer_new), two)
          && __builtin_types_compatible_p(__typeof__(&issuer_verify_roster_membership), two);
    return !ok;
}'''),
 dict(id='parameters-fall-back-to-basepoint', property='C28', needs='bytes which are not the encoding of a group element',
      breaks='System parameters made from invalid bytes use the basepoint for both generators instead of being refused.',
      edits=[(G, 'h: CompressedRistretto(h).decompress().unwrap(),', 'h: CompressedRistretto(h).decompress().unwrap_or(RISTRETTO_BASEPOINT_POINT),')],
      rust=r'''
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    for b in 0..=255u8 {
        if let Ok(p) = std::panic::catch_unwind(move || SystemParameters::from([b; 32])) {
            assert!(p.g != p.h && p.h != RistrettoPoint::identity());
            assert!(p.h.compress().to_bytes() == [b; 32]);
        }
    }
}'''),
 dict(id='serde-trims-zeros', property='C29', needs='a value whose encoding ends in zero bytes',
      breaks='Serialising leaves off trailing zero bytes, so such values cannot be deserialised.',
      edits=[('aeonflux/src/macros.rs', 'serializer.serialize_bytes(&self.to_bytes()[..])', '''let bytes = self.to_bytes();
                let length = bytes.iter().rposition(|b| *b != 0).map_or(0, |i| i + 1);

                serializer.serialize_bytes(&bytes[..length])''')],
      rust=r'''
fn main() {
    let number = PhoneNumber::try_from_bytes(&[1, 2, 3]).unwrap();
    let bytes = bincode::serialize(&number).unwrap();
    assert!(bytes[8..] == number.to_bytes()[..]);
    assert!(bincode::deserialize::<PhoneNumber>(&bytes).unwrap() == number);
}'''),
 dict(id='show-reuses-nonce', property='C30', needs='comparing two commitments of one presentation with the issuer\'s key',
      breaks='The MAC and the attribute of a presentation are blinded by the same nonce, so the issuer can test guesses of the attribute.',
      edits=[(U, 'let zQ: Ephemeral = Ephemeral::new(&mut csprng);', 'let zQ: Ephemeral = nonces[0].clone();')],
      rust=r'''
fn main() {
    let mut rng = seeded(18);
    let p = params();
    let issuer = Issuer::create(p, &mut rng);
    let mut alice = User::new(p, issuer.get_issuer_parameters(), None);
    let m = Scalar::from(9u64);
    let issuance = issuer.issue(&alice.obtain(vec![m]), &mut rng).unwrap();
    alice.obtain_finish(Some(&issuance)).unwrap();
    let shown = alice.show(&Nonces::new(&mut rng, 1), &mut rng).unwrap();
    assert!(issuer.verify(&shown).is_ok());
    let (CQ, C): (RistrettoPoint, RistrettoPoint) = (shown.rerandomized_mac_commitment.into(), shown.attributes_blinded[0].into());
    let key = &issuer.keypair.secret;
    assert!(CQ - C != shown.rerandomized_nonce * (key.x0 + key.xn[0] * m - m));
}'''),
 dict(id='issue-indexes-empty-key', property='C31', needs='an issuer whose keypair is for no attributes',
      breaks='Issuing with such a keypair panics instead of returning an error.',
      edits=[(I, '''        let X1: RistrettoPoint = match self.keypair.public.Xn.get(0) {
            Some(x) => *x,
            None => return Err(CredentialError::NoIssuerParameters),
        };''', '''        let X1: RistrettoPoint = self.keypair.public.Xn[0];''')],
      rust=r'''
fn main() {
    let mut rng = seeded(19);
    let p = params();
    let issuer = Issuer::new(p, amacs::Keypair::from_bytes(&[1; 32].iter().map(|_| 0).collect::<Vec<u8>>()).unwrap());
    let alice = User::new(p, issuer.get_issuer_parameters(), None);
    assert!(issuer.issue(&alice.obtain(vec![Scalar::one()]), &mut rng).is_err());
    assert!(issuer.issue(&alice.obtain(vec![]), &mut rng).is_err());
}'''),
]
