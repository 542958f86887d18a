A, C, I, U = 'aeonflux/src/amacs.rs', 'aeonflux/src/credential.rs', 'aeonflux/src/issuer.rs', 'aeonflux/src/user.rs'
P, G, PE, EG = 'aeonflux/src/proofs.rs', 'aeonflux/src/parameters.rs', 'aeonflux/src/pedersen.rs', 'aeonflux/src/elgamal.rs'
N = 'aeonflux/src/nonces.rs'
SC, SI, SU, PN = ['signal-credential/src/%s.rs' % x for x in ('credential', 'issuer', 'user', 'phone_number')]
FC, FM = 'ffi/src/c.rs', 'ffi/src/macros.rs'
COUNT = r'''#!/bin/bash
# Builds the program beside this file and compares the instructions it executes for different secrets.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
D=/repo/target/signal-credential/debug/deps
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
lib() {
    for f in $(ls -t $D/lib$1-*.rlib); do
        if [ -z "$2" ] || grep -q "vendor/$3-$2" "$D/$(basename "$f" .rlib | sed s/^lib//).d"; then echo "$f"; return; fi
    done
}
cd "$tmp" || exit 2
if ! rustc --edition 2015 -A warnings -L dependency=$D \
    --extern signal_credential=$(lib signal_credential) --extern aeonflux=$(lib aeonflux) \
    --extern curve25519_dalek=$(lib curve25519_dalek) --extern merlin=$(lib merlin) --extern bincode=$(lib bincode) \
    --extern rand=$(lib rand 0.5 rand) --extern rand_core=$(lib rand_core 0.2 rand_core) --extern serde=$(lib serde) \
    --extern serde_json=$(lib serde_json) --extern sha2=$(lib sha2) \
    -o "$tmp/demo" "$here/demo.rs" 2> "$tmp/log"; then
    cat "$tmp/log" >&2
    exit 1
fi
count() {
    timeout 120 valgrind --tool=callgrind --callgrind-out-file="$tmp/out" --collect-atstart=no --toggle-collect='*measured*' \
        "$tmp/demo" $1 > "$tmp/log" 2>&1 || { cat "$tmp/log" >&2; exit 3; }
    sed -n 's/.*Collected : \([0-9]*\).*/\1/p' "$tmp/log"
}
a=$(count 0) || exit 3
b=$(count 1) || exit 3
echo "$a and $b instructions"
[ -n "$a" ] && [ -n "$b" ] && [ "$a" -gt 1000 ] || exit 3
d=$((a > b ? a - b : b - a))
[ $((d * 1000)) -lt $((a * %(mille)d)) ]
'''
BUGS = [
 dict(id='public-key-stops-at-sixteen', property='C36', needs='a key for more than sixteen attributes',
      breaks='The public key of a secret key has no parts for the attributes after the sixteenth.',
      edits=[(A, 'for xi in self.xn.iter() {\n            Xn.push(h * xi);', 'for xi in self.xn.iter().take(16) {\n            Xn.push(h * xi);')],
      rust=r'''
fn main() {
    let h = params().h;
    for n in 1..20 {
        let key = amacs::SecretKey::new(n, &mut seeded(1));
        let public = key.get_public_key(&h);
        assert_eq!(public.len(), n);
        assert_eq!(key.to_bytes().len(), 32 + 32 * n);
    }
}'''),
 dict(id='request-drops-trailing-zeros', property='C36', needs='a request whose last attribute is zero',
      breaks='Attributes which are zero are removed from the end of a request.',
      edits=[(U, '''        CredentialRequest {
            attributes_revealed,''', '''        let mut attributes_revealed = attributes_revealed;

        while attributes_revealed.last() == Some(&::curve25519_dalek::scalar::Scalar::zero()) {
            attributes_revealed.pop();
        }
        CredentialRequest {
            attributes_revealed,''')],
      rust=r'''
fn main() {
    let p = params();
    let issuer = Issuer::create(p, &mut seeded(2));
    let alice = User::new(p, issuer.get_issuer_parameters(), None);
    for a in &[vec![Scalar::one()], vec![Scalar::zero()], vec![Scalar::one(), Scalar::zero()]] {
        assert!(alice.obtain(a.clone()).attributes_revealed == *a);
    }
}'''),
 dict(id='nonces-index-wraps', property='C37', needs='an index past the end of the nonces',
      breaks='Indexing nonces past their end silently gives an earlier nonce, so that one nonce is used for two attributes.',
      edits=[(N, '&self.0[idx]', '&self.0[idx % self.0.len()]')],
      rust=r'''
fn main() {
    let n = Nonces::new(&mut seeded(3), 2);
    let (a, b): (&Scalar, &Scalar) = ((&n[0]).into(), (&n[1]).into());
    assert!(a != b);
    let r = std::panic::catch_unwind(|| { let x: &Scalar = (&n[2]).into(); *x });
    assert!(r.is_err());
}'''),
 dict(id='elgamal-keypair-format', property='C38', needs='a keypair encoded by another version; encoder and decoder changed together',
      breaks='ElGamal keypairs are encoded with the public key first, so stored keypairs are refused or read wrongly.',
      edits=[(EG, '''        let secret = SecretKey::from_bytes(&bytes[00..32])?;
        let public = PublicKey::from_bytes(&bytes[32..64])?;''', '''        let public = PublicKey::from_bytes(&bytes[00..32])?;
        let secret = SecretKey::from_bytes(&bytes[32..64])?;'''),
             (EG, '''        v.extend(self.secret.to_bytes());
        v.extend(self.public.to_bytes());''', '''        v.extend(self.public.to_bytes());
        v.extend(self.secret.to_bytes());''')],
      rust=r'''
fn main() {
    let k = elgamal::Keypair::generate(&mut seeded(4));
    let mut v = k.secret.to_bytes();
    v.extend(k.public.to_bytes());
    assert_eq!(k.to_bytes(), v);
    assert!(elgamal::Keypair::from_bytes(&v).is_ok());
}'''),
 dict(id='credential-equality-prefix', property='C39', needs='credentials with the same MAC one of which has more attributes',
      breaks='Credentials compare equal when the attributes of one are only the first of the other\'s.',
      edits=[(C, '''#[derive(Clone, Debug, Eq, PartialEq)]
#[repr(C)]
pub struct Credential {''', '''impl PartialEq for Credential {
    fn eq(&self, other: &Credential) -> bool {
        self.mac == other.mac &&
            self.attributes.iter().zip(other.attributes.iter()).all(|(a, b)| a == b)
    }
}

#[derive(Clone, Debug, Eq)]
#[repr(C)]
pub struct Credential {''')],
      rust=r'''
fn main() {
    let mut rng = seeded(5);
    let key = amacs::SecretKey::new(1, &mut rng);
    let mac = key.mac(&amacs::Message::from(Scalar::one()), &mut rng).unwrap();
    let a = Credential { mac: mac.clone(), attributes: vec![Scalar::one()] };
    let b = Credential { mac: mac.clone(), attributes: vec![Scalar::one(), Scalar::one()] };
    let c = Credential { mac: mac.clone(), attributes: vec![] };
    assert!(a == a.clone() && a != b && a != c && b != c);
}'''),
 dict(id='mac-skips-zero-attributes', property='C23', needs='measuring how long creating a MAC on attributes which are zero takes',
      breaks='Creating a MAC branches on whether each secret attribute is zero, so the time taken tells.',
      edits=[(A, '''        for (xi, mi) in self.xn.iter().zip(message.0.iter()) {
            exponent += xi * mi;
        }''', '''        for (xi, mi) in self.xn.iter().zip(message.0.iter()) {
            if *mi == Scalar::zero() {
                continue;
            }
            exponent += xi * mi;
        }''')],
      count=20, rust=r'''
#[inline(never)]
fn measured(key: &amacs::SecretKey, m: &amacs::Message) -> amacs::Tag { key.mac(m, &mut seeded(7)).unwrap() }
fn main() {
    let n = 300;
    let key = amacs::SecretKey::new(n, &mut seeded(6));
    let x = if std::env::args().nth(1) == Some("1".to_string()) { Scalar::zero() } else { Scalar::random(&mut seeded(8)) };
    let m = amacs::Message::from(vec![x; n]);
    measured(&key, &m);
}'''),
 dict(id='decrypt-in-variable-time', property='C23', needs='measuring how long decrypting with different secret keys takes',
      breaks='ElGamal decryption multiplies by the secret key in variable time.',
      edits=[(EG, '        let secret: RistrettoPoint = &encryption.commitment * &self.0;\n', '''        use curve25519_dalek::traits::VartimeMultiscalarMul;

        let secret = RistrettoPoint::vartime_multiscalar_mul(&[self.0], &[encryption.commitment]);
''')],
      count=20, rust=r'''
#[inline(never)]
fn measured(k: &elgamal::SecretKey, e: &elgamal::Encryption) -> RistrettoPoint { k.decrypt(e) }
fn main() {
    let k = elgamal::Keypair::generate(&mut seeded(1));
    let mut bytes = [0u8; 32];
    bytes[31] = 8;
    let s = if std::env::args().nth(1) == Some("1".to_string()) { bytes.to_vec() } else { k.secret.to_bytes() };
    let m = elgamal::Message::from(&Scalar::one());
    let e = k.public.encrypt(&m, &Ephemeral::new(&mut seeded(2)));
    measured(&elgamal::SecretKey::from_bytes(&s).unwrap(), &e);
}'''),
 dict(id='ffi-length-truncated', property='C26', needs='a length of 4 GiB or more',
      breaks='Lengths are cut to 32 bits, so an argument with a wrong length is decoded from its first bytes instead of refused.',
      edits=[(FM, 'unsafe { slice::from_raw_parts($ptr, $len as size_t) } // XXX', 'unsafe { slice::from_raw_parts($ptr, $len as u32 as size_t) } // XXX')],
      c=r'''
#include <stdint.h>
#include <sys/types.h>
#include <stdio.h>
#include <string.h>
#include "credential.h"
int main() {
    uint8_t seed[32];
    memset(seed, 7, 32);
    buf_t p = system_parameters_create(seed);
    if (!p.ptr) return 2;
    buf_t k = issuer_create(p.ptr, p.len, seed);
    if (!k.ptr) return 3;
    buf_t i = issuer_create(p.ptr, p.len + (1ULL << 32), seed);
    return i.ptr == NULL && i.len == 0 ? 0 : 1;
}'''),
 dict(id='ffi-wipes-seed', property='C24', needs='a caller that looks at its seed, or keeps it in read-only memory, after a call',
      breaks='The C interface overwrites the caller\'s constant seed buffer.',
      edits=[(FM, '        SignalRng::from_seed(seed_array)\n', '''        // Don't leave the seed lying around.
        for i in 0..LENGTH_SEED {
            unsafe { *($seed as *mut uint8_t).offset(i as isize) = 0; }
        }
        SignalRng::from_seed(seed_array)
''')],
      c=r'''
#include <stdint.h>
#include <sys/types.h>
#include <string.h>
#include "credential.h"
int main() {
    uint8_t seed[32], copy[32];
    memset(seed, 7, 32);
    memcpy(copy, seed, 32);
    buf_t p = system_parameters_create(seed);
    return p.ptr && !memcmp(seed, copy, 32) ? 0 : 1;
}'''),
 dict(id='prints-rejected-phone-number', property='C40', needs='reading what is printed when a phone number with a character that is no digit is given',
      breaks='A phone number that cannot be converted is printed.',
      edits=[(PN, '''                _  => return Err(PhoneNumberError::InvalidPhoneNumber),
            };
        }
        // Suffix''', '''                _  => {
                    #[cfg(feature = "std")]
                    println!("Not a phone number: {}", source);

                    return Err(PhoneNumberError::InvalidPhoneNumber);
                },
            };
        }
        // Suffix''')],
      rust=r'''
fn main() {
    if std::env::args().nth(1).is_some() {
        assert!(PhoneNumber::try_from_string(&"14155551234x".to_string()).is_err());
        return;
    }
    let me = std::env::current_exe().unwrap();
    let o = std::process::Command::new(me).arg("x").output().unwrap();
    let s = String::from_utf8_lossy(&o.stdout).to_string() + &String::from_utf8_lossy(&o.stderr);
    assert!(o.status.success() && !s.contains("4155551234"));
}'''),
 dict(id='mac-failure-remembered', property='C40', needs='verifying a MAC for a wrong message or key and then the same MAC for the right ones',
      breaks='The last MAC that did not verify is remembered in a static and refused afterwards for any message and key.',
      edits=[(A, """        let mut exponent = self.x0;
""", """        static mut LAST: [u8; 64] = [0u8; 64];

        let bytes = mac.to_bytes();

        if unsafe { LAST[..] == bytes[..] } {
            return Err(MacError::AuthenticationError);
        }
        let mut exponent = self.x0;
"""), (A, """            Ok(())
        } else {
            Err(MacError::AuthenticationError)""", """            Ok(())
        } else {
            unsafe { LAST.copy_from_slice(&bytes); }
            Err(MacError::AuthenticationError)""")],
      rust=r"""
fn main() {
    let mut rng = seeded(9);
    let (key, other) = (amacs::SecretKey::new(1, &mut rng), amacs::SecretKey::new(1, &mut rng));
    let m = amacs::Message::from(Scalar::one());
    let mac = key.mac(&m, &mut rng).unwrap();
    assert!(key.verify(&mac, &m).is_ok());
    assert!(other.verify(&mac, &m).is_err());
    assert!(key.verify(&mac, &m).is_ok());
}"""),
]
for b in BUGS:
    if 'count' in b:
        b['sh2'] = COUNT % {'mille': b.pop('count')}
        b.pop('sh', None)
