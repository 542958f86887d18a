#!/usr/bin/env python3
"""Writes properties.jsonl (one property per entry of P below)."""
import json, os
A = "aeonflux/src/"; S = "signal-credential/src/"; F = "ffi/src/"
TESTS_SAMPLE = ("The tests run a handful of honest executions with one fixed attribute; ")
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))

prop("C01", "A MAC is created and accepted exactly for its key and message",
     "Creating a MAC on a message of n attributes under a key (x0, x1..xn) yields a pair (P, Q) with P a fresh random multiple of the basepoint and Q = (x0 + sum xi*mi)*P. "
     "Verification accepts a pair for a message if and only if P is not the identity, the message has exactly n attributes, and Q = (x0 + sum xi*mi)*P. "
     "A message with another number of attributes is refused with an error by both, and neither ever panics.",
     ["inputs"], "for every n, key, message, tag and random stream",
     "two unit tests try n=2 with random values; forged tags, other lengths and the identity are never tried, and equality of group elements for all inputs cannot be sampled",
     [A + "amacs.rs"], [("SecretKey::mac", A + "amacs.rs"), ("SecretKey::verify", A + "amacs.rs")],
     [("SecretKey.x0/xn", "the secret exponents", A + "amacs.rs")], ["return values of mac and verify"])

prop("C02", "Rerandomising a tag multiplies both parts by one fresh secret scalar",
     "Rerandomising a tag (P, Q) gives (r*P, r*Q) for one scalar r drawn fresh from the given random number generator for that rerandomisation, so that a valid tag stays valid for the same key and message and an invalid one stays invalid. "
     "All the ways of applying a rerandomisation agree.",
     ["inputs"], "for every tag and every random stream",
     "one test checks one random tag through one of the operator implementations",
     [A + "amacs.rs"], [("Rerandomization::new/apply_to_tag and the Mul impls", A + "amacs.rs")], [("Rerandomization.0", "the scalar r", A + "amacs.rs")],
     ["the returned Tag"])

prop("C03", "Honest issuance is correct and always accepted by the user",
     "For every issuer whose public parameters belong to its key, and every request with one attribute, issuing returns a credential holding exactly the requested attributes, a MAC on exactly those attributes under the issuer's key, and a commitment g*x0 + h*r to the issuer's key under a fresh r. "
     "A user having the same parameters always accepts what is issued (for the Signal types: when it was issued for its own phone number), and then holds exactly the issued credential. "
     "A request with a number of attributes other than the issuer's key supports gets an error.",
     ["inputs"], "for every issuer key, attribute or phone number, and random stream",
     TESTS_SAMPLE + "at the base commit none of these tests compile, and a wrong coefficient or label on a rarely used path, or for other parameters, goes unseen",
     [A + "issuer.rs", A + "user.rs", A + "proofs.rs", S + "issuer.rs", S + "user.rs"],
     [("Issuer::issue", A + "issuer.rs"), ("User::obtain_finish", A + "user.rs"), ("SignalIssuer::issue", S + "issuer.rs"), ("SignalUser::obtain_finish", S + "user.rs")],
     [("CredentialIssuance", "what the issuer sends", A + "credential.rs")], ["returned CredentialIssuance", "User.credential"])

prop("C04", "A user only stores a credential whose issuance proof and number check out",
     "A user stores a credential only if an issuance was given and its proof verifies, under the user's own system and issuer parameters, about exactly the nonce, the MAC and the key commitment contained in that issuance; and a Signal user only if moreover its attributes are exactly the user's own phone number. "
     "In every other case an error is returned and the user's state is unchanged, and the verified statement suffices to conclude that the MAC is one on the issued attributes under the key the proof commits to.",
     ["inputs", "histories"], "for every issuance (honest or malicious), every user state, and every sequence of such calls",
     TESTS_SAMPLE + "no test gives the user a wrong issuance, and the space of malicious issuances cannot be sampled",
     [A + "user.rs", S + "user.rs", A + "proofs.rs"],
     [("User::obtain_finish", A + "user.rs"), ("SignalUser::obtain_finish", S + "user.rs"), ("issuance_revealed statement", A + "proofs_macros.rs")],
     [("User.credential", "the stored credential", A + "user.rs")], ["return value", "User.credential after the call"])

prop("C05", "Every honest presentation of an issued credential is accepted",
     "For every issuer key, every credential with a valid MAC from that issuer, and every choice of randomness, a presentation made by a user with the matching parameters is accepted by the issuer, except if the rerandomised nonce is the identity. "
     "Presenting without a credential, or with the wrong number of attributes, nonces or issuer parameters, is an error and never a panic.",
     ["inputs"], "for every key, attribute, system parameters and random stream",
     TESTS_SAMPLE + "equality of both sides for all keys and randomness, and the error paths, are out of a test's reach",
     [A + "user.rs", A + "issuer.rs", A + "proofs.rs", S + "user.rs", S + "issuer.rs"],
     [("User::show", A + "user.rs"), ("Issuer::verify", A + "issuer.rs"), ("SignalUser::show / SignalIssuer::verify", S)],
     [("CredentialPresentation", "what the user sends", A + "credential.rs")], ["result of verify on the result of show"])

prop("C06", "A presentation reveals the credential only in freshly blinded form",
     "A presentation consists of r*P, r*Q + z'*h, a commitment m*r*P + z*h for each attribute, no revealed attributes, and a proof, where (P, Q) is the credential's MAC and r, z' and z are distinct fresh random scalars. "
     "No other part of it depends on the attributes, the MAC or the user's key except through the responses of the zero-knowledge proofs, which are masked by their own fresh random scalars. "
     "Two presentations never share any of these scalars.",
     ["inputs", "histories"], "for every credential, every random stream and every number of presentations",
     "a test cannot observe that a blinding factor is missing, repeated or predictable: the presentation verifies all the same",
     [A + "user.rs", S + "user.rs", A + "pedersen.rs", A + "nonces.rs", A + "amacs.rs"],
     [("User::show", A + "user.rs"), ("SignalUser::show", S + "user.rs"), ("Nonces::new", A + "nonces.rs")],
     [("CredentialPresentation / SignalCredentialPresentation", "what leaves the user", A + "credential.rs")], ["returned presentation"])

prop("C07", "The issuer accepts only presentations its own key and proof check verify",
     "A presentation is accepted only if its nonce P is not the identity, it has the numbers of revealed and blinded attributes the system uses, and its proof verifies against the issuer's own system and public parameters, the presentation's own P and attribute commitment C, and V = x0*P + x1*C - C_Q computed with the issuer's secret key. "
     "What is returned as verified is exactly the presentation that was checked, and every failure is an error.",
     ["inputs"], "for every presentation, honest or forged, and every issuer key",
     TESTS_SAMPLE + "forged presentations are never tried, and no sample of them shows that none is accepted",
     [A + "issuer.rs", S + "issuer.rs", A + "proofs.rs"],
     [("Issuer::verify", A + "issuer.rs"), ("SignalIssuer::verify", S + "issuer.rs")],
     [("VerifiedCredential", "the typestate of a checked presentation", A + "credential.rs")], ["return value of verify"])

prop("C08", "Verified credentials come only from verification or decoding",
     "A value of the types standing for an already verified credential can be produced only by the issuer's successful verification, by decoding bytes a caller declares to be one, or by copying another. "
     "No other safe code inside or outside these crates can construct one, nor get a mutable reference into one.",
     ["programs"], "for every program using the crates' public interface, and every function within them",
     "tests cannot quantify over programs: an added constructor, a public field or a conversion breaks no test",
     [A + "credential.rs", A + "issuer.rs", S + "credential.rs", S + "issuer.rs"],
     [("VerifiedCredential(pub(crate) ..)", A + "credential.rs"), ("VerifiedSignalCredential(pub(crate) ..)", S + "credential.rs")],
     [("VerifiedCredential.0 / VerifiedSignalCredential.0", "the checked presentation", A + "credential.rs")], ["which functions construct the types"])

prop("C09", "Roster membership is proven and verified about the presented credential",
     "For every roster entry made for the credential's attribute, a verified presentation's roster membership proof is accepted by the issuer. "
     "It is accepted only if it verifies, under the issuer's system parameters, that the roster entry commitment carried in the verified credential and the attribute commitment in that same presentation (relative to its nonce) hold the same value; what is then returned is exactly that roster entry commitment. "
     "Every failure is an error.",
     ["inputs"], "for every presentation, roster entry, key and random stream",
     "no test verifies a roster membership proof at all, let alone with a mismatching entry",
     [S + "user.rs", S + "issuer.rs", A + "proofs.rs", S + "phone_number.rs"],
     [("SignalUser::show", S + "user.rs"), ("SignalIssuer::verify_roster_membership", S + "issuer.rs"), ("committed_values_equal", A + "proofs_macros.rs")],
     [("SignalCredentialPresentation.roster_entry_commitment", "the entry proven about", S + "credential.rs")], ["return value of verify_roster_membership"])

prop("C10", "Every zero-knowledge proof is complete: honest proofs always verify",
     "For each of the five proof systems, whenever the secrets and public values satisfy the declared equations, a proof created for them verifies against the same public values and an identically prepared transcript. "
     "Creating and verifying leave the two transcripts identical, so that further protocol steps may be appended to them.",
     ["inputs"], "for every assignment of secrets and publics satisfying the equations, every randomness and transcript",
     "blind issuance and attribute proofs are never exercised, and the others are only for one honest run",
     [A + "proofs.rs", A + "proofs_macros.rs"], [("Proof::create / Proof::verify of each module", A + "proofs.rs"), ("the create_nipk! declarations", A + "proofs_macros.rs")],
     [("Transcript", "what is hashed", A + "proofs.rs")], ["result of verify on the result of create"])

prop("C11", "Every proof's challenge hashes the whole statement, domain separated",
     "For each of the five proof systems, both when creating and when verifying, the challenge is derived from the caller's transcript after it has absorbed, under distinct labels, a name unique to the proof system, every public value of the statement, and every commitment (in verification: those recomputed from the responses). "
     "Nothing is absorbed after that and before the challenge, the whole 64-byte challenge is used, and the protocols using these proofs start their transcripts with labels distinct from one another.",
     ["inputs"], "for every statement, proof and transcript",
     "omitting a public value from the hash makes proofs malleable or forgeable but lets every honest proof verify",
     [A + "proofs.rs", A + "issuer.rs", A + "user.rs", S + "issuer.rs", S + "user.rs"], [("Proof::create / Proof::verify of each module", A + "proofs.rs"), ("Transcript::new labels", A + "issuer.rs")],
     [("Transcript", "what is hashed", A + "proofs.rs")], ["the transcript operations before the challenge"])

prop("C12", "A proof is accepted only if its recomputed commitments give its challenge",
     "For each of the five proof systems, verification computes, for every declared equation, the sum of each base times its witness's response minus the challenge times the public value, with the same response wherever the same witness occurs. "
     "It returns success if and only if the challenge hashed from these equals the challenge in the proof, in full.",
     ["inputs"], "for every proof and every public value, honest or forged",
     "tests only ever verify honest proofs, so a verifier that skips or weakens an equation passes them",
     [A + "proofs.rs", A + "proofs_macros.rs"], [("Proof::verify of each module", A + "proofs.rs"), ("the create_nipk! declarations", A + "proofs_macros.rs")],
     [("Proof.challenge / Proof.responses", "the proof", A + "proofs.rs")], ["return value of verify"])

prop("C13", "Each secret in a proof is masked by its own fresh unpredictable scalar",
     "For each of the five proof systems, the response for each secret is challenge*secret + blinding, where each blinding is a separate draw from a generator keyed by the transcript of the full statement and by every secret, and reseeded from the operating system's randomness. "
     "The same blinding is used in the commitments for that secret and nowhere else, and neither secrets nor blindings appear in the proof otherwise.",
     ["inputs", "histories"], "for every secret, statement, transcript and sequence of proofs",
     "reused or predictable blindings reveal the secrets but every such proof verifies",
     [A + "proofs.rs"], [("Randomnesses and transcript_rng in Proof::create", A + "proofs.rs")], [("Randomnesses", "the blindings", A + "proofs.rs")],
     ["Proof.responses as a function of secrets and randomness"])

prop("C14", "Pedersen commitments are value + nonce*base and open to exactly that",
     "Committing to a value under a nonce and a basepoint gives value + nonce*basepoint, and opening succeeds if and only if the commitment equals value + nonce*basepoint for the value, nonce and basepoint given. "
     "The operations on commitments (conversion, scaling and subtraction) act on the committed group element itself.",
     ["inputs"], "for every value, nonce and basepoint",
     "one good and one bad opening are tried",
     [A + "pedersen.rs"], [("Commitment::to / Commitment::open", A + "pedersen.rs")], [("Commitment.0", "the group element", A + "pedersen.rs")], ["return values"])

prop("C15", "ElGamal decrypts what was encrypted and adds homomorphically",
     "For every keypair, whether generated or derived from its secret, the public key is the secret times the basepoint; decrypting an encryption of a message made with that public key and any nonce gives the message; and a ciphertext is (nonce*basepoint, message + nonce*public key). "
     "The sum of two ciphertexts decrypts to the sum of their messages, and a scalar's message is that scalar times the basepoint.",
     ["inputs"], "for every secret, message and nonce",
     "one test with the message equal to the nonce's own commitment; addition is never tested",
     [A + "elgamal.rs", S + "phone_number.rs"], [("PublicKey::encrypt", A + "elgamal.rs"), ("SecretKey::decrypt", A + "elgamal.rs"), ("Encryption::add", A + "elgamal.rs"), ("PhoneNumber::encrypt", S + "phone_number.rs")],
     [("Encryption", "the ciphertext", A + "elgamal.rs")], ["return values"])

prop("C16", "Distinct phone numbers have distinct encodings, and encoding is reversible",
     "The two constructors map a phone number of 1 to 26 digits to the scalar whose bytes are 15, 15, the digits in order, 15, 15, their count, and zeros, without any reduction, so distinct numbers (leading zeros included) give distinct scalars. "
     "Every other length, and (for strings) every string with a character other than an ASCII digit, is an error and never a panic. "
     "Converting a number made from a string back to a string gives that string.",
     ["inputs"], "for every byte string and every string, of every length",
     "tests try two numbers; distinctness over all inputs is not testable",
     [S + "phone_number.rs"], [("PhoneNumber::try_from_string / try_from_bytes", S + "phone_number.rs"), ("String::from(PhoneNumber)", S + "phone_number.rs")],
     [("PhoneNumber.0", "the encoded scalar", S + "phone_number.rs")], ["return values"])

prop("C17", "A roster entry commits to its phone number and opens only to it",
     "Creating a roster entry for a phone number gives the commitment number*h + opening*g with a fresh random opening, stored along with it. "
     "Opening an entry succeeds if and only if the given bytes are an acceptable phone number and the commitment equals number*h + opening*g for it; everything else is an error, never a panic.",
     ["inputs"], "for every phone number, entry, system parameters and random stream",
     "no test opens a roster entry",
     [S + "phone_number.rs"], [("RosterEntryCommitment::create / open", S + "phone_number.rs"), ("CommittedPhoneNumber::from_phone_number / open", S + "phone_number.rs")],
     [("RosterEntryCommitment.opening", "the nonce", S + "phone_number.rs")], ["return values"])

prop("C18", "Decoding untrusted bytes never panics",
     "Decoding any type of the two crates from any byte string whatsoever returns a value or an error, and never panics or reads out of bounds. "
     "The same holds for the deserialisers built on top of the decoders.",
     ["inputs"], "for every byte string of every length, for every type with a decoder",
     "tests only decode the bytes of valid values, or one invalid string of the right length",
     [A + "amacs.rs", A + "credential.rs", A + "elgamal.rs", A + "issuer.rs", A + "parameters.rs", A + "pedersen.rs", A + "user.rs", S + "credential.rs", S + "issuer.rs", S + "phone_number.rs", S + "user.rs"],
     [("from_bytes of every type", A), ("impl_serde_with_to_bytes_and_from_bytes!", A + "macros.rs")], (), ["return of from_bytes"])

prop("C19", "Decoders accept only the canonical encoding",
     "Whenever decoding a byte string yields a value, encoding that value gives back exactly the same byte string. "
     "So no decoder ignores trailing or missing bytes, accepts unreduced scalars or non-canonical points, or drops a part of the input.",
     ["inputs"], "for every byte string and every type with a decoder and an encoder",
     "tests never decode a non-canonical string; there are 2^256 of them per field",
     [A + "amacs.rs", A + "credential.rs", A + "elgamal.rs", A + "issuer.rs", A + "parameters.rs", A + "pedersen.rs", A + "user.rs", S + "credential.rs", S + "issuer.rs", S + "phone_number.rs", S + "user.rs"],
     [("from_bytes / to_bytes of every type", A)], (), ["to_bytes(from_bytes(b))"])

prop("C20", "Encoding then decoding gives back the same value",
     "For every type of the two crates with an encoder and a decoder, decoding the encoding of a well-formed value (non-degenerate system parameters; MAC keys and requests for any number of attributes, everything else for the system's; in a user no key or credential that is encoded as zeros only, which stands for none) succeeds and gives a value equal to it in every part. "
     "Encoding never panics for such a value.",
     ["inputs"], "for every well-formed value of every type",
     "six types have a round-trip test on one value each",
     [A + "amacs.rs", A + "credential.rs", A + "elgamal.rs", A + "issuer.rs", A + "parameters.rs", A + "pedersen.rs", A + "user.rs", S + "credential.rs", S + "issuer.rs", S + "phone_number.rs", S + "user.rs"],
     [("from_bytes / to_bytes of every type", A)], (), ["from_bytes(to_bytes(x))"])

prop("C21", "All declared lengths agree with what is actually encoded",
     "Every length constant that the crates, the FFI and the C header declare for a type equals the number of bytes its encoder produces for every well-formed value, and equals the length its decoder requires. "
     "The constants for attribute numbers agree between the crates.",
     ["inputs", "configurations"], "for every type, every well-formed value, and every place declaring a length",
     "the header is never compiled by a test, and the constants are compared only in FFI tests which do not run at the base commit",
     [A + "credential.rs", A + "amacs.rs", A + "elgamal.rs", A + "parameters.rs", A + "pedersen.rs", S + "credential.rs", S + "phone_number.rs", F + "c.rs", F + "include/credential.h"],
     [("SIZEOF_* constants", A), ("LENGTH_* constants", F + "c.rs"), ("LENGTH_* in the header", F + "include/credential.h")], (), ["length of to_bytes"])

prop("C22", "Key material and nonces are wiped when dropped",
     "When an issuer secret key, an ElGamal secret key, an ephemeral nonce, a vector of nonces, or a rerandomisation goes out of scope, every secret scalar it holds is first overwritten. "
     "This happens on every path through its destructor and for every length.",
     ["inputs"], "for every value, of every length, and every path that drops it",
     "memory contents after a drop are not observable by a safe test",
     [A + "amacs.rs", A + "elgamal.rs", A + "nonces.rs"], [("impl Drop for SecretKey, elgamal::SecretKey, Ephemeral, Nonces, Rerandomization", A)],
     [("the Scalars in these types", "secrets", A)], ["the memory when drop returns"])

prop("C23", "Control flow and variable-time arithmetic do not depend on secrets",
     "No branch, memory index, division or variable-time group operation in the crates' own code depends on a secret scalar: the issuer's key, ElGamal secrets, attributes and nonces of a user, rerandomisation scalars, or the blindings and secrets of the proofs. "
     "The only exceptions are converting a phone number to and from its readable form, derived comparison and formatting, whether a comparison of group elements succeeded, and comparisons of whole scalars in constant time one outcome of which only leads to a refusal.",
     ["inputs"], "for every secret value and every path of the operations on them",
     "tests do not measure time",
     [A + "amacs.rs", A + "elgamal.rs", A + "issuer.rs", A + "nonces.rs", A + "pedersen.rs", A + "proofs.rs", A + "user.rs", S + "phone_number.rs", S + "user.rs"],
     [("multiscalar_mul (not vartime_) on secrets", A + "proofs.rs"), ("constant-time equality of dalek types", A + "amacs.rs")], (), ["branch conditions and operands in MIR"])

prop("C24", "Buffers returned over the C interface are valid and owned by the caller",
     "Every successful call of the C interface returns a length and a pointer to that many initialised bytes, in memory that stays valid and unchanged until it is released exactly once with the interface's own release function, which frees exactly that memory. "
     "A failed call returns length zero and a null pointer, and no input buffer is read beyond its given length, written to, or kept.",
     ["inputs", "histories"], "for every call, and every sequence of calls and releases",
     "reading freed memory usually seems to work in a test",
     [F + "c.rs", F + "macros.rs"], [("slice_to_len_and_ptr! / zero_len_and_ptr! / len_and_ptr_to_slice!", F + "macros.rs"), ("buf_free", F + "c.rs")],
     [("buf_t", "length and pointer", F + "c.rs")], ["the returned buf_t"])

prop("C25", "No input makes a call over the C interface panic",
     "Whatever bytes, lengths and null pointers a caller passes (a non-null pointer being readable for its length), no function of the C interface unwinds or aborts. "
     "Null pointers and zero lengths are answered with the failure value.",
     ["inputs"], "for every argument of every exported function",
     "tests pass only valid arguments",
     [F + "c.rs", F + "macros.rs"], [("ok_or_return! / len_and_ptr_to_slice! / uint8_to_array!", F + "macros.rs")], (), ["exported functions"])

prop("C26", "Each C function performs exactly the operation it names on its arguments",
     "Each exported function decodes each argument from exactly the bytes passed for it, performs the corresponding operation of the credential library with the arguments in the right roles and with randomness seeded by exactly the given 32-byte seed, and returns exactly the encoding of the result. "
     "Any decoding error or refusal by the library is answered with the failure value, never with a success.",
     ["inputs"], "for every argument of every exported function",
     "FFI tests check only that some output of the right length comes back, and do not check error paths",
     [F + "c.rs", F + "macros.rs"], [("the exported extern \"C\" functions", F + "c.rs")], (), ["the bytes behind the returned buf_t"])

prop("C27", "The C header declares exactly what the library exports",
     "Every function, structure and length constant declared in the C header exists in the library with the same name, parameters in the same order and of the same types, and the same result, field layout or value; and every function the library exports is declared.",
     ["programs"], "for every C or Swift program compiled against the header",
     "no test compiles the header against the library",
     [F + "c.rs", F + "include/credential.h"], [("#[no_mangle] extern \"C\" functions and buf_t", F + "c.rs"), ("prototypes", F + "include/credential.h")], (), ["prototypes and signatures"])

prop("C28", "System parameters are always two distinct non-identity generators",
     "Every way of obtaining system parameters (generating them, converting a point or compressed point, or decoding) yields g and h with h neither the identity nor equal to g and g not the identity, where generating and converting use the basepoint for g. "
     "A generated h is decompressed from bytes of the given random number generator, so its discrete logarithm is known to nobody; degenerate or invalid inputs are refused in every build configuration.",
     ["inputs", "configurations"], "for every input and random stream, in debug and release builds",
     "tests never give a degenerate h; debug-only assertions vanish in release builds",
     [A + "parameters.rs"], [("SystemParameters::hunt_and_peck, from_bytes, From impls", A + "parameters.rs")], [("SystemParameters.g/h", "the generators", A + "parameters.rs")], ["returned SystemParameters"])

prop("C29", "Serde serialisation carries exactly the encoded bytes and reports errors",
     "Serialising any of the types hands the serialiser exactly the bytes of its encoding; deserialising accepts both a byte string and a sequence of bytes, hands exactly these bytes to the decoder, and returns its value, or an error if the decoder fails.",
     ["inputs"], "for every value, every data format and every input",
     "only binary formats are used in tests, and never with malformed inputs",
     [A + "macros.rs", S + "credential.rs"], [("impl_serde_with_to_bytes_and_from_bytes!", A + "macros.rs")], (), ["calls on the Serializer / results of the Visitor"])

prop("C30", "Every key and nonce is drawn fresh from the caller's or a reseeded generator",
     "Each secret key component, nonce, blinding, opening and rerandomisation scalar the library generates is its own full-width draw from the random number generator passed by the caller, or from a transcript generator reseeded from it or from the operating system. "
     "No such scalar is constant, derived from public data alone, or drawn once and used for two purposes.",
     ["inputs", "histories"], "for every operation that generates a secret, every random stream",
     "a test cannot tell a constant or repeated nonce from a random one without looking inside",
     [A + "amacs.rs", A + "elgamal.rs", A + "issuer.rs", A + "nonces.rs", A + "user.rs", S + "phone_number.rs", S + "user.rs"],
     [("Scalar::random and reseed_from_rng calls", A)], (), ["provenance of the scalars"])

prop("C31", "Protocol operations return errors instead of panicking",
     "Creating users and issuers, requesting, issuing, accepting, presenting, verifying, and opening roster entries never panic, for whatever values of their public argument types a caller can construct, including wrong numbers of attributes, nonces or key components, and missing credentials. "
     "The unimplemented blind issuance request, direct indexing operators, and constructing system parameters from chosen points or seeds are excepted; checking roster membership is covered for every value that verifying or decoding a presentation can give.",
     ["inputs"], "for every value of every argument type",
     "tests use well-formed values only",
     [A + "amacs.rs", A + "issuer.rs", A + "user.rs", A + "proofs.rs", S + "issuer.rs", S + "user.rs", S + "phone_number.rs"],
     [("length checks at the start of Issuer::verify, User::show, Issuer::issue", A)], (), ["all paths of the operations"])

prop("C32", "The JavaScript interface performs the named operations and reports failures",
     "Each function exported to JavaScript decodes its arguments, performs the corresponding operation of the credential library with the arguments in the right roles and with randomness seeded by exactly the given seed, and returns the encoding of the result, or true or false for a check. "
     "A wrong seed length, an undecodable argument, or a refusal by the library is answered with 0 (or false), never with a success or a panic.",
     ["inputs"], "for every argument of every exported function",
     "the wasm crate has no tests and is not built here",
     ["wasm/src/js.rs"], [("ok_or_return! / ok_or_false! / slice_to_array!", "wasm/src/js.rs"), ("#[wasm_bindgen] functions", "wasm/src/js.rs")], (), ["returned JsValue"])

prop("C33", "Credentials are unforgeable and presentations unlinkable",
     "No efficient adversary without the issuer's key can make the issuer accept a presentation it did not issue a credential for, nor can the issuer link a presentation to an issuance or another presentation.",
     ["inputs", "histories"], "for every efficient adversary and every history of issuances and presentations",
     "the claim is about all efficient adversaries and computational hardness assumptions",
     [A + "amacs.rs", A + "user.rs", A + "issuer.rs", A + "proofs.rs"], [("the whole protocol", A)], (), ["protocol messages"])

prop("C34", "Compiled code runs in constant time and leaves no copies of secrets",
     "On the target hardware the running time of operations on secrets is independent of them, and no copy of a secret remains in memory, registers or swap after it has been wiped.",
     ["inputs", "configurations"], "for every secret, compiler version and processor",
     "timing and residual copies are properties of generated code and hardware",
     [A + "amacs.rs", A + "proofs.rs", A + "nonces.rs"], [("clear_on_drop, dalek's constant-time arithmetic", A)], (), ["machine code and memory"])

prop("C35", "The Swift wrappers pass the C interface the right buffers and lengths",
     "Each Swift initialiser and method passes the C function it wraps the bytes of the objects and arguments of the right roles, each with exactly their number, and only seeds of 32 bytes. It fails exactly when a seed, the bytes given, or what the C function returns has another length than declared (so whenever the C function fails); else it holds or returns the copied result. Each buffer is released exactly once, after its last use; nothing else is changed, and nothing traps.",
     ["inputs"], "for every Swift value and call",
     "there are no Swift tests that run here",
     ["swift/Credential/Credential.swift"], [("takeBytes and the guards of the initialisers", "swift/Credential/Credential.swift")], (), ["calls of the C functions", "return values"])

prop("C36", "Constructors and accessors give exactly the parts they were given",
     "Generating a MAC key gives a secret with one part for each attribute besides x0, and the public key of a secret x0, x1..xn under h is exactly X1 = x1*h, .., Xn = xn*h, in this order and number; a new keypair or issuer is for the system's number of attributes and its public key belongs to its secret key under the h it was given. "
     "Issuers and users made from parts hold exactly these parts, a new user no credential, a request exactly the given attributes, an issuer publishes its own public key, and the length of a key is the number of its parts; a Signal user is made exactly when the given bytes are a phone number, and has that number.",
     ["inputs"], "for every argument, and for keys of every number of parts",
     "tests use keys for two or one attribute and compare none of the parts",
     [A + "amacs.rs", A + "issuer.rs", A + "user.rs", S + "issuer.rs", S + "user.rs"],
     [("SecretKey::get_public_key, Keypair::new", A + "amacs.rs"), ("Issuer::new/create/get_issuer_parameters", A + "issuer.rs"), ("User::new/obtain", A + "user.rs"), ("SignalUser::new", S + "user.rs")],
     (), ["return values"])

prop("C37", "Nonces, conversions and indexing give the value they stand for",
     "Multiplying, adding or negating nonces gives the result of the same operation on their scalars (or of a group element and the scalar); converting between numbers, scalars, messages, keys, nonces and ciphertexts keeps the contents, a scalar's ElGamal message and a secret's public key being its multiple of the basepoint. "
     "Iterating over nonces gives each in order; indexing nonces, a message or a phone number gives the element at the index and panics only past the end; encrypting a phone number z-times-blinded for a public key Y gives (z*basepoint, number*basepoint + z*Y).",
     ["inputs"], "for every value, rows of every length and every index",
     "operators and conversions are used in tests with one element only, and indices never at the ends",
     [A + "nonces.rs", A + "elgamal.rs", A + "amacs.rs", S + "phone_number.rs"],
     [("impl Mul/Neg for Ephemeral and Nonces", A + "nonces.rs"), ("From impls", A + "elgamal.rs"), ("Index impls", A + "amacs.rs")],
     (), ["return values"])

prop("C38", "Keys, credentials and messages have fixed byte formats",
     "Every encoder gives, byte for byte, the concatenation of the encodings of the parts of the value in their fixed order: 32 bytes for a group element (compressed) or a scalar (little-endian), zeros in place of an absent key or credential, no lengths or tags, and in a zero-knowledge proof 8 bytes with the length 32 before each scalar. "
     "Values stored or sent by one version are therefore read as the same values by another.",
     ["inputs"], "for every value of every type, options present and absent",
     "round-trip tests pass when encoder and decoder change together",
     [A + "amacs.rs", A + "credential.rs", A + "elgamal.rs", A + "issuer.rs", A + "parameters.rs", A + "user.rs", A + "proofs.rs", S + "credential.rs", S + "issuer.rs", S + "phone_number.rs", S + "user.rs"],
     [("to_bytes of every type", A)], (), ["to_bytes(x)"])

prop("C39", "Comparing and copying look at every part of a value",
     "Two values of a type compare equal exactly when every part of them is equal, in every variant and for rows of every length, and unequal exactly otherwise; a copy made by clone is equal to the original in every part. Neither ever panics.",
     ["inputs"], "for every pair of values of every type with Clone or PartialEq",
     "assertions in tests compare equal values only, so a comparison that ignores a part goes unnoticed",
     [A + "amacs.rs", A + "credential.rs", A + "elgamal.rs", A + "issuer.rs", A + "nonces.rs", A + "user.rs", S + "credential.rs", S + "phone_number.rs", S + "user.rs"],
     [("derived and written PartialEq and Clone impls", A)], (), ["results of eq, ne and clone"])

prop("C40", "Operations depend only on arguments and randomness, and print no secrets",
     "Nothing but its arguments and the random numbers drawn influences what an operation does: no mutable global or thread-local state, clock, environment, file, network or foreign function; and it has no effect besides its result, what it is given to change, and diagnostic messages. "
     "No message printed contains a secret scalar, a part of a phone number, or bytes a secret value is made or decoded from. The operating system's randomness is used by the creation of proofs only.",
     ["inputs", "histories", "configurations"], "for every operation and every history of calls, with and without the standard library",
     "a test sees one call in one process and does not read what is printed; messages are only built with the feature std",
     [A + "macros.rs", A + "parameters.rs", A + "proofs.rs", S + "credential.rs", S + "phone_number.rs", F + "macros.rs", F + "c.rs", "wasm/src/js.rs"],
     [("println! under the feature std", A), ("thread_rng in Proof::create", A + "proofs.rs")], (), ["calls leaving the crates", "values formatted"])

prop("C41", "The JavaScript glue hands every call to the export of its name and leaks nothing",
     "Each function which the script wasm/src/credential.js gives its users calls the WebAssembly export of the same name exactly once, with the user's arguments in order: a byte array as the address and length of a copy of exactly its bytes, anything else as a reference under which the module finds that value. It returns the value whose reference the export gave, or lets a trap through; it releases each copy once, with its length, after the call, also when the export traps; and when it returns, no more and no fewer references are in use than before. "
     "What the script gives the module does what its name says, on the memory as it is at that moment, though it may be replaced by every call: text of a value to memory and back, a number, dropping a reference, an error thrown. Starting hands the module fetched from the given path the imports it asks for. The declaration file and the compiled module declare the functions of the Rust source with their arguments.",
     ["inputs", "histories"], "for every argument, every result of the module, any growth of its memory and any history of calls",
     "no test runs the script; stale memory and lost references only show after long use",
     ["wasm/src/credential.js", "wasm/src/credential.d.ts", "wasm/src/js.rs"],
     [("the exported functions, addHeapObject, dropRef, getUint8Memory", "wasm/src/credential.js")], (), ["calls of the module's exports", "return values", "the table of references"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
