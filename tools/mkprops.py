#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator only so that the text is readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=None)))

A = "aeonflux/src/"; S = "signal-credential/src/"; F = "ffi/src/"

p("C01", "Honest issuance, presentation and roster proof always succeed",
  """For every valid phone number, system parameters, issuer key and randomness, a user who honestly obtains a credential
  can show it any number of times, against any roster entry for the same number, and the issuer accepts both the presentation and the
  roster membership proof, returning exactly the presented roster entry commitment. This holds in any interleaving of users, issuers,
  re-issuances and repeated shows or verifications, however many there are, in threads running at the same time, and whether or not each object is serialised and restored between any two steps.""",
  ["histories", "inputs"], """All finite histories of create-issuer, restore-issuer, create-user, issue, obtain, re-obtain, create-roster-entry, show,
  verify and prove-membership over several users, issuers and parameter sets, with a serialisation round trip inserted anywhere.""",
  """The tests run one straight-line history with one or two fixed 11-digit numbers, never re-issue, never restore an issuer or a user in mid
  protocol and then carry on with it.""",
  [A+"issuer.rs", A+"user.rs", S+"issuer.rs", S+"user.rs", S+"credential.rs", S+"phone_number.rs"],
  [("issue", A+"issuer.rs Issuer::issue"), ("obtain_finish", A+"user.rs User::obtain_finish"), ("show", A+"user.rs User::show, "+S+"user.rs SignalUser::show"),
   ("verify", A+"issuer.rs Issuer::verify, "+S+"issuer.rs SignalIssuer::verify, verify_roster_membership")],
  [("credential", "the user's current credential, if any", A+"user.rs User.credential")],
  ["return values of every protocol step"])

p("C02", "No credential presentation is accepted unless made from an issued credential",
  """An issuer accepts a presentation only if it was made with a credential carrying that issuer's own authentication code under the same
  system parameters. Altering, replacing or exchanging any part of a presentation, presenting to another issuer, or
  building one without a credential (including with degenerate group elements, an unusual number of attributes, or a proof replayed or simulated
  from other values) is always rejected with an error.""",
  ["inputs"], """All presentations, as structures and as byte strings: honest ones under one or more simultaneous alterations, recombinations of
  several honest ones, and adversarially constructed ones, against every issuer key and parameter set.""",
  "The tests only verify honest presentations; no test ever expects a presentation to be rejected.",
  [A+"issuer.rs", A+"proofs.rs", A+"credential.rs", S+"issuer.rs"],
  [("verify", A+"issuer.rs Issuer::verify"), ("valid_credential proof", A+"proofs.rs valid_credential")],
  None, ["result of Issuer::verify and SignalIssuer::verify", "issuer_verify in the C API"])

p("C03", "Roster membership is proven only for an entry with the credential's own number",
  """The issuer confirms roster membership of a verified presentation only if the roster entry commitment commits to the very attribute hidden in that presentation;
  showing a credential with an entry for another number, or exchanging, altering or replaying the entry or the membership proof between presentations, is rejected.
  When it confirms, the commitment it returns is the one which was presented.""",
  ["inputs"], "All pairs of a credential and a roster entry, equal or nearly equal numbers included, and all alterations and recombinations of roster entries, membership proofs and presentations.",
  "The tests only show that one matching entry is confirmed; a mismatched one is never tried.",
  [S+"issuer.rs", S+"user.rs", S+"phone_number.rs", A+"proofs.rs"],
  [("verify_roster_membership", S+"issuer.rs SignalIssuer::verify_roster_membership"), ("committed_values_equal proof", A+"proofs.rs committed_values_equal")],
  None, ["result of verify_roster_membership"])

p("C04", "A user only ever stores a credential which its issuer really issued to it",
  """A user stores a credential only if the issuance carries a valid proof under the system and issuer parameters it holds and is on the
  user's own phone number; an issuance which was altered anywhere, recombined from others, made by another issuer or under other parameters or for another number
  is refused with an error. A refused, or missing, issuance leaves the user exactly as it was, including any earlier credential.""",
  ["inputs", "histories"], "All issuances (honest, altered in any byte or field, recombined, foreign) offered at any point of a user's history, before and after it holds a credential.",
  "The tests only feed honest issuances to fresh users; no test checks a refusal or the state after it.",
  [A+"user.rs", A+"proofs.rs", S+"user.rs"],
  [("obtain_finish", A+"user.rs User::obtain_finish"), ("own-number check", S+"user.rs SignalUser::obtain_finish"), ("issuance_revealed proof", A+"proofs.rs issuance_revealed")],
  [("credential", "must not change upon refusal", A+"user.rs User.credential")], ["result of obtain_finish, and the user before and after"])

p("C05", "Message authentication codes verify for their message and for nothing else",
  """A tag made with a key over a vector of any number of scalars verifies under that key for that vector, also after any number of non-zero rerandomisations and a round trip through bytes.
  It verifies for no other vector (different in any element, in order or in length) and under no key which gives another value, and a degenerate or altered tag verifies for nothing.
  Keys refuse to tag messages of the wrong length, and never repeat a tag's nonce. Distinct texts make distinct messages, and equal texts equal ones.""",
  ["inputs"], "All keys and messages of zero to seventy elements with extreme and random scalars or made from texts, all tags derived from honest ones by rerandomisation, alteration or combination, and degenerate tags.",
  "The tests use one key of two elements, one honest and one wrong message.",
  [A+"amacs.rs"], [("mac/verify", A+"amacs.rs SecretKey::mac, verify"), ("rerandomisation", A+"amacs.rs Rerandomization")], None, ["SecretKey::mac, SecretKey::verify"])

p("C06", "Phone number encoding is injective, invertible and total",
  """Every phone number of up to 26 digits, given as text or as digit values, is encoded to the same canonical group scalar in the documented layout, distinct numbers (leading and trailing
  zeros and length included) always get distinct scalars, and the text is recovered exactly. Longer input is refused with an error, input with anything but digits is never encoded as a number, and no input at all causes a panic.""",
  ["inputs"], "All digit strings of length 0 to 26, pairs of them, longer inputs up to several hundred bytes, arbitrary non-digit text and bytes, and arbitrary scalars converted back to text.",
  "The tests convert a single 13-digit number back and compare one pair.",
  [S+"phone_number.rs"], [("encoding", S+"phone_number.rs PhoneNumber::try_from_string, try_from_bytes"), ("decoding", S+"phone_number.rs From<PhoneNumber> for String")], None,
  ["PhoneNumber values and strings"])

p("C07", "Commitments open to exactly the committed value and opening",
  """A commitment to a value or phone number opens with the committed value, opening and bases, and with no other phone number, value, opening or system parameters; a roster entry commitment does so for
  exactly the phone number it was created for. Commitments have the documented algebraic form, so they depend on a fresh opening and two commitments to the same number under different openings differ.""",
  ["inputs"], "All values, openings, bases and phone numbers, equal, nearly equal and extreme ones included; all single alterations of an opening attempt.",
  "The tests try one good and one bad opening of one random commitment, none for roster entries.",
  [A+"pedersen.rs", A+"nonces.rs", S+"phone_number.rs"], [("commit/open", A+"pedersen.rs Commitment::to, open"), ("roster entry", S+"phone_number.rs RosterEntryCommitment, CommittedPhoneNumber")], None,
  ["open results and commitment values"])

p("C08", "Encrypted attributes decrypt to the plaintext and combine homomorphically",
  """Decrypting an encryption under the matching secret key always yields the plaintext's group element, whatever the message, key and nonce; another key yields something else, sums of
  encryptions decrypt to the sum of the plaintexts, and encryptions of one plaintext under distinct nonces are distinct. A generated key pair always satisfies the public relation between its halves, and still does after it was stored as bytes and restored.""",
  ["inputs"], "All keys, plaintext scalars and phone numbers, nonces, and sums of up to seventy encryptions, extreme scalars included.",
  "The single test encrypts one random message once.",
  [A+"elgamal.rs", S+"phone_number.rs"], [("encrypt/decrypt", A+"elgamal.rs PublicKey::encrypt, SecretKey::decrypt, Add"), ("phone number encryption", S+"phone_number.rs PhoneNumber::encrypt")], None,
  ["ciphertexts and decryptions"])

p("C09", "Each zero-knowledge proof verifies for true statements and for nothing else",
  """For each of the five proof systems (revealed issuance, blinded attributes, blinded issuance, valid credential, equal commitments), a proof made from secrets satisfying the stated
  linear relations always verifies, and a proof is rejected whenever any relation is false, any public value, the challenge or any response which enters a relation is altered, or it is
  verified in another context (transcript) than it was made in. Verification agrees with the published statement of each proof on every input.""",
  ["inputs"], "All witnesses and public points of the five statements, extreme and coinciding values included, all single and multiple alterations of publics, responses, challenge and context, and wrong witnesses for each single relation.",
  "Only two of the five proofs are exercised at all, and only on true statements.",
  [A+"proofs.rs", A+"proofs_macros.rs"], [("create/verify", A+"proofs.rs Proof::create, Proof::verify in each module"), ("statements", A+"proofs_macros.rs")], None,
  ["Proof::create, Proof::verify"])

p("C10", "Presentations are unlinkable and reveal neither number, credential nor secrets",
  """No two presentations made with fresh randomness, even of one credential with the same roster entry, and no presentation and issuance, share a group element or scalar other than the public roster entry commitment;
  a presentation contains no value from which the credential's tag or phone number could be recomputed without the blinding values. Each commitment in it is blinded by
  a fresh non-zero value; openings, keys and the proofs' secret nonces are chosen uniformly, and no two proofs use the same secret nonces, even if the caller repeats its random seed, or if the system's random generator repeats itself while anything proven differs.""",
  ["histories", "inputs"], "All histories of issuances and shows over several users, entries and caller generators (including ones repeating a state), compared pairwise.",
  "Tests look at each presentation in isolation; linkage and nonce reuse are relations between two runs.",
  [A+"user.rs", A+"proofs.rs", A+"amacs.rs", A+"nonces.rs", S+"user.rs"],
  [("rerandomisation", A+"user.rs User::show"), ("fresh blinding", A+"nonces.rs Nonces::new"), ("proof nonces", A+"proofs.rs reseed_from_rng(thread_rng)")], None,
  ["bytes and elements of presentations and issuances"])

p("C11", "Every serialisable value survives a round trip in every format and size",
  """Every value which the libraries produce or accept is restored to an equal, equally usable value from its bytes, from the compact binary format and from JSON, and encodes to the documented fixed length where
  one is documented. Encoding is deterministic, and distinct values have distinct encodings.""",
  ["inputs"], "All values of all serialisable types: users with and without key and credential, issuers, keys of any number of attributes, credentials, requests, issuances, presentations, commitments, phone numbers, parameters, extreme scalars and the identity point included.",
  "Tests round trip five types, one random value each, through bytes only.",
  [A+"macros.rs", A+"credential.rs", A+"amacs.rs", A+"elgamal.rs", A+"user.rs", A+"issuer.rs", A+"parameters.rs", A+"pedersen.rs", S+"credential.rs", S+"user.rs", S+"issuer.rs", S+"phone_number.rs"],
  [("to_bytes/from_bytes", "each type"), ("serde", A+"macros.rs impl_serde_with_to_bytes_and_from_bytes")], None, ["to_bytes, from_bytes, serde_json, bincode"])

p("C12", "Decoding arbitrary bytes never panics and accepts only canonical encodings",
  """Decoding any byte string as any type returns a value or an error and never panics. Whatever is accepted encodes back to exactly the same bytes, so no two byte strings
  decode to the same value: wrong lengths, trailing bytes, non-canonical scalars and non-canonical or invalid points are refused.""",
  ["inputs"], "All byte strings of any length for every type: truncations, extensions, bit and byte alterations, field exchanges and non-canonical variants of valid encodings, and random bytes.",
  "No test decodes anything but the output of the encoder.",
  [A+"credential.rs", A+"amacs.rs", A+"elgamal.rs", A+"user.rs", A+"issuer.rs", A+"parameters.rs", A+"pedersen.rs", S+"credential.rs", S+"user.rs", S+"issuer.rs", S+"phone_number.rs"],
  [("from_bytes", "each type: length checks, canonical scalar checks, point decompression")], None, ["from_bytes of every type, and JSON/binary deserialisation"])

p("C13", "The C interface computes exactly what the libraries compute",
  """Each function of the C interface returns, for every input, the same bytes (or, for randomised proofs, an equally valid result with the same deterministic part) as the corresponding library operation with the generator seeded by all 32 seed bytes, and
  succeeds exactly when that operation does. Results have the lengths which the header declares, and equal inputs give equal deterministic results while different seeds give different ones, also when several threads call it at the same time.""",
  ["inputs", "histories"], "All call histories of the twelve functions over generated seeds, phone numbers, parameters and messages, honest and invalid, including results of earlier calls fed to later ones.",
  "The library's C tests use one hard-wired seed and message per function, check lengths rather than values, and are not run since they depended on freed memory.",
  [F+"c.rs", F+"macros.rs", F+"include/credential.h"], [("exported functions", F+"c.rs"), ("declared lengths", F+"include/credential.h")], None, ["buf_t results"])

p("C14", "The C interface is memory safe and reports every failure as documented",
  """A buffer returned by the C interface stays valid and unchanged whatever is called afterwards until its owner frees it, and the function's inputs are neither modified nor retained. Every failure, for NULL pointers, zero or wrong lengths, malformed
  or invalid data, is reported as length 0 and a NULL pointer, and no input of the stated length makes the library read outside the given buffers, crash or abort.""",
  ["inputs", "histories"], "All sequences of calls with earlier results kept alive, freed or overwritten by the caller, over valid, malformed, truncated, extended, empty and NULL arguments.",
  "Tests never keep a result across another call, never pass invalid data and check no failure value.",
  [F+"c.rs", F+"macros.rs"], [("buffer ownership", F+"macros.rs slice_to_len_and_ptr"), ("failure value", F+"macros.rs zero_len_and_ptr, ok_or_return")], None, ["buf_t results and process status, guarded buffers"])

p("C15", "Messages interoperate with other conforming and earlier deployed versions",
  """Issuers, users and verifiers of this code exchange messages with any conforming implementation of the protocol, and with the C library as released: issuances and presentations made by either side are accepted by the other, with unchanged encodings and proof contexts.
  Data recorded from an earlier version (parameters, keys, users with credentials, issuances, presentations) keeps decoding, verifying and re-encoding to the same bytes, and the system parameters for a recorded seed stay the same.""",
  ["inputs", "configurations"], "All messages produced by an independent implementation of prover, verifier and encodings, and by the released library, for generated keys, numbers and randomness, in all roles, and the recorded vectors.",
  "Tests let the code talk only to itself, so a change to both sides at once goes unnoticed although deployed clients and servers are then cut off.",
  [A+"proofs.rs", A+"issuer.rs", A+"user.rs", S+"issuer.rs", S+"user.rs", F+"c.rs"], [("proof contexts and labels", A+"proofs.rs"), ("transcript names", A+"issuer.rs, "+A+"user.rs, "+S+"issuer.rs, "+S+"user.rs")], None, ["accept/reject decisions and bytes"])

p("C16", "Results do not depend on the arithmetic backend or library configuration",
  """Builds with the 32-bit, the 64-bit and the vectorised (AVX2) arithmetic backend, and with or without the standard library feature, produce identical deterministic results for identical inputs and accept and reject exactly the same messages of each other.""",
  ["configurations", "inputs"], "All pairs of supported build configurations over generated seeds, numbers and valid or altered messages.",
  "Tests run in one configuration; nothing compares two.",
  [A+"lib.rs", A+"Cargo.toml".replace("src/", ""), S+"lib.rs", F+"lib.rs"], [("feature selection", "aeonflux/Cargo.toml, signal-credential/Cargo.toml, ffi/Cargo.toml"), ("conditional compilation", A+"lib.rs, "+S+"lib.rs")], None, ["C interface results of each build"])

p("C17", "The JavaScript interface agrees with the libraries",
  """Each function of the JavaScript interface returns the JSON form of what the corresponding library operation returns for the same input and the generator seeded by the given 32 bytes, so that a whole protocol run through it, alone or mixed with the native libraries, succeeds.
  Seeds of another length, malformed values, and refused issuances, presentations or memberships give the documented failure value 0, never a panic.""",
  ["inputs", "histories"], "All call histories of the nine functions over generated seeds, numbers and values, valid, foreign and malformed, mixed with direct library calls.",
  "There are no tests of this interface at all.",
  ["wasm/src/js.rs", A+"macros.rs"], [("exported functions", "wasm/src/js.rs"), ("JSON form", A+"macros.rs")], None, ["JSON values"])

p("C18", "Parameters and keys are well-formed, independent and determined by the seed",
  """Whatever bytes the generator returns, system parameters consist of the standard base point and a second, distinct point other than the identity which is decoded from the generator's own bytes (so that nobody ever has its discrete logarithm), and an issuer's published key is the second base multiplied by the matching secret scalar for any number of attributes.
  Generation is a function of the generator's output alone, different outputs give different values, and restoring an issuer from its key pair gives an issuer equivalent to the one created.""",
  ["inputs"], "All generator outputs, including crafted streams with invalid, excluded and boundary encodings before a usable one; all key sizes and bases.",
  "Tests generate one random parameter set and check only that it round trips.",
  [A+"parameters.rs", A+"amacs.rs", A+"issuer.rs"], [("parameter generation", A+"parameters.rs hunt_and_peck"), ("key generation", A+"amacs.rs SecretKey::new, get_public_key, Keypair::new")], None, ["generated values"])

p("C19", "Secret values are erased from memory when dropped",
  """When a secret key, an ephemeral value, a set of nonces or a rerandomisation factor goes out of scope, the memory which held its secret scalars is overwritten: neither the value's own storage nor any heap block it owned
  still contains them, however many scalars it holds.""",
  ["inputs"], "All secret-holding values of any size, dropped alone or inside the containers which own them (key pairs, issuers, users, roster entries).",
  "Tests never inspect memory after a drop.",
  [A+"amacs.rs", A+"elgamal.rs", A+"nonces.rs"], [("Drop implementations", A+"amacs.rs SecretKey, Rerandomization; "+A+"elgamal.rs SecretKey; "+A+"nonces.rs Ephemeral, Nonces")], None, ["storage after drop, heap blocks upon deallocation"])

open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
