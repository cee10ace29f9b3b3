# ---------------------------------------------------------------- protocols (end to end)
p("P01", "Key generation: all parties agree and the key belongs to all of them jointly",
  "When all parties follow the key generation protocol, every one of them finishes with a key share for the same session-independent party set, the same verifying key, and the same list of public shares. The private shares sum to the discrete logarithm of the verifying key, each private share matches its published public share, and each share lists its own owner. Running it again with other randomness gives unrelated keys.",
  ["inputs", "schedules"], "for every number of parties >= 1, set of party identifiers, session identifier, message arrival order and party randomness",
  "tests/ runs one 3-party happy path with one hash-derived session id; it never varies the party set, the arrival order or the randomness, and checks a few equalities.",
  ["src/protocols/key_init.rs", "src/entities/full.rs"],
  [("round structure and share aggregation", "src/protocols/key_init.rs finalize()"), ("sum of public shares", "src/entities/full.rs KeyShare::verifying_key")],
  ["KeyShare::verifying_key", "KeyShare::owner", "KeyShare::all_parties"])
p("P02", "Key refresh: changes keep the key, re-randomise shares and give usable aux data",
  "When all parties follow the key refresh protocol, the per-party secret changes sum to zero, every party sees the same public change for every party, and applying the change yields key shares for the same parties with the same verifying key whose private shares still match the public ones. Every party obtains identical public auxiliary data about every party, and its own secret auxiliary data matches what the others recorded for it.",
  ["inputs", "schedules", "histories"], "for every party set, session identifier, message order, randomness, and number of successive refreshes applied to an existing share",
  "One 3-party run with one random seed; the update path over several refreshes and other party counts are not sampled.",
  ["src/protocols/key_refresh.rs", "src/entities/full.rs"],
  [("zero-sum change sampling", "src/protocols/key_refresh.rs make_round / Round3::finalize"), ("update", "src/entities/full.rs KeyShare::update")],
  ["KeyShareChange", "AuxInfo"])
p("P03", "Auxiliary data generation: consistent, usable, and bound to its owner",
  "When all parties follow the auxiliary data generation protocol, everyone records the same public encryption key, commitment parameters and encryption share for every party. Each party's own secret data is the counterpart of the public data the others recorded for it.",
  ["inputs", "schedules"], "for every party set, session identifier, arrival order and randomness",
  "One 3-party run; only the party-id lists are compared.",
  ["src/protocols/aux_gen.rs", "src/entities/full.rs"],
  [("rounds 1-3", "src/protocols/aux_gen.rs")], ["AuxInfo"])
p("P04", "Interactive signing: honest signers always produce one valid ECDSA signature",
  "For key shares and auxiliary data of a common signer set, a signing run in which everyone follows the protocol ends for every signer with the same recoverable signature; it verifies under the key's verifying key for exactly the given prehashed message, is in low-s form, and its recovery identifier recovers that verifying key. A run never ends in an error or an accusation, whatever the message bytes are.",
  ["inputs", "schedules"], "for every signer set of one or more parties, prehashed message of the right length (including values at and above the group order), session identifier, arrival order, and party randomness; with shares from key generation, refresh, resharing or a dealer",
  "One 3-party run over one message; presigning with boundary scalars, other signer counts and share histories are not reached.",
  ["src/protocols/interactive_signing.rs", "src/curve/ecdsa.rs"],
  [("presigning and signing rounds", "src/protocols/interactive_signing.rs"), ("signature assembly", "src/curve/ecdsa.rs")],
  ["RecoverableSignature::to_backend"])
p("P05", "Key resharing: new holders hold the same key at the new threshold",
  "When old and new holders follow the resharing protocol, every new holder (and only they) obtains a threshold share; any set of new holders of the new threshold's size reconstructs the same signing key as before, any two such sets agree, all recorded public shares match the private ones, and the verifying key is unchanged.",
  ["inputs", "histories", "schedules"], "for every old and new holder set (disjoint, overlapping, equal), old and new thresholds >= 1 within the set sizes, any subset of old holders of at least the old threshold's size, and any chain of reshares",
  "One run with a fixed 2-of-3 to 3-of-5 shape; other overlaps, thresholds and chains are not sampled.",
  ["src/protocols/key_resharing.rs", "src/tools/sss.rs", "src/entities/threshold.rs"],
  [("share of shares and interpolation", "src/protocols/key_resharing.rs"), ("threshold share record", "src/entities/threshold.rs")],
  ["ThresholdKeyShare"])
p("P06", "A corrupted message never yields a bad result or blames an honest party",
  "If one party's outgoing messages in any protocol are altered, truncated, omitted, replayed from another party, round or session, or given differently to different receivers, then no honest party panics, and none of them finishes with a result that breaks the protocol's guarantee (wrong key, inconsistent shares, invalid signature). Any party an honest participant reports as faulty is the corrupted one.",
  ["fault_sequences", "inputs"], "for every protocol, every round, every field of every message, every kind of alteration, sender, receiver subset and session",
  "The misbehaviour tests hand-write about thirty single-field deviations; they cannot range over all fields, mutations, equivocations and replays.",
  ["src/protocols/key_init.rs", "src/protocols/key_refresh.rs", "src/protocols/aux_gen.rs", "src/protocols/interactive_signing.rs", "src/protocols/key_resharing.rs"],
  [("receive_message checks", "src/protocols/*.rs"), ("zero-knowledge proof verification", "src/zk/*.rs")], ["execution reports", "results"])
p("P07", "Provable accusations convince a third party and cannot frame honest parties",
  "Whenever an honest party reports provable misbehaviour, a third party holding only the public associated data verifies that evidence successfully against the accused. Evidence assembled from messages an honest party really sent never verifies against that party, whatever error is alleged.",
  ["fault_sequences", "inputs"], "for every protocol with evidence, every misbehaviour variant an honest party can report, and every alleged error kind over genuine transcripts",
  "Misbehaviour tests verify the positive direction for hand-picked variants; the negative direction (no framing) is never tested.",
  ["src/protocols/key_init.rs", "src/protocols/key_refresh.rs", "src/protocols/aux_gen.rs", "src/protocols/interactive_signing.rs"],
  [("ProtocolError::verify_messages_constitute_error", "src/protocols/*.rs")], ["evidence verification result"])
p("P08", "Messages from another session, party or protocol run are not accepted",
  "Protocol messages are bound to the session identifier, the protocol's declared parameters, the party set and the sender: a proof-carrying message produced in one run and presented in a run that differs in any of these does not let the receiving party complete.",
  ["histories", "inputs"], "for every protocol, message carrying a proof or commitment, and pair of runs that differ in session identifier, party set, key or sender",
  "No test replays a message across sessions or senders.",
  ["src/protocols/*.rs", "src/entities/internal.rs"],
  [("session id hashing", "src/entities/internal.rs Sid"), ("aux strings in proofs", "src/protocols/*.rs")], ["execution reports"])
p("P09", "Full lifecycle keeps the key: generate, refresh, reshare, derive, sign",
  "Along any history of key generation, share refresh, splitting into threshold shares, resharing, child key derivation, selection of signer subsets and signing, the verifying key is exactly the one predicted by the reference model (unchanged except by derivation), and every signer subset of sufficient size produces valid signatures.",
  ["histories"], "for every legal sequence of lifecycle operations over any party sets and thresholds",
  "One fixed scenario (threshold.rs) covers a single order of operations.",
  ["src/entities/full.rs", "src/entities/threshold.rs", "src/protocols/*.rs"],
  [("conversions between full and threshold shares", "src/entities/threshold.rs"), ("update", "src/entities/full.rs")], ["verifying_key", "signatures"])
p("P10", "Inconsistent inputs to the protocol API are refused with an error",
  "Starting a protocol or applying an operation with mismatched inputs (a share and auxiliary data with different owners or party sets, an identifier that is not a participant, a change that belongs to another party or another set, a subset that misses needed parties, a share below its threshold) returns an error; it neither panics nor produces an object that violates the share invariants.",
  ["inputs"], "for every pair of shares, changes, auxiliary data, identifiers and subsets, matching or not",
  "Happy-path tests never pass mismatched inputs.",
  ["src/protocols/interactive_signing.rs", "src/protocols/key_init.rs", "src/protocols/key_resharing.rs", "src/entities/full.rs", "src/entities/threshold.rs"],
  [("argument checks in constructors", "src/protocols/*.rs new/make_round"), ("KeyShare::update / AuxInfo::subset", "src/entities/full.rs")], ["Result values"])
p("P11", "A run broken by a corrupted party ends with that party being named",
  "If one party deviates in a session of key generation, key refresh, auxiliary data generation or signing (the presigning and signing error rounds included), while still sending every message of every round and the same un-echoed normal broadcast to all, then either every honest party finishes with a good result, or at least one honest party ends with a report that names the deviating party. The run does not fail with nobody, or only with an unattributed local error.",
  ["fault_sequences", "inputs"], "for every one of these protocols, round, message field, kind of alteration and receiver subset in which the deviating party withholds nothing",
  "The misbehaviour tests check the report for about thirty hand-written deviations; a failure that blames nobody is never looked for.",
  ["src/protocols/key_init.rs", "src/protocols/key_refresh.rs", "src/protocols/aux_gen.rs", "src/protocols/interactive_signing.rs"],
  [("checks of received messages turned into provable or unprovable errors", "src/protocols/*.rs receive_message"), ("error rounds of signing", "src/protocols/interactive_signing.rs Round5, Round6")], ["execution reports"])
p("P12", "Every session runs on fresh, unpredictable and unrepeated randomness",
  "In honest sessions, including repeated ones with the same session identifier, parties, key and message, nothing a party sends in some place of its messages (commitments, points, ciphertexts, proofs, random strings, shared shares) repeats what it or another party sent there before. The nonces, the masks of the multiplicative shares and the randomizers behind the signing ciphertexts are spread over their whole ranges and never used twice, in whatever role.",
  ["histories", "inputs"], "for every protocol, party set, key and series of sessions whose parties' random generators are independent, with equal or different session identifiers and messages",
  "A reused or short nonce or mask gives correct signatures; tests run single sessions and cannot see it.",
  ["src/protocols/interactive_signing.rs", "src/protocols/key_init.rs", "src/protocols/key_refresh.rs", "src/protocols/aux_gen.rs", "src/protocols/key_resharing.rs", "src/tools/sss.rs"],
  [("sampling of secrets in make_round and round finalization", "src/protocols/*.rs"), ("sharing polynomials", "src/tools/sss.rs Polynomial::random")], ["messages of honest sessions"])
p("P13", "An honest party stops at the first wrong message and releases nothing after it",
  "When a message of a peer opens a commitment to something else, lacks a valid proof for what it claims, or cannot be decoded, each honest party that receives it takes no further part: it sends no message of a later round (signing may enter an error round when only the announced sums are wrong), in particular no partial signature and no proof made for the sender. Paillier and ring-Pedersen moduli more than two bits below the prescribed size are refused on receipt, with evidence that convinces others, even when everything else about them is in order; moduli of the right size are not refused for their size.",
  ["inputs", "histories"], "for every party set, session, corrupted party and altered field of a message before the last round; for every smaller size of a modulus",
  "The misbehaviour tests try one fixed alteration and one small size per error; what is still sent afterwards is not looked at.",
  ["src/protocols/key_init.rs", "src/protocols/key_refresh.rs", "src/protocols/aux_gen.rs", "src/protocols/interactive_signing.rs"],
  [("receive_message of each round", "src/protocols/*.rs"), ("R2PaillierModulusTooSmall, R2RPModulusTooSmall", "src/protocols/key_refresh.rs, src/protocols/aux_gen.rs")], ["messages sent by honest parties"])
# ---------------------------------------------------------------- entities
p("E01", "Threshold shares: any sufficient subset restores the key, conversions agree",
  "Splitting a signing key into t-of-n threshold shares gives every holder the same verifying key; any subset of exactly t holders, each share seen from its owner, converts to full key shares whose private parts sum to the original key and match their public parts; a set of another size, or one without the owner, is refused. Converting full key shares to threshold shares preserves the key, the owner and the holders.",
  ["inputs"], "for every n, t with 1 <= t <= n, signing key and subset of holders",
  "One shape (t=2 or 3, n=3) is tested with a single subset.",
  ["src/entities/threshold.rs", "src/tools/sss.rs"],
  [("Lagrange interpolation", "src/tools/sss.rs"), ("to_key_share / from_key_share", "src/entities/threshold.rs")], ["KeyShare", "ThresholdKeyShare"])
p("E02", "Shamir sharing matches polynomial evaluation and interpolation in the field",
  "Evaluating a secret polynomial and its public counterpart at an identifier agree with each other and with schoolbook evaluation; recombining at least as many shares as the threshold returns the secret exactly, recombining the public points returns its public counterpart, and fewer shares than the threshold do not determine it.",
  ["inputs"], "for every degree, coefficients (zero and boundary values included), identifiers and share subsets",
  "Two unit tests sample one degree and one subset.",
  ["src/tools/sss.rs"], [("Horner evaluation and Lagrange coefficients", "src/tools/sss.rs")], ["evaluate", "shamir_join_*"])
p("E03", "Key material survives serialization exactly and never prints its secrets",
  "Key shares, threshold shares and auxiliary data (all types meant to be stored) restore from their serialized form, binary or human-readable, to an object equal to the original that behaves identically. Debug formatting of any value holding a secret never reveals the secret.",
  ["inputs"], "for every stored type, party set, threshold and key",
  "No test round-trips the stored entities; one test checks debug output of a wrapper only.",
  ["src/entities/full.rs", "src/entities/threshold.rs", "src/tools/secret.rs"],
  [("derive_where Serialize/Deserialize", "src/entities/*.rs"), ("redacting Debug", "src/tools/secret.rs")], ["serde output", "format!(\"{:?}\")"])
# ---------------------------------------------------------------- core crypto
p("C01", "Paillier encryption decrypts to exactly the encrypted value and randomizer",
  "For every key pair, plaintext in the signed range [-N/2, N/2) and randomizer, decryption returns exactly that plaintext and randomizer recovery returns exactly that randomizer. The ciphertext equals (1+N)^m * r^N mod N^2, whether it was computed with the public or the secret key.",
  ["inputs"], "for every key pair, plaintext (0, +-1, +-bounds included) and randomizer",
  "Round-trip tests sample one random key and one random plaintext; boundaries and the reference formula are not covered.",
  ["src/paillier/encryption.rs", "src/paillier/keys.rs"],
  [("encryption and decryption", "src/paillier/encryption.rs"), ("precomputed key constants", "src/paillier/keys.rs")], ["Ciphertext", "decrypt", "derive_randomizer"])
p("C02", "Paillier homomorphic operations match integer arithmetic modulo N",
  "Adding ciphertexts, multiplying a ciphertext by a signed integer (of any supported width, secret or public) and combinations of these decrypt to the corresponding integer result reduced to the signed range modulo N, including negative and boundary operands. Re-randomising changes the ciphertext but not the plaintext, and masking or exponentiating randomizers agrees with multiplication modulo N.",
  ["inputs", "programs"], "for every key, every expression over ciphertexts, signed multipliers and randomizers",
  "Tests sample one random value per operation.",
  ["src/paillier/encryption.rs"], [("homomorphic operators", "src/paillier/encryption.rs")], ["decrypt"])
p("C03", "Paillier keys: structure, derived constants and residue operations are correct",
  "A generated key's modulus is the product of two distinct primes, both 3 modulo 4 and of the required size, and has the full declared length; the modulus of generated ring-Pedersen parameters is a product of two distinct safe primes. Values derived from a key (modulus bit bounds, totient, inverses) satisfy their defining equations. Splitting a residue into its components modulo the primes and recombining returns the residue, square roots returned are roots, and a residue is reported as a square exactly when it is one; keys restore from their serialized form unchanged.",
  ["inputs"], "for every pair of suitable primes and every residue",
  "Keys in tests are sampled a handful of times and only used through the round trip.",
  ["src/paillier/keys.rs", "src/paillier/rsa.rs"], [("RNS and CRT helpers", "src/paillier/keys.rs"), ("prime generation", "src/paillier/rsa.rs")], ["SecretKeyPaillier", "PublicKeyPaillier"])
p("C04", "Ring-Pedersen commitments equal s^value * t^randomizer modulo N",
  "For every parameter set and every signed value and randomizer of any supported width, the commitment equals base_value^value * base_randomizer^randomizer mod N, for secret and public arguments alike, and commitments are homomorphic in both arguments. Generated parameters satisfy base_value = base_randomizer^secret modulo N with an invertible quadratic-residue base.",
  ["inputs"], "for every parameter set, value and randomizer sign and size (zero and both bounds included)",
  "Ring-Pedersen parameters are exercised only indirectly by proof tests that are not built here.",
  ["src/paillier/ring_pedersen.rs", "src/paillier/rsa.rs"], [("commit", "src/paillier/ring_pedersen.rs")], ["RPCommitment"])
p("C05", "Bounded signed and unsigned arithmetic equals exact integer arithmetic",
  "Every arithmetic operation on the bounded signed and unsigned number types (conversion, negation, absolute value, comparison with bounds, sum, difference, product, wide product, widening, narrowing, reduction modulo a number, exponentiation) gives the result of exact integer arithmetic, and a result that cannot be represented within the declared bound is refused rather than wrapped. The secret and public variants agree with each other.",
  ["inputs", "programs"], "for every width, declared bound, operands (extremes of the range included) and operation sequence",
  "Unit tests cover selected operand pairs with hand-written expectations.",
  ["src/uint/secret_signed.rs", "src/uint/public_signed.rs", "src/uint/secret_unsigned.rs", "src/uint/public_uint.rs", "src/uint/traits.rs"],
  [("bound tracking", "src/uint/secret_signed.rs"), ("public counterpart", "src/uint/public_signed.rs")], ["resulting values and bounds"])
p("C06", "Random secrets always lie in their prescribed ranges and vary with the seed",
  "Every sampler (signed value in an exponent range, scaled range, positive range, scalar, residue, invertible residue, quadratic residue, prime, prime pair, bit string) returns a value within its documented range and with its documented algebraic property, deterministically for a given random stream. Both signs and the full magnitude of the range are actually produced.",
  ["inputs"], "for every random stream (including adversarial ones of repeated or extreme bytes) and range parameter",
  "Tests draw a few values; neither range edges nor distribution are examined.",
  ["src/uint/secret_signed.rs", "src/uint/secret_unsigned.rs", "src/curve/arithmetic.rs", "src/paillier/rsa.rs", "src/paillier/encryption.rs"],
  [("random_in_exponent_range and siblings", "src/uint/secret_signed.rs")], ["sampled values"])
p("C07", "Conversions between scalars and big signed integers are exact modulo the order",
  "Converting a public scalar to a bounded signed integer yields its canonical residue in [0, order); converting a secret scalar yields the congruent representative of magnitude at most half the order; and converting any signed integer (normal or wide, secret or public, negative included) to a scalar yields its residue modulo the group order. The conversions compose to the identity on scalars and are ring homomorphisms.",
  ["inputs"], "for every scalar (0, 1, order-1, around half the order) and every signed integer of the supported widths",
  "No test targets the conversions directly.",
  ["src/params/conversion.rs"], [("modular reduction and sign handling", "src/params/conversion.rs")], ["Scalar", "PublicSigned", "SecretSigned"])
p("C08", "Curve scalars and points obey field and group laws and encode canonically",
  "Scalar and point operations agree with modular integer arithmetic and the elliptic-curve group (associativity, distributivity, inverses, generator multiples, sums and products over sequences, splitting a secret into addends that sum to it). Serialized scalars and points decode to the same value, have one fixed length, and byte strings that are not a canonical encoding of a scalar below the order or a point on the curve are refused.",
  ["inputs"], "for every scalar, point and byte string",
  "One unit test covers one conversion; algebraic laws and rejection are not tested.",
  ["src/curve/arithmetic.rs"], [("adapter over the curve backend", "src/curve/arithmetic.rs")], ["serde encodings", "operator results"])
p("C09", "Recoverable signatures verify and recover only the right key and message",
  "Building a recoverable signature from the group element, scalars, key and prehashed message succeeds exactly when the ECDSA equation holds, and the result is low-s, verifies under the key, and its recovery identifier returns exactly that key. A wrong scalar, message or key never yields a signature that verifies for the intended key.",
  ["inputs"], "for every key, nonce, message scalar and perturbation of any of them",
  "The single signing test goes through the whole protocol with one message.",
  ["src/curve/ecdsa.rs"], [("RecoverableSignature::from_scalars", "src/curve/ecdsa.rs")], ["RecoverableSignature"])
p("C10", "Zero-knowledge proofs: honest proofs over the whole witness domain verify",
  "For each of the nine proof systems (ring-Pedersen parameters, Paillier-Blum modulus, no small factor, Schnorr, discrete log with El-Gamal commitment, range proof with El-Gamal commitment, affine operation with and without group commitment in the range, Paillier decryption in exponent), a proof made for a true statement with any witness in the declared range, any setup and any auxiliary bytes is accepted by the verifier with the same inputs, also after a serialization round trip.",
  ["inputs"], "for every witness in range (both range extremes, zero, negative), every key/setup combination, batch size and auxiliary data",
  "Each proof test uses one random witness and setup; the zk tests are not even part of the reliably passing set here.",
  ["src/zk/*.rs"], [("prove/verify pairs", "src/zk/*.rs")], ["verify() == true"])
p("C11", "Zero-knowledge proofs bind every public input, the setup and the context",
  "A proof accepted for one statement is rejected when any public input, key, setup parameter, commitment or the auxiliary context bytes given to the verifier differ from the ones it was made for.",
  ["inputs"], "for each proof system, each public input component, each alternative value and any auxiliary bytes",
  "Tests check at most one altered auxiliary string per proof.",
  ["src/zk/*.rs", "src/tools/hashing.rs"], [("Fiat-Shamir transcript", "src/zk/*.rs")], ["verify() == false"])
p("C12", "Zero-knowledge verifiers accept only proofs satisfying all checks of the paper",
  "If a verifier accepts a proof, in whatever way its fields were altered or assembled, then every verification equation and every range condition of the scheme's specification holds for it when re-evaluated by an independent reference verifier, and the number of repetitions is the security parameter. In particular, truncated, extended, reordered or emptied proofs are rejected.",
  ["inputs"], "for each proof system and every single- or multi-field alteration of a proof, including container lengths, signs, sizes and boundary values of responses",
  "No test alters a proof's contents.",
  ["src/zk/*.rs"], [("equation and range checks in verify", "src/zk/*.rs")], ["verify()"])
p("C13", "Zero-knowledge range and relation soundness against a cheating prover",
  "A prover who computes every message consistently with the transcript but uses a witness outside the declared range, or one that does not satisfy the claimed relation, is rejected (except for the slack the scheme allows).",
  ["inputs"], "for each proof system, each witness component, out-of-range magnitudes from just above the slack up to the type limit, both signs, and each broken relation",
  "No test runs a cheating prover.",
  ["src/zk/enc_elg.rs", "src/zk/aff_g.rs", "src/zk/aff_g_star.rs", "src/zk/dec.rs", "src/zk/fac.rs", "src/zk/elog.rs", "src/zk/sch.rs"],
  [("range checks on responses", "src/zk/*.rs"), ("verification equations", "src/zk/*.rs")], ["verify() == false"])
p("C14", "Bad moduli and commitment parameters cannot be proven good",
  "Proofs about setup data made with the library's own prover or by a cheating one for false statements are rejected: a modulus that is prime, even, a prime power, has more than two factors, a factor not 3 mod 4 or a small factor, or a commitment base outside the subgroup generated by the other base.",
  ["inputs"], "for every class of malformed modulus or parameter pair and any auxiliary bytes",
  "Tests only prove true statements.",
  ["src/zk/mod_.rs", "src/zk/prm.rs", "src/zk/fac.rs"], [("ModProof/PrmProof/FacProof verify", "src/zk/mod_.rs, prm.rs, fac.rs")], ["verify() == false"])
p("C15", "Untrusted wire data is rejected cleanly: no panic, no acceptance of garbage",
  "Decoding arbitrary bytes or structurally valid but semantically absurd values (zero, even, one, maximal, non-invertible, wrongly sized) as any message component, and then verifying proofs or building working objects with them, never panics, hangs or accepts a false statement.",
  ["inputs"], "for every wire type and byte string, and every combination of malformed keys, parameters, ciphertexts and proofs",
  "Tests only decode what the library encoded.",
  ["src/paillier/keys.rs", "src/paillier/rsa.rs", "src/paillier/ring_pedersen.rs", "src/paillier/encryption.rs", "src/zk/*.rs", "src/uint/*.rs", "src/tools/bitvec.rs"],
  [("wire type conversion and validation", "src/paillier/*.rs"), ("TryFrom in serde impls", "src/uint/public_signed.rs, src/tools/bitvec.rs")], ["panics", "verify()"])
p("C16", "Hash transcripts are injective and derived values deterministic and in range",
  "Feeding different sequences of byte strings or structured values into a transcript gives different digests (no ambiguity between adjacent items, lengths or domains), the same sequence always gives the same digest, and integers, scalars, residues and bit strings derived from a digest lie in their prescribed ranges and depend on every input.",
  ["inputs"], "for every pair of distinct input sequences over byte strings and the library's serializable types, and every range",
  "No unit test covers transcript ambiguity.",
  ["src/tools/hashing.rs", "src/uint/traits.rs", "src/uint/public_signed.rs", "src/curve/arithmetic.rs"],
  [("length-prefixed hashing and DST", "src/tools/hashing.rs"), ("FromXofReader", "src/uint/traits.rs")], ["digests"])
p("C17", "Wire encodings round-trip exactly and are rejected when out of bounds",
  "Every wire value (numbers, keys, ciphertexts, commitments, randomizers, proofs, bit strings) decodes from its own binary or human-readable encoding to an equal value, and re-encoding gives the same bytes. A signed integer whose magnitude exceeds its declared bound, or a bit string whose declared length exceeds its bytes, is refused.",
  ["inputs"], "for every value of every wire type, every declared bound, and both encodings",
  "Two serialization unit tests exist, for one random value each.",
  ["src/uint/*.rs", "src/tools/bitvec.rs", "src/paillier/*.rs", "src/zk/*.rs", "src/curve/arithmetic.rs"],
  [("serde impls", "src/uint/public_signed.rs, src/tools/bitvec.rs")], ["serde"])
p("C18", "Child key derivation commutes with threshold sharing and matches BIP32",
  "Deriving along any non-hardened path from the shares of a key, from its verifying key, and from the whole signing key all give the same child key, which is the one the BIP32 rules prescribe for the library's published derivation seed; each derived share set still reconstructs and signs. Hardened path components are refused.",
  ["inputs"], "for every key, threshold shape and derivation path (index 0 and the largest non-hardened index included)",
  "One fixed path over one random key is tested.",
  ["src/curve/bip32.rs", "src/entities/threshold.rs"], [("derive_tweaks / apply_tweaks", "src/curve/bip32.rs")], ["derive_bip32"])
p("C19", "Secret wrapper computes like the plain value and never prints it",
  "Arithmetic, reduction, conditional selection, inversion and conversion through the secret wrapper give the same results as on the plain values, and its debug output contains no trace of the contents.",
  ["inputs"], "for every wrapped type, operand pair and operation",
  "A single unit test covers a few operators on fixed values.",
  ["src/tools/secret.rs"], [("operator impls on Secret<T>", "src/tools/secret.rs")], ["results", "format!(\"{:?}\")"])
p("C20", "Secrets are wiped from the heap when they are dropped",
  "What a secret wrapper holds (secret integers, scalars, prime factors, polynomial coefficients, exponents, and values computed from them through the wrapper) is erased before its heap memory is handed back: after operations on wrapped values, Paillier and ring-Pedersen key handling, polynomial sharing, serialization and proof making, no heap block returned to the allocator contains the secret inputs or the wrapped results.",
  ["inputs"], "for every wrapped type, every operation producing or consuming it, every prover, refused and error paths included",
  "A unit test sees values, not what is left in memory; no test looks at freed memory at all.",
  ["src/tools/secret.rs", "src/uint/secret_signed.rs", "src/uint/secret_unsigned.rs", "src/paillier/keys.rs", "src/paillier/rsa.rs", "src/tools/sss.rs", "src/uint/traits.rs"], [("Secret", "src/tools/secret.rs")], ["contents of heap blocks at the moment they are freed"])
p("C21", "Proof responses hide the secrets behind fresh, full-width masks",
  "Whatever a prover publishes about a secret is blinded by a mask drawn for that use alone, spread over the whole range the scheme prescribes (2^EPS times wider than the term it hides; for commitment exponents and their masks a multiple of the ring-Pedersen modulus; for scalars, randomizers and exponents the whole group). Over a series of honest proofs no mask is too short, has a constant sign or constant bits, or equals another one, whether of another role, repetition or proof.",
  ["inputs", "histories"], "for every proof system, statement, witness in range, key, setup, and series of proofs made with independent randomness",
  "Tests only verify single proofs; a prover whose masks are too short or used twice produces proofs that verify just as well.",
  ["src/zk/aff_g.rs", "src/zk/aff_g_star.rs", "src/zk/dec.rs", "src/zk/elog.rs", "src/zk/enc_elg.rs", "src/zk/fac.rs", "src/zk/mod_.rs", "src/zk/prm.rs", "src/zk/sch.rs"],
  [("sampling of ephemeral values", "src/zk/*.rs new()"), ("ranges of the masks", "src/uint/secret_signed.rs random_in_exponent_range*")], ["proof responses"])
