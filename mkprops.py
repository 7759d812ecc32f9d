#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
S='src/electionguard/'
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,**kw):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],**kw)))

prop('C01','Exponent arithmetic modulo the group order q is exact',
 "For all operands from 0 to the group order q, adding two exponents or any non-empty list of exponents, subtracting, and multiply-adding (a + b*c) return the canonical value in [0,q) congruent to the integer result, and complementing returns q minus the operand. An empty list is rejected and no operand is changed.",
 ['inputs'],'every pair/triple/list of exponents in [0,q], in particular those whose sum or product crosses 2^256, q, or 0',
 'The tests use a few random and boundary values; wrap-around windows near 2^256 (189 values wide) are hit with negligible probability by random operands.',
 [S+'group.cpp',S+'utils.hpp',S+'facades/Hacl_Bignum256.cpp'],
 [('add_mod_q carry/offset handling',S+'group.cpp: add_mod_q'),('sub_mod_q borrow handling',S+'group.cpp: sub_mod_q'),('a_plus_bc_mod_q',S+'group.cpp'),('sub_from_q',S+'group.cpp')])
prop('C02','Arithmetic modulo the large prime p is exact',
 "For all operands in [0,p), adding, multiplying two elements or any list of elements and exponents, and raising to any exponent in [0,q] or any full-width exponent return the canonical value in [0,p) congruent to the integer result (exponent 0 gives 1). Raising a base that is marked as fixed and served from a precomputed table gives exactly the same value as the generic exponentiation.",
 ['inputs','histories'],'every base, exponent and list, whether or not a lookup table was already built for the base',
 'Exponent space is 2^256; tests compare a handful of powers and never look at exponents with particular zero/non-zero byte patterns or at sums that wrap 2^4096.',
 [S+'group.cpp',S+'lookup_table.hpp',S+'facades/Hacl_Bignum4096.cpp'],
 [('mul_mod_p / add_mod_p / pow_mod_p',S+'group.cpp'),('windowed fixed-base table',S+'lookup_table.hpp: generateTable, pow_mod_p')])
prop('C03','Group elements are range-checked, compared and converted by value',
 "Constructing an element from limbs, bytes, hex or an integer yields exactly that integer value, and checked construction rejects exactly the values greater than the modulus; bounds tests accept exactly 0 < x < modulus, and the residue test accepts exactly in-bounds x with x^q = 1 (mod p). Equality and less-than agree with the integer order, and hex, bytes and copies round-trip every value.",
 ['inputs'],'every representable integer (including 0, the modulus, values with leading zero bytes, and over-long inputs)',
 'Tests sample a few values; the comparison and conversion code is per-limb/per-byte, so a defect in one limb or at one boundary is invisible to them.',
 [S+'group.cpp',S+'convert.hpp'],
 [('checked constructors',S+'group.cpp: Impl'),('operator==, operator<, isInBounds, isValidResidue',S+'group.cpp'),('toHex/fromHex/bytes_to_p/bytes_to_q',S+'group.cpp, '+S+'convert.hpp')])
prop('C04','ElGamal decryption inverts encryption and ciphertexts add homomorphically',
 "For every key pair, every non-zero nonce r and every vote m in {0,1}, encryption yields (g^r, g^m K^r), with or without precomputed powers, and decrypting it with the secret key returns m. Combining any non-empty list of ciphertexts multiplies the components pairwise, so it encrypts the sum of the votes under the sum of the nonces; a zero nonce, an empty list or a secret key below 2 is rejected.",
 ['inputs'],'all secrets, nonces, votes and ciphertext lists of any length',
 'Tests try a few fixed keys and lists of at most a few ciphertexts.',
 [S+'elgamal.cpp'],
 [('elgamalEncrypt, elgamalEncrypt_with_precomputed, elgamalAdd, decrypt, fromSecret',S+'elgamal.cpp')])
prop('C05','Every honestly generated 0-or-1 proof verifies',
 "For a ciphertext that encrypts vote v in {0,1} with nonce r under key K, the disjunctive proof produced for (r,K,v) - from fresh randomness, from a seed, or from precomputed values - is accepted by the verifier for the same ciphertext, key and base hash, for every choice of randomness that leaves challenges and responses non-zero. A vote above 1 is refused.",
 ['inputs'],'all votes, nonces, keys, base hashes, seeds and random choices, on all six generation paths',
 'The algebraic identity must hold for every one of 2^1000 choices; tests draw a handful and cover the seeded and precomputed paths for one vote only.',
 [S+'chaum_pedersen.cpp',S+'precompute_buffers.cpp'],
 [('make_zero/make_one and the seeded and precomputed variants',S+'chaum_pedersen.cpp')])
prop('C06','The 0-or-1 proof verifier accepts exactly the proofs passing every check',
 "The disjunctive verifier returns true if and only if both ciphertext components and all four commitments are valid residues, both challenges and both responses are in bounds, the two challenges sum to the overall challenge, that challenge equals the hash of base hash, ciphertext and commitments in order, and all four group equations hold. Changing any single proof field so that one of these fails makes it return false.",
 ['inputs'],'every ciphertext, key, base hash and proof content, including adversarial ones that satisfy all checks but one',
 'Soundness quantifies over adversarial proofs; existing tests only tamper with one or two fields at random, which several redundant checks reject at once.',
 [S+'chaum_pedersen.cpp'],[('DisjunctiveChaumPedersenProof::isValid',S+'chaum_pedersen.cpp')])
prop('C07','Every honestly generated constant-sum proof verifies',
 "For a ciphertext encrypting L with nonce r under K, the constant proof produced for (r,K,L), with or without a precomputed triple for K, is accepted by the verifier for the same ciphertext, key and base hash whenever challenge and response are non-zero, and it records L.",
 ['inputs'],'all L, nonces, keys, seeds and base hashes',
 'Tests try a few small constants with fixed nonces.',
 [S+'chaum_pedersen.cpp'],[('ConstantChaumPedersenProof::make',S+'chaum_pedersen.cpp')])
prop('C08','The constant-sum verifier accepts exactly the proofs passing every check',
 "The constant verifier returns true if and only if ciphertext components and commitments are valid residues, challenge and response are in bounds, the challenge equals the hash of base hash, ciphertext and commitments, and both group equations hold for the recorded constant. A proof for one constant is never accepted for an encryption of a different sum by skipping one of these checks.",
 ['inputs'],'every ciphertext, key, base hash and proof content',
 'As for the 0-or-1 verifier: soundness is about adversarial inputs tests do not construct.',
 [S+'chaum_pedersen.cpp'],[('ConstantChaumPedersenProof::isValid',S+'chaum_pedersen.cpp')])
prop('C09','Encrypting a contest records exactly the choices the voter made',
 "Encrypting a contest yields exactly one encryption per described selection carrying the voter's vote for that selection (0 when absent), plus placeholder encryptions set to 1 until the total equals the number elected; for an overvote every real selection encrypts 0 and every placeholder 1. Contests with a wrong id, too many selections or votes other than 0/1 that are not overvotes are rejected, contests missing from the ballot are filled with zeros, and each encrypted selection carries the matching id, order, description hash and a verifying proof.",
 ['inputs'],'all manifests, ballots, vote patterns (under-, exact, overvotes), numbers of selections and placeholders',
 'Tests encrypt a few simple manifests; combinations of vote pattern, number elected and selection order are unbounded.',
 [S+'encrypt.cpp',S+'ballot.cpp'],
 [('encryptContest, encryptSelection, emplaceMissingValues',S+'encrypt.cpp'),('PlaintextBallotContest::isValid',S+'ballot.cpp')])
prop('C10','Encrypted ballot verification accepts exactly fully consistent ballots',
 "Verifying a selection, contest or ballot returns true if and only if the expected description or manifest hash matches, the recorded crypto hash equals the hash recomputed from the contents, the contest total equals the product of its selections, and every proof it covers is present and valid; a ballot is valid only if all of its contests and all of their selections are. The result does not depend on the order in which contests or selections are stored or on identifiers coinciding.",
 ['inputs'],'all ballots with any number of contests and selections, including tampered ones and ones with repeated identifiers',
 'Tests tamper with a few fields of small ballots with unique ids.',
 [S+'ballot.cpp'],
 [('isValidEncryption of selection, contest, ballot',S+'ballot.cpp'),('makeCryptoHash, elgamalAccumulate, aggregateNonce',S+'ballot.cpp')])
prop('C11','Ballot codes chain every ballot to its predecessor',
 "A ballot code equals the hash of the previous code (or seed), the ballot timestamp and the ballot's crypto hash, in that order; the first code of an encryption mediator is seeded with the device hash and every later ballot, full or compact, is seeded with the code of the ballot encrypted immediately before it. A failed encryption does not advance the chain, and a mediator whose manifest and context hashes differ cannot be created.",
 ['histories','inputs'],'all sequences of full/compact/failed encryptions by one mediator',
 'Tests encrypt one or two ballots; the chain invariant is over all histories.',
 [S+'encrypt.cpp',S+'ballot_code.cpp',S+'ballot.cpp'],
 [('EncryptionMediator::encrypt/compactEncrypt',S+'encrypt.cpp'),('BallotCode',S+'ballot_code.cpp')])
prop('C12','Hashing follows the specified encoding and lands in [0,q)',
 "The hash of a list of items is SHA-256 over '|' followed by each item's encoding and '|', reduced mod q: elements as upper-case hex without leading zero bytes, numbers in decimal, hashable objects as the hex of their hash, non-empty nested lists as the hex of their own hash, byte strings as hex, and null, zero, empty string and empty nested list as 'null'. Equal inputs give equal hashes, every item and its position contributes, and the result is always in [0,q).",
 ['inputs'],'all lists of all supported item kinds of any length and nesting',
 'Tests compare a few digests and mostly test inequality of unequal inputs.',
 [S+'hash.cpp'],[('hash_elems, push_hash_update, get_hash_string, hash_inner_vector, hash_close',S+'hash.cpp')])
prop('C13','Nonce sequences are deterministic functions of seed, header and index',
 "The i-th nonce of a sequence equals the hash of (seed, i), or of (seed, i, header) when a per-item header is given, where a sequence created with a header uses the hash of (seed, header) as its seed; a range request returns exactly the nonces at consecutive indices and next returns the one after the last index served. The result depends only on seed, headers and index, not on the order of requests.",
 ['inputs','histories'],'all seeds, headers, indices and request histories',
 'Tests fetch the first few nonces only.',
 [S+'nonces.cpp'],[('Nonces::get/next',S+'nonces.cpp')])
prop('C14','Hashed ElGamal returns the exact message or refuses',
 "For every key pair, nonce and byte message, decrypting a hashed ElGamal ciphertext returns exactly the message (truncated to the padded capacity only when truncation was permitted; too-long or misaligned messages are refused), with or without precomputed triples. If pad, data, authentication code, key or seed differ from what was produced, or the recorded padding is impossible, decryption throws and returns no bytes.",
 ['inputs'],'all message lengths and contents, padding settings, and tampered ciphertexts',
 'Tests use a few lengths; block and padding boundaries and tampered positions are not enumerated.',
 [S+'elgamal.cpp',S+'hmac.cpp'],[('hashedElgamalEncrypt, HashedElGamalCiphertext::decrypt',S+'elgamal.cpp'),('get_hmac',S+'hmac.cpp')])
prop('C15','Compact ballots expand to the ballot they were made from',
 "Compressing a plaintext ballot that lists every contest and selection of its style and expanding it with the same manifest returns the same ids, votes and write-ins in the same positions. Compressing an encrypted ballot keeps its code, seed, nonce and timestamp, and expanding it re-encrypts to a ballot with the same code and crypto hash or throws; it never silently returns a different ballot.",
 ['inputs'],'all manifests, ballot styles and ballots',
 'Tests round-trip one or two small ballots.',
 [S+'ballot_compact.cpp',S+'encrypt.cpp'],[('compress*/expand*',S+'ballot_compact.cpp')])
prop('C16','Manifest validation and contest lookup implement the stated rules',
 "A contest is valid exactly when its number elected fits its selections and votes allowed and its selection ids, candidate ids and sequence orders are all present and distinct; a manifest is valid exactly when all ids are non-empty and unique, every contest is valid with unique sequence order, and every referenced unit and party exists. The internal manifest keeps every contest, adds exactly as many placeholders as seats with sequence orders above all real selections, and returns for a ballot style exactly the contests of its districts in sequence order.",
 ['inputs'],'all manifests of any size',
 'Tests check one valid manifest and a few invalid ones.',
 [S+'manifest.cpp'],[('Manifest::isValid, ContestDescription::isValid',S+'manifest.cpp'),('InternalManifest::getContestsFor, generateContestsWithPlaceholders',S+'manifest.cpp')])
prop('C17','Serialization round-trips and never leaks nonces unless asked',
 "Writing a plaintext, encrypted, submitted or compact ballot, a manifest, internal manifest, election context or encryption device to JSON, BSON or MessagePack (strings valid UTF-8, numbers below 2^63 for BSON, dates to the second) and reading it back gives an object with the same contents and hashes, except that nonces left out read back as zero; lists may be empty and optional texts absent, and an encrypted ballot has its proofs, hashed data and nonces. Encrypted ballots written without the explicit with-nonces option, and submitted ballots, contain no ballot, contest or selection nonce.",
 ['inputs'],'all objects, including ones whose byte fields start with zero bytes or whose optional fields are absent',
 'Tests round-trip one example per type and do not compare every field or look for nonce values.',
 [S+'serialize.hpp',S+'ballot.cpp',S+'manifest.cpp',S+'election.cpp'],[('Serialize::*::toObject/fromObject',S+'serialize.hpp')])
prop('C18','Precomputed values are consistent and handed out at most once',
 "Every precomputed triple holds (e, g^e, K^e) and every quadruple (e1, e2, g^e1, g^e2*K^e1) for the key the buffer was filled with; copying keeps all components. A value taken from the buffer is removed, so no two encryptions or proofs ever receive the same exponents, and an empty buffer yields nothing.",
 ['histories','inputs'],'all sequences of fill, take, stop and clear operations',
 'Tests take a few entries and do not compare them with each other.',
 [S+'precompute_buffers.cpp','include/electionguard/precompute_buffers.hpp'],[('Triple/Quadruple generation; queues',S+'precompute_buffers.cpp')])
prop('C19','The C string list behaves as a sequence',
 "After any sequence of appends and remove-last operations, the list's count equals the number of elements, reading position i returns the i-th appended surviving key and value, positions at or beyond the count give an out-of-range status without touching the outputs, and freeing releases every node exactly once.",
 ['histories'],'all operation sequences of any length',
 'Tests append one or two elements.',
 [S+'facades/collections.c'],[('eg_linked_list_*',S+'facades/collections.c')])
prop('C20','Multi-limb integer primitives compute exact integer results',
 "The fixed-width big-integer primitives under the group layer compute, for every limb content, the exact sum, difference, product and square with the correct carry or borrow, the exact comparison mask, the exact big-endian byte conversion, and - for the moduli p and q the library uses - the exact residue, modular sum, Montgomery conversion and product, and modular power for every exponent; also when the destination aliases an operand where that is allowed; and they read and write only the documented number of limbs.",
 ['inputs'],'all limb contents',
 'Carry chains are only exercised by random operands; a defect needing a specific run of all-ones limbs is never hit.',
 ['src/karamel/Hacl_Bignum256.c','src/karamel/Hacl_Bignum4096.c','src/karamel/Hacl_Bignum.c','src/karamel/Hacl_GenericField64.c'],[('Hacl_Bignum256_*, Hacl_Bignum4096_*','src/karamel')])
prop('C21','Copies are equal to and independent of their source',
 "Copy-constructing, copy-assigning or cloning (where the library defines it) an element, key pair, ciphertext, proof, selection, contest, ballot, precomputed value or manifest object yields an object whose every component equals the source's, and leaves the source unchanged.",
 ['inputs'],'all objects of all value types',
 'Tests rarely inspect a copy, and never the source afterwards.',
 [S+'group.cpp',S+'elgamal.cpp',S+'chaum_pedersen.cpp',S+'ballot.cpp',S+'manifest.cpp',S+'election.cpp',S+'precompute_buffers.cpp'],[('Impl::clone, clone(), copy constructors','all value classes')])
prop('C22','The election context binds parameters, manifest and keys into its hashes',
 "An election context's base hash equals the hash of p, q, g, the number of guardians, the quorum and the manifest hash, its extended base hash equals the hash of the base hash and the commitment hash, and its getters return the values it was made from. Any change to one of these parameters changes the hash input accordingly.",
 ['inputs'],'all numbers of guardians, quorums, keys and hashes',
 'Tests check one context.',
 [S+'election.cpp'],[('CiphertextElectionContext::make',S+'election.cpp')])
prop('C23','The C interface reports failures as status codes, never as exceptions',
 "Every C entry point returns the success status exactly when the wrapped operation succeeded, in which case the output refers to its result, and otherwise returns an error status without letting a C++ exception cross the boundary.",
 ['inputs'],'all C entry points and all argument values accepted by the wrapped operation',
 'Tests call a fraction of the entry points on the success path.',
 [S+'facades'],[('try/catch wrappers',S+'facades/*.cpp')])
prop('C24','Concurrent encryption with shared caches is free of races',
 "Concurrent use of exponentiation caches, precompute buffers and hashing from several threads gives the same results as sequential use, for every interleaving.",
 ['schedules'],'all thread interleavings',
 'Tests run single-threaded or with a couple of schedules.',
 [S+'async.hpp',S+'lookup_table.hpp',S+'precompute_buffers.cpp'],[('LookupTableContext, PrecomputeBufferContext',S+'lookup_table.hpp')])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+'\n')
