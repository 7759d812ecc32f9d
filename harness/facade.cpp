// facade <entry point> <k>: the entry point against the wrapped operation, on sample k
#include "facade.hpp"
std::map<string, Test> &tests() { static std::map<string, Test> m; return m; }
CMD("facades") { string r; for (auto &t : tests()) r += (r.empty() ? "" : " ") + t.first; return r; }
CMD("facade") { auto t = tests().find(a[0]); if (t == tests().end()) return "none"; try { t->second((int)U(a[1])); } catch (const Bad &b) { return "bad " + enhex(b.what); } return "fine"; }
// ---- by hand: what is random, or takes elements as limbs
FT(eg_element_mod_q_rand_q_new) { eg_element_mod_q_t *o = nullptr, *p = nullptr; status(false, eg_element_mod_q_rand_q_new(&o)); status(false, eg_element_mod_q_rand_q_new(&p)); if (!o || !p || !((ElementModQ *)o)->isInBounds() || H((ElementModQ *)o) == H((ElementModQ *)p)) FAIL("not a random element"); }
template <size_t N, class F> static void limbsof(int k, F f) { uint64_t a[N]; for (size_t i = 0; i < N; i++) a[i] = k == 0 ? 0 : k == 1 ? i + 5 : k == 2 ? ~0ull : (i == N - 1 ? 1 : ~0ull); f(a); }
FT(eg_element_mod_q_new) { limbsof<MAX_Q_LEN>(k, [](uint64_t (&a)[MAX_Q_LEN]) { eg_element_mod_q_t *o = nullptr; unique_ptr<ElementModQ> e; TRY(e = make_unique<ElementModQ>(a)); status(threw, eg_element_mod_q_new(a, &o)); if (!threw) same<ElementModQ>(o, e); }); }
FT(eg_element_mod_q_new_unchecked) { limbsof<MAX_Q_LEN>(k, [](uint64_t (&a)[MAX_Q_LEN]) { eg_element_mod_q_t *o = nullptr; unique_ptr<ElementModQ> e; TRY(e = make_unique<ElementModQ>(a, true)); status(threw, eg_element_mod_q_new_unchecked(a, &o)); if (!threw) same<ElementModQ>(o, e); }); }
FT(eg_element_mod_p_new) { limbsof<MAX_P_LEN>(k, [](uint64_t (&a)[MAX_P_LEN]) { eg_element_mod_p_t *o = nullptr; unique_ptr<ElementModP> e; TRY(e = make_unique<ElementModP>(a)); status(threw, eg_element_mod_p_new(a, &o)); if (!threw) same<ElementModP>(o, e); }); }
FT(eg_element_mod_p_new_unchecked) { limbsof<MAX_P_LEN>(k, [](uint64_t (&a)[MAX_P_LEN]) { eg_element_mod_p_t *o = nullptr; unique_ptr<ElementModP> e; TRY(e = make_unique<ElementModP>(a, true)); status(threw, eg_element_mod_p_new_unchecked(a, &o)); if (!threw) same<ElementModP>(o, e); }); }
FT(eg_element_mod_q_get_data) { uint64_t *o = nullptr, n = 0; status(false, eg_element_mod_q_get_data((eg_element_mod_q_t *)&ob<ElementModQ>(k), &o, &n)); sameN(n, MAX_Q_LEN); if (limbhex(o, n) != H(ob<ElementModQ>(k))) FAIL("other limbs"); }
FT(eg_element_mod_p_get_data) { uint64_t *o = nullptr, n = 0; status(false, eg_element_mod_p_get_data((eg_element_mod_p_t *)&ob<ElementModP>(k), &o, &n)); sameN(n, MAX_P_LEN); if (limbhex(o, n) != H(ob<ElementModP>(k))) FAIL("other limbs"); }
FT(eg_disjunctive_chaum_pedersen_proof_make) { auto &c = ob<ElGamalCiphertext>(k); auto K = ob<ElGamalKeyPair>(0).getPublicKey(); auto r = sq(k + 2), q = sq(4); eg_disjunctive_chaum_pedersen_proof_t *o = nullptr; status(false, eg_disjunctive_chaum_pedersen_proof_make((eg_elgamal_ciphertext_t *)&c, (eg_element_mod_q_t *)r.get(), (eg_element_mod_p_t *)K, (eg_element_mod_q_t *)q.get(), k & 1, &o)); if (!((DisjunctiveChaumPedersenProof *)o)->isValid(c, *K, *q)) FAIL("not a proof"); }
template <class F> static void encrypted(int k, F f) { eg_ciphertext_ballot_t *o = nullptr; status(false, f((eg_plaintext_ballot_t *)&ob<PlaintextBallot>(k), &o)); auto &b = *(CiphertextBallot *)o; if (!o || b.getContests().size() != (size_t)k + 1 || b.getObjectId() != ob<PlaintextBallot>(k).getObjectId() || !b.isValidEncryption(*ob<InternalManifest>(k).getManifestHash(), *ob<ElGamalKeyPair>(0).getPublicKey(), *ob<Context>(k).getCryptoExtendedBaseHash())) FAIL("not an encryption of the ballot"); }
template <class F> static void compact(int k, F f) { eg_compact_ciphertext_ballot_t *o = nullptr; status(false, f((eg_plaintext_ballot_t *)&ob<PlaintextBallot>(k), &o)); if (!o || ((CompactCiphertextBallot *)o)->getObjectId() != ob<PlaintextBallot>(k).getObjectId()) FAIL("not a compact encryption of the ballot"); }
FT(eg_encryption_mediator_encrypt_ballot) { auto m = mk<EncryptionMediator>(k); encrypted(k, [&](auto b, auto o) { return eg_encryption_mediator_encrypt_ballot((eg_encryption_mediator_t *)m.get(), b, o); }); }
FT(eg_encryption_mediator_encrypt_ballot_verify_proofs) { auto m = mk<EncryptionMediator>(k); encrypted(k, [&](auto b, auto o) { return eg_encryption_mediator_encrypt_ballot_verify_proofs((eg_encryption_mediator_t *)m.get(), b, o); }); }
FT(eg_encryption_mediator_compact_encrypt_ballot) { auto m = mk<EncryptionMediator>(k); compact(k, [&](auto b, auto o) { return eg_encryption_mediator_compact_encrypt_ballot((eg_encryption_mediator_t *)m.get(), b, o); }); }
FT(eg_encryption_mediator_compact_encrypt_ballot_verify_proofs) { auto m = mk<EncryptionMediator>(k); compact(k, [&](auto b, auto o) { return eg_encryption_mediator_compact_encrypt_ballot_verify_proofs((eg_encryption_mediator_t *)m.get(), b, o); }); }
#define IM (eg_internal_manifest_t *)&ob<InternalManifest>(k)
#define CX (eg_ciphertext_election_context_t *)&ob<Context>(k)
#define SQ(i) (eg_element_mod_q_t *)mk<ElementModQ>(i).release()
FT(eg_encrypt_ballot) { encrypted(k, [&](auto b, auto o) { return eg_encrypt_ballot(b, IM, CX, SQ(k), k & 1, o); }); }
FT(eg_encrypt_ballot_with_nonce) { encrypted(k, [&](auto b, auto o) { return eg_encrypt_ballot_with_nonce(b, IM, CX, SQ(k), SQ(k + 1), k & 1, o); }); }
FT(eg_encrypt_compact_ballot) { compact(k, [&](auto b, auto o) { return eg_encrypt_compact_ballot(b, IM, CX, SQ(k), k & 1, o); }); }
FT(eg_encrypt_compact_ballot_with_nonce) { compact(k, [&](auto b, auto o) { return eg_encrypt_compact_ballot_with_nonce(b, IM, CX, SQ(k), SQ(k + 1), k & 1, o); }); }
FT(eg_encryption_device_to_json) { char *o = nullptr; uint64_t n = 0; status(false, eg_encryption_device_to_json((eg_encryption_device_t *)&ob<EncryptionDevice>(k), &o, &n)); auto d = EncryptionDevice::fromJson(o); sameN(n, strlen(o) + 1); if (dump(d.get()) != dump(&ob<EncryptionDevice>(k))) FAIL("another device"); }
// a list of pairs, as the extended data of a context
static eg_linked_list_t *pairs(int k) { eg_linked_list_t *l = nullptr; eg_linked_list_new(&l); for (int i = 0; i < k; i++) eg_linked_list_append(l, (char *)("k" + std::to_string(i)).c_str(), (char *)sample(k, i).c_str()); return l; }
static std::unordered_map<string, string> pairmap(int k) { std::unordered_map<string, string> m; for (int i = 0; i < k; i++) m["k" + std::to_string(i)] = sample(k, i); return m; }
FT(eg_ciphertext_election_context_get_extended_data) { eg_linked_list_t *l = nullptr; status(false, eg_ciphertext_election_context_get_extended_data(CX, &l)); std::unordered_map<string, string> m; for (uint64_t i = 0; i < eg_linked_list_get_count(l); i++) { char *a = nullptr, *b = nullptr; eg_linked_list_get_element_at(l, i, &a, &b); m[a] = b; } if (dump(m) != dump(ob<Context>(k).getExtendedData()) || eg_linked_list_get_count(l) != m.size()) FAIL("other extended data"); }
#define ELT(T, i) (eg_element_mod_##T##_t *)
#define KEY ob<ElGamalKeyPair>(0).getPublicKey()
FT(eg_ciphertext_election_context_make_with_extended_data) { eg_ciphertext_election_context_t *o = nullptr; status(false, eg_ciphertext_election_context_make_with_extended_data(3 + k, 2 + k, (eg_element_mod_p_t *)KEY, SQ(1), SQ(2), pairs(k), &o)); same<Context>(o, Context::make(3 + k, 2 + k, KEY->clone(), sq(1), sq(2), pairmap(k))); }
FT(eg_ciphertext_election_context_make_with_configuration) { eg_ciphertext_election_context_t *o = nullptr; status(false, eg_ciphertext_election_context_make_with_configuration(3 + k, 2 + k, (eg_element_mod_p_t *)KEY, SQ(1), SQ(2), (eg_context_configuration_t *)&ob<ContextConfiguration>(k), &o)); same<Context>(o, Context::make(3 + k, 2 + k, KEY->clone(), sq(1), sq(2), mk<ContextConfiguration>(k))); }
FT(eg_ciphertext_election_context_make_with_configuration_and_extended_data) { eg_ciphertext_election_context_t *o = nullptr; status(false, eg_ciphertext_election_context_make_with_configuration_and_extended_data(3 + k, 2 + k, (eg_element_mod_p_t *)KEY, SQ(1), SQ(2), (eg_context_configuration_t *)&ob<ContextConfiguration>(k), pairs(k), &o)); same<Context>(o, Context::make(3 + k, 2 + k, KEY->clone(), sq(1), sq(2), mk<ContextConfiguration>(k), pairmap(k))); }
FT(eg_ciphertext_election_context_make_from_hex) { eg_ciphertext_election_context_t *o = nullptr; auto K = k == 3 ? string("zz") : KEY->toHex(); auto a = sq(1)->toHex(), b = sq(2)->toHex(); unique_ptr<Context> e; TRY(e = Context::make(3 + k, 2 + k, K, a, b)); status(threw, eg_ciphertext_election_context_make_from_hex(3 + k, 2 + k, K.c_str(), a.c_str(), b.c_str(), &o)); if (!threw) same<Context>(o, e); }
FT(eg_ciphertext_election_context_make_from_hex_with_extended_data) { eg_ciphertext_election_context_t *o = nullptr; auto K = KEY->toHex(), a = sq(1)->toHex(), b = sq(2)->toHex(); status(false, eg_ciphertext_election_context_make_from_hex_with_extended_data(3 + k, 2 + k, K.c_str(), a.c_str(), b.c_str(), pairs(k), &o)); same<Context>(o, Context::make(3 + k, 2 + k, K, a, b, pairmap(k))); }
FT(eg_precompute_status) { int a = -1, b = -1; status(false, eg_precompute_init(7 + k)); status(false, eg_precompute_status(&a, &b)); sameN(b, 7 + k); PrecomputeBufferContext::empty_queues(); }
