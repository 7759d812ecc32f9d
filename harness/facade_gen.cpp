// generated by tools/mkfacadeharness.py from props/C23_contract.json
#include "facade.hpp"
extern "C" eg_electionguard_status_t real_eg_annotated_string_crypto_hash(eg_annotated_string_t *, eg_element_mod_q_t **) __asm__("eg_annotated_string_crypto_hash");
FT(eg_annotated_string_crypto_hash) {
    auto a0 = arg<AnnotatedString>(k, k).release(), b0 = arg<AnnotatedString>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_annotated_string_crypto_hash((eg_annotated_string_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_annotated_string_crypto_hash((eg_annotated_string_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_annotated_string_free(eg_annotated_string_t *) __asm__("eg_annotated_string_free");
FT(eg_annotated_string_free) {
    auto p = mk<AnnotatedString>(k).release();
    status(false, real_eg_annotated_string_free((eg_annotated_string_t *)p));
    if (real_eg_annotated_string_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_annotated_string_get_annotation(eg_annotated_string_t *, const char **) __asm__("eg_annotated_string_get_annotation");
FT(eg_annotated_string_get_annotation) {
    auto a0 = arg<AnnotatedString>(k, k).release(), b0 = arg<AnnotatedString>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getAnnotation()); status(threw, real_eg_annotated_string_get_annotation((eg_annotated_string_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_annotated_string_get_value(eg_annotated_string_t *, const char **) __asm__("eg_annotated_string_get_value");
FT(eg_annotated_string_get_value) {
    auto a0 = arg<AnnotatedString>(k, k).release(), b0 = arg<AnnotatedString>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getValue()); status(threw, real_eg_annotated_string_get_value((eg_annotated_string_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_annotated_string_new(const char *, const char *, eg_annotated_string_t **) __asm__("eg_annotated_string_new");
FT(eg_annotated_string_new) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    eg_annotated_string_t * o2{};
    bool threw = false; try { auto &&e = unique_ptr<AnnotatedString>(new AnnotatedString(s0, s1)); (void)e; status(false, real_eg_annotated_string_new((const char *)s0.c_str(), (const char *)s1.c_str(), &o2)); same<AnnotatedString>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_annotated_string_new((const char *)s0.c_str(), (const char *)s1.c_str(), &o2));
}
extern "C" eg_electionguard_status_t real_eg_ballot_code_get_ballot_code(eg_element_mod_q_t *, uint64_t, eg_element_mod_q_t *, eg_element_mod_q_t **) __asm__("eg_ballot_code_get_ballot_code");
FT(eg_ballot_code_get_ballot_code) {
    auto a0 = arg<ElementModQ>(k, 5).release(), b0 = arg<ElementModQ>(k, 5).release();
    uint64_t n1 = 4 + k;
    auto a2 = arg<ElementModQ>(k, k + 2).release(), b2 = arg<ElementModQ>(k, k + 2).release();
    eg_element_mod_q_t * o3{};
    bool threw = false; try { auto &&e = BallotCode::getBallotCode(A<ElementModQ>{b0}, n1, A<ElementModQ>{b2}); (void)e; status(false, real_eg_ballot_code_get_ballot_code((eg_element_mod_q_t *)a0, n1, (eg_element_mod_q_t *)a2, &o3)); same<ElementModQ>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ballot_code_get_ballot_code((eg_element_mod_q_t *)a0, n1, (eg_element_mod_q_t *)a2, &o3));
}
extern "C" eg_electionguard_status_t real_eg_ballot_code_get_hash_for_device(uint64_t, uint64_t, uint64_t, const char *, eg_element_mod_q_t **) __asm__("eg_ballot_code_get_hash_for_device");
FT(eg_ballot_code_get_hash_for_device) {
    uint64_t n0 = 3 + k;
    uint64_t n1 = 4 + k;
    uint64_t n2 = 5 + k;
    string s3 = sample(k, 63);
    eg_element_mod_q_t * o4{};
    bool threw = false; try { auto &&e = BallotCode::getHashForDevice(n0, n1, n2, s3); (void)e; status(false, real_eg_ballot_code_get_hash_for_device(n0, n1, n2, (const char *)s3.c_str(), &o4)); same<ElementModQ>(o4, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ballot_code_get_hash_for_device(n0, n1, n2, (const char *)s3.c_str(), &o4));
}
extern "C" eg_electionguard_status_t real_eg_ballot_style_crypto_hash(eg_ballot_style_t *, eg_element_mod_q_t **) __asm__("eg_ballot_style_crypto_hash");
FT(eg_ballot_style_crypto_hash) {
    auto a0 = arg<BallotStyle>(k, k).release(), b0 = arg<BallotStyle>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_ballot_style_crypto_hash((eg_ballot_style_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ballot_style_crypto_hash((eg_ballot_style_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ballot_style_free(eg_ballot_style_t *) __asm__("eg_ballot_style_free");
FT(eg_ballot_style_free) {
    auto p = mk<BallotStyle>(k).release();
    status(false, real_eg_ballot_style_free((eg_ballot_style_t *)p));
    if (real_eg_ballot_style_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_ballot_style_get_geopolitical_unit_id_at_index(eg_ballot_style_t *, uint64_t, char **) __asm__("eg_ballot_style_get_geopolitical_unit_id_at_index");
FT(eg_ballot_style_get_geopolitical_unit_id_at_index) {
    auto a0 = arg<BallotStyle>(k, k).release(), b0 = arg<BallotStyle>(k, k).release();
    for (uint64_t z = b0->getGeopoliticalUnitIds().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    char * o2{};
    string e; TRY(e = b0->getGeopoliticalUnitIds().at(n1)); status(threw, real_eg_ballot_style_get_geopolitical_unit_id_at_index((eg_ballot_style_t *)a0, n1, &o2)); if (!threw) sameS(o2, e);
    }
}
extern "C" uint64_t real_eg_ballot_style_get_geopolitical_unit_ids_size(eg_ballot_style_t *) __asm__("eg_ballot_style_get_geopolitical_unit_ids_size");
FT(eg_ballot_style_get_geopolitical_unit_ids_size) {
    auto a0 = arg<BallotStyle>(k, k).release(), b0 = arg<BallotStyle>(k, k).release();
    sameN((uint64_t)real_eg_ballot_style_get_geopolitical_unit_ids_size((eg_ballot_style_t *)a0), (uint64_t)b0->getGeopoliticalUnitIds().size());
}
extern "C" eg_electionguard_status_t real_eg_ballot_style_get_image_uri(eg_ballot_style_t *, const char **) __asm__("eg_ballot_style_get_image_uri");
FT(eg_ballot_style_get_image_uri) {
    auto a0 = arg<BallotStyle>(k, k).release(), b0 = arg<BallotStyle>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getImageUri()); status(threw, real_eg_ballot_style_get_image_uri((eg_ballot_style_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_ballot_style_get_object_id(eg_ballot_style_t *, const char **) __asm__("eg_ballot_style_get_object_id");
FT(eg_ballot_style_get_object_id) {
    auto a0 = arg<BallotStyle>(k, k).release(), b0 = arg<BallotStyle>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_ballot_style_get_object_id((eg_ballot_style_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_ballot_style_get_party_id_at_index(eg_ballot_style_t *, uint64_t, char **) __asm__("eg_ballot_style_get_party_id_at_index");
FT(eg_ballot_style_get_party_id_at_index) {
    auto a0 = arg<BallotStyle>(k, k).release(), b0 = arg<BallotStyle>(k, k).release();
    for (uint64_t z = b0->getPartyIds().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    char * o2{};
    string e; TRY(e = b0->getPartyIds().at(n1)); status(threw, real_eg_ballot_style_get_party_id_at_index((eg_ballot_style_t *)a0, n1, &o2)); if (!threw) sameS(o2, e);
    }
}
extern "C" uint64_t real_eg_ballot_style_get_party_ids_size(eg_ballot_style_t *) __asm__("eg_ballot_style_get_party_ids_size");
FT(eg_ballot_style_get_party_ids_size) {
    auto a0 = arg<BallotStyle>(k, k).release(), b0 = arg<BallotStyle>(k, k).release();
    sameN((uint64_t)real_eg_ballot_style_get_party_ids_size((eg_ballot_style_t *)a0), (uint64_t)b0->getPartyIds().size());
}
extern "C" eg_electionguard_status_t real_eg_ballot_style_new(char *, char **, const uint64_t, eg_ballot_style_t **) __asm__("eg_ballot_style_new");
FT(eg_ballot_style_new) {
    string s0 = sample(k, 60);
    vector<string> w1; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w1.push_back(sample(k, 50 + i));
    vector<const char *> v1; for (auto &s : w1) v1.push_back(s.c_str());
    eg_ballot_style_t * o3{};
    bool threw = false; try { auto &&e = unique_ptr<BallotStyle>(new BallotStyle(s0, w1)); (void)e; status(false, real_eg_ballot_style_new((char *)s0.c_str(), (char **)v1.data(), v1.size(), &o3)); same<BallotStyle>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ballot_style_new((char *)s0.c_str(), (char **)v1.data(), v1.size(), &o3));
}
extern "C" eg_electionguard_status_t real_eg_ballot_style_new_with_parties(char *, char **, const uint64_t, char **, const uint64_t, char *, eg_ballot_style_t **) __asm__("eg_ballot_style_new_with_parties");
FT(eg_ballot_style_new_with_parties) {
    string s0 = sample(k, 60);
    vector<string> w1; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w1.push_back(sample(k, 50 + i));
    vector<const char *> v1; for (auto &s : w1) v1.push_back(s.c_str());
    vector<string> w3; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w3.push_back(sample(k, 50 + i));
    vector<const char *> v3; for (auto &s : w3) v3.push_back(s.c_str());
    string s5 = sample(k, 65);
    eg_ballot_style_t * o6{};
    bool threw = false; try { auto &&e = unique_ptr<BallotStyle>(new BallotStyle(s0, w1, w3, s5)); (void)e; status(false, real_eg_ballot_style_new_with_parties((char *)s0.c_str(), (char **)v1.data(), v1.size(), (char **)v3.data(), v3.size(), (char *)s5.c_str(), &o6)); same<BallotStyle>(o6, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ballot_style_new_with_parties((char *)s0.c_str(), (char **)v1.data(), v1.size(), (char **)v3.data(), v3.size(), (char *)s5.c_str(), &o6));
}
extern "C" eg_electionguard_status_t real_eg_candidate_crypto_hash(eg_candidate_t *, eg_element_mod_q_t **) __asm__("eg_candidate_crypto_hash");
FT(eg_candidate_crypto_hash) {
    auto a0 = arg<Candidate>(k, k).release(), b0 = arg<Candidate>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_candidate_crypto_hash((eg_candidate_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_candidate_crypto_hash((eg_candidate_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_candidate_free(eg_candidate_t *) __asm__("eg_candidate_free");
FT(eg_candidate_free) {
    auto p = mk<Candidate>(k).release();
    status(false, real_eg_candidate_free((eg_candidate_t *)p));
    if (real_eg_candidate_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_candidate_get_candidate_id(eg_candidate_t *, const char **) __asm__("eg_candidate_get_candidate_id");
FT(eg_candidate_get_candidate_id) {
    auto a0 = arg<Candidate>(k, k).release(), b0 = arg<Candidate>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getCandidateId()); status(threw, real_eg_candidate_get_candidate_id((eg_candidate_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_candidate_get_image_uri(eg_candidate_t *, const char **) __asm__("eg_candidate_get_image_uri");
FT(eg_candidate_get_image_uri) {
    auto a0 = arg<Candidate>(k, k).release(), b0 = arg<Candidate>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getImageUri()); status(threw, real_eg_candidate_get_image_uri((eg_candidate_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" bool real_eg_candidate_get_is_write_in(eg_candidate_t *) __asm__("eg_candidate_get_is_write_in");
FT(eg_candidate_get_is_write_in) {
    auto a0 = arg<Candidate>(k, k).release(), b0 = arg<Candidate>(k, k).release();
    sameN((uint64_t)real_eg_candidate_get_is_write_in((eg_candidate_t *)a0), (uint64_t)b0->isWriteIn());
}
extern "C" eg_electionguard_status_t real_eg_candidate_get_name(eg_candidate_t *, eg_internationalized_text_t **) __asm__("eg_candidate_get_name");
FT(eg_candidate_get_name) {
    auto a0 = arg<Candidate>(k, k).release(), b0 = arg<Candidate>(k, k).release();
    eg_internationalized_text_t * o1{};
    bool threw = false; try { auto &&e = b0->getName(); (void)e; status(false, real_eg_candidate_get_name((eg_candidate_t *)a0, &o1)); same<InternationalizedText>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_candidate_get_name((eg_candidate_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_candidate_get_object_id(eg_candidate_t *, const char **) __asm__("eg_candidate_get_object_id");
FT(eg_candidate_get_object_id) {
    auto a0 = arg<Candidate>(k, k).release(), b0 = arg<Candidate>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_candidate_get_object_id((eg_candidate_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_candidate_get_party_id(eg_candidate_t *, const char **) __asm__("eg_candidate_get_party_id");
FT(eg_candidate_get_party_id) {
    auto a0 = arg<Candidate>(k, k).release(), b0 = arg<Candidate>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getPartyId()); status(threw, real_eg_candidate_get_party_id((eg_candidate_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_candidate_new(char *, bool, eg_candidate_t **) __asm__("eg_candidate_new");
FT(eg_candidate_new) {
    string s0 = sample(k, 60);
    bool n1 = (k >> 1) & 1;
    eg_candidate_t * o2{};
    bool threw = false; try { auto &&e = unique_ptr<Candidate>(new Candidate(s0, n1)); (void)e; status(false, real_eg_candidate_new((char *)s0.c_str(), n1, &o2)); same<Candidate>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_candidate_new((char *)s0.c_str(), n1, &o2));
}
extern "C" eg_electionguard_status_t real_eg_candidate_new_with_extras(char *, eg_internationalized_text_t *, char *, char *, bool, eg_candidate_t **) __asm__("eg_candidate_new_with_extras");
FT(eg_candidate_new_with_extras) {
    string s0 = sample(k, 60);
    auto a1 = arg<InternationalizedText>(k, k + 1).release(), b1 = arg<InternationalizedText>(k, k + 1).release();
    string s2 = sample(k, 62);
    string s3 = sample(k, 63);
    bool n4 = (k >> 0) & 1;
    eg_candidate_t * o5{};
    bool threw = false; try { auto &&e = unique_ptr<Candidate>(new Candidate(s0, A<InternationalizedText>{b1}, s2, s3, n4)); (void)e; status(false, real_eg_candidate_new_with_extras((char *)s0.c_str(), (eg_internationalized_text_t *)a1, (char *)s2.c_str(), (char *)s3.c_str(), n4, &o5)); same<Candidate>(o5, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_candidate_new_with_extras((char *)s0.c_str(), (eg_internationalized_text_t *)a1, (char *)s2.c_str(), (char *)s3.c_str(), n4, &o5));
}
extern "C" eg_electionguard_status_t real_eg_candidate_new_with_party(char *, char *, bool, eg_candidate_t **) __asm__("eg_candidate_new_with_party");
FT(eg_candidate_new_with_party) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    bool n2 = (k >> 0) & 1;
    eg_candidate_t * o3{};
    bool threw = false; try { auto &&e = unique_ptr<Candidate>(new Candidate(s0, s1, n2)); (void)e; status(false, real_eg_candidate_new_with_party((char *)s0.c_str(), (char *)s1.c_str(), n2, &o3)); same<Candidate>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_candidate_new_with_party((char *)s0.c_str(), (char *)s1.c_str(), n2, &o3));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_aggregate_nonce(eg_ciphertext_ballot_contest_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_contest_aggregate_nonce");
FT(eg_ciphertext_ballot_contest_aggregate_nonce) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->aggregateNonce(); (void)e; status(false, real_eg_ciphertext_ballot_contest_aggregate_nonce((eg_ciphertext_ballot_contest_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_aggregate_nonce((eg_ciphertext_ballot_contest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_crypto_hash_with(eg_ciphertext_ballot_contest_t *, eg_element_mod_q_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_contest_crypto_hash_with");
FT(eg_ciphertext_ballot_contest_crypto_hash_with) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    eg_element_mod_q_t * o2{};
    bool threw = false; try { auto &&e = b0->crypto_hash_with(A<ElementModQ>{b1}); (void)e; status(false, real_eg_ciphertext_ballot_contest_crypto_hash_with((eg_ciphertext_ballot_contest_t *)a0, (eg_element_mod_q_t *)a1, &o2)); same<ElementModQ>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_crypto_hash_with((eg_ciphertext_ballot_contest_t *)a0, (eg_element_mod_q_t *)a1, &o2));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_elgamal_accumulate(eg_ciphertext_ballot_contest_t *, eg_elgamal_ciphertext_t **) __asm__("eg_ciphertext_ballot_contest_elgamal_accumulate");
FT(eg_ciphertext_ballot_contest_elgamal_accumulate) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    eg_elgamal_ciphertext_t * o1{};
    bool threw = false; try { auto &&e = b0->elgamalAccumulate(); (void)e; status(false, real_eg_ciphertext_ballot_contest_elgamal_accumulate((eg_ciphertext_ballot_contest_t *)a0, &o1)); same<ElGamalCiphertext>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_elgamal_accumulate((eg_ciphertext_ballot_contest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_free(eg_ciphertext_ballot_contest_t *) __asm__("eg_ciphertext_ballot_contest_free");
FT(eg_ciphertext_ballot_contest_free) {
    auto p = mk<CiphertextBallotContest>(k).release();
    status(false, real_eg_ciphertext_ballot_contest_free((eg_ciphertext_ballot_contest_t *)p));
    if (real_eg_ciphertext_ballot_contest_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_get_ciphertext_accumulation(eg_ciphertext_ballot_contest_t *, eg_elgamal_ciphertext_t **) __asm__("eg_ciphertext_ballot_contest_get_ciphertext_accumulation");
FT(eg_ciphertext_ballot_contest_get_ciphertext_accumulation) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    eg_elgamal_ciphertext_t * o1{};
    bool threw = false; try { auto &&e = b0->getCiphertextAccumulation(); (void)e; status(false, real_eg_ciphertext_ballot_contest_get_ciphertext_accumulation((eg_ciphertext_ballot_contest_t *)a0, &o1)); same<ElGamalCiphertext>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_get_ciphertext_accumulation((eg_ciphertext_ballot_contest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_get_crypto_hash(eg_ciphertext_ballot_contest_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_contest_get_crypto_hash");
FT(eg_ciphertext_ballot_contest_get_crypto_hash) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getCryptoHash(); (void)e; status(false, real_eg_ciphertext_ballot_contest_get_crypto_hash((eg_ciphertext_ballot_contest_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_get_crypto_hash((eg_ciphertext_ballot_contest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_get_description_hash(eg_ciphertext_ballot_contest_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_contest_get_description_hash");
FT(eg_ciphertext_ballot_contest_get_description_hash) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getDescriptionHash(); (void)e; status(false, real_eg_ciphertext_ballot_contest_get_description_hash((eg_ciphertext_ballot_contest_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_get_description_hash((eg_ciphertext_ballot_contest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_get_nonce(eg_ciphertext_ballot_contest_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_contest_get_nonce");
FT(eg_ciphertext_ballot_contest_get_nonce) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getNonce(); (void)e; status(false, real_eg_ciphertext_ballot_contest_get_nonce((eg_ciphertext_ballot_contest_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_get_nonce((eg_ciphertext_ballot_contest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_get_object_id(eg_ciphertext_ballot_contest_t *, char **) __asm__("eg_ciphertext_ballot_contest_get_object_id");
FT(eg_ciphertext_ballot_contest_get_object_id) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_ciphertext_ballot_contest_get_object_id((eg_ciphertext_ballot_contest_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_get_proof(eg_ciphertext_ballot_contest_t *, eg_constant_chaum_pedersen_proof_t **) __asm__("eg_ciphertext_ballot_contest_get_proof");
FT(eg_ciphertext_ballot_contest_get_proof) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    eg_constant_chaum_pedersen_proof_t * o1{};
    bool threw = false; try { auto &&e = b0->getProof(); (void)e; status(false, real_eg_ciphertext_ballot_contest_get_proof((eg_ciphertext_ballot_contest_t *)a0, &o1)); same<ConstantChaumPedersenProof>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_get_proof((eg_ciphertext_ballot_contest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_contest_get_selection_at_index(eg_ciphertext_ballot_contest_t *, uint64_t, eg_ciphertext_ballot_selection_t **) __asm__("eg_ciphertext_ballot_contest_get_selection_at_index");
FT(eg_ciphertext_ballot_contest_get_selection_at_index) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getSelections().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_ciphertext_ballot_selection_t * o2{};
    bool threw = false; try { auto e = b0->getSelections().at(n1); (void)e; status(false, real_eg_ciphertext_ballot_contest_get_selection_at_index((eg_ciphertext_ballot_contest_t *)a0, n1, &o2)); same<CiphertextBallotSelection>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_contest_get_selection_at_index((eg_ciphertext_ballot_contest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_ciphertext_ballot_contest_get_selections_size(eg_ciphertext_ballot_contest_t *) __asm__("eg_ciphertext_ballot_contest_get_selections_size");
FT(eg_ciphertext_ballot_contest_get_selections_size) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_ciphertext_ballot_contest_get_selections_size((eg_ciphertext_ballot_contest_t *)a0), (uint64_t)b0->getSelections().size());
}
extern "C" uint64_t real_eg_ciphertext_ballot_contest_get_sequence_order(eg_ciphertext_ballot_contest_t *) __asm__("eg_ciphertext_ballot_contest_get_sequence_order");
FT(eg_ciphertext_ballot_contest_get_sequence_order) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_ciphertext_ballot_contest_get_sequence_order((eg_ciphertext_ballot_contest_t *)a0), (uint64_t)b0->getSequenceOrder());
}
extern "C" bool real_eg_ciphertext_ballot_contest_is_valid_encryption(eg_ciphertext_ballot_contest_t *, eg_element_mod_q_t *, eg_element_mod_p_t *, eg_element_mod_q_t *) __asm__("eg_ciphertext_ballot_contest_is_valid_encryption");
FT(eg_ciphertext_ballot_contest_is_valid_encryption) {
    auto a0 = &ob<CiphertextBallotContest>(k % 4), b0 = a0;
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, k + 3).release(), b3 = arg<ElementModQ>(k, k + 3).release();
    sameN((uint64_t)real_eg_ciphertext_ballot_contest_is_valid_encryption((eg_ciphertext_ballot_contest_t *)a0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3), (uint64_t)b0->isValidEncryption(A<ElementModQ>{b1}, A<ElementModP>{b2}, A<ElementModQ>{b3}));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_crypto_hash_with(eg_ciphertext_ballot_t *, eg_element_mod_q_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_crypto_hash_with");
FT(eg_ciphertext_ballot_crypto_hash_with) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    eg_element_mod_q_t * o2{};
    bool threw = false; try { auto &&e = b0->crypto_hash_with(A<ElementModQ>{b1}); (void)e; status(false, real_eg_ciphertext_ballot_crypto_hash_with((eg_ciphertext_ballot_t *)a0, (eg_element_mod_q_t *)a1, &o2)); same<ElementModQ>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_crypto_hash_with((eg_ciphertext_ballot_t *)a0, (eg_element_mod_q_t *)a1, &o2));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_free(eg_ciphertext_ballot_t *) __asm__("eg_ciphertext_ballot_free");
FT(eg_ciphertext_ballot_free) {
    auto p = mk<CiphertextBallot>(k).release();
    status(false, real_eg_ciphertext_ballot_free((eg_ciphertext_ballot_t *)p));
    if (real_eg_ciphertext_ballot_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_from_bson(uint8_t *, uint64_t, eg_ciphertext_ballot_t **) __asm__("eg_ciphertext_ballot_from_bson");
FT(eg_ciphertext_ballot_from_bson) {
    vector<uint8_t> good = ob<CiphertextBallot>(k).toBson();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_ciphertext_ballot_t * o2{};
    bool threw = false; try { auto &&e = CiphertextBallot::fromBson(v0); (void)e; status(false, real_eg_ciphertext_ballot_from_bson((uint8_t *)v0.data(), v0.size(), &o2)); same<CiphertextBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_from_bson((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_from_json(char *, eg_ciphertext_ballot_t **) __asm__("eg_ciphertext_ballot_from_json");
FT(eg_ciphertext_ballot_from_json) {
    string good = ob<CiphertextBallot>(k).toJson();
    for (int c = 0; c < 3; c++) {
    string in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    string s0 = in;
    eg_ciphertext_ballot_t * o1{};
    bool threw = false; try { auto &&e = CiphertextBallot::fromJson(s0); (void)e; status(false, real_eg_ciphertext_ballot_from_json((char *)s0.c_str(), &o1)); same<CiphertextBallot>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_from_json((char *)s0.c_str(), &o1));
    }
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_from_msgpack(uint8_t *, uint64_t, eg_ciphertext_ballot_t **) __asm__("eg_ciphertext_ballot_from_msgpack");
FT(eg_ciphertext_ballot_from_msgpack) {
    vector<uint8_t> good = ob<CiphertextBallot>(k).toMsgPack();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_ciphertext_ballot_t * o2{};
    bool threw = false; try { auto &&e = CiphertextBallot::fromMsgPack(v0); (void)e; status(false, real_eg_ciphertext_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2)); same<CiphertextBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_ballot_code(eg_ciphertext_ballot_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_get_ballot_code");
FT(eg_ciphertext_ballot_get_ballot_code) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getBallotCode(); (void)e; status(false, real_eg_ciphertext_ballot_get_ballot_code((eg_ciphertext_ballot_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_get_ballot_code((eg_ciphertext_ballot_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_ballot_code_seed(eg_ciphertext_ballot_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_get_ballot_code_seed");
FT(eg_ciphertext_ballot_get_ballot_code_seed) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getBallotCodeSeed(); (void)e; status(false, real_eg_ciphertext_ballot_get_ballot_code_seed((eg_ciphertext_ballot_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_get_ballot_code_seed((eg_ciphertext_ballot_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_contest_at_index(eg_ciphertext_ballot_t *, uint64_t, eg_ciphertext_ballot_contest_t **) __asm__("eg_ciphertext_ballot_get_contest_at_index");
FT(eg_ciphertext_ballot_get_contest_at_index) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    for (uint64_t z = b0->getContests().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_ciphertext_ballot_contest_t * o2{};
    bool threw = false; try { auto e = b0->getContests().at(n1); (void)e; status(false, real_eg_ciphertext_ballot_get_contest_at_index((eg_ciphertext_ballot_t *)a0, n1, &o2)); same<CiphertextBallotContest>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_get_contest_at_index((eg_ciphertext_ballot_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_ciphertext_ballot_get_contests_size(eg_ciphertext_ballot_t *) __asm__("eg_ciphertext_ballot_get_contests_size");
FT(eg_ciphertext_ballot_get_contests_size) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_ciphertext_ballot_get_contests_size((eg_ciphertext_ballot_t *)a0), (uint64_t)b0->getContests().size());
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_crypto_hash(eg_ciphertext_ballot_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_get_crypto_hash");
FT(eg_ciphertext_ballot_get_crypto_hash) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getCryptoHash(); (void)e; status(false, real_eg_ciphertext_ballot_get_crypto_hash((eg_ciphertext_ballot_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_get_crypto_hash((eg_ciphertext_ballot_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_manifest_hash(eg_ciphertext_ballot_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_get_manifest_hash");
FT(eg_ciphertext_ballot_get_manifest_hash) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getManifestHash(); (void)e; status(false, real_eg_ciphertext_ballot_get_manifest_hash((eg_ciphertext_ballot_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_get_manifest_hash((eg_ciphertext_ballot_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_nonce(eg_ciphertext_ballot_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_get_nonce");
FT(eg_ciphertext_ballot_get_nonce) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getNonce(); (void)e; status(false, real_eg_ciphertext_ballot_get_nonce((eg_ciphertext_ballot_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_get_nonce((eg_ciphertext_ballot_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_object_id(eg_ciphertext_ballot_t *, char **) __asm__("eg_ciphertext_ballot_get_object_id");
FT(eg_ciphertext_ballot_get_object_id) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_ciphertext_ballot_get_object_id((eg_ciphertext_ballot_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_style_id(eg_ciphertext_ballot_t *, char **) __asm__("eg_ciphertext_ballot_get_style_id");
FT(eg_ciphertext_ballot_get_style_id) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    char * o1{};
    string e; TRY(e = b0->getStyleId()); status(threw, real_eg_ciphertext_ballot_get_style_id((eg_ciphertext_ballot_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_get_timestamp(eg_ciphertext_ballot_t *, uint64_t *) __asm__("eg_ciphertext_ballot_get_timestamp");
FT(eg_ciphertext_ballot_get_timestamp) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    uint64_t o1{};
    uint64_t e = 0; TRY(e = b0->getTimestamp()); status(threw, real_eg_ciphertext_ballot_get_timestamp((eg_ciphertext_ballot_t *)a0, &o1)); if (!threw) sameN(o1, e);
}
extern "C" bool real_eg_ciphertext_ballot_is_valid_encryption(eg_ciphertext_ballot_t *, eg_element_mod_q_t *, eg_element_mod_p_t *, eg_element_mod_q_t *) __asm__("eg_ciphertext_ballot_is_valid_encryption");
FT(eg_ciphertext_ballot_is_valid_encryption) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, k + 3).release(), b3 = arg<ElementModQ>(k, k + 3).release();
    sameN((uint64_t)real_eg_ciphertext_ballot_is_valid_encryption((eg_ciphertext_ballot_t *)a0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3), (uint64_t)b0->isValidEncryption(A<ElementModQ>{b1}, A<ElementModP>{b2}, A<ElementModQ>{b3}));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_selection_crypto_hash_with(eg_ciphertext_ballot_selection_t *, eg_element_mod_q_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_selection_crypto_hash_with");
FT(eg_ciphertext_ballot_selection_crypto_hash_with) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    eg_element_mod_q_t * o2{};
    bool threw = false; try { auto &&e = b0->crypto_hash_with(A<ElementModQ>{b1}); (void)e; status(false, real_eg_ciphertext_ballot_selection_crypto_hash_with((eg_ciphertext_ballot_selection_t *)a0, (eg_element_mod_q_t *)a1, &o2)); same<ElementModQ>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_selection_crypto_hash_with((eg_ciphertext_ballot_selection_t *)a0, (eg_element_mod_q_t *)a1, &o2));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_selection_free(eg_ciphertext_ballot_selection_t *) __asm__("eg_ciphertext_ballot_selection_free");
FT(eg_ciphertext_ballot_selection_free) {
    auto p = mk<CiphertextBallotSelection>(k).release();
    status(false, real_eg_ciphertext_ballot_selection_free((eg_ciphertext_ballot_selection_t *)p));
    if (real_eg_ciphertext_ballot_selection_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_selection_get_ciphertext(eg_ciphertext_ballot_selection_t *, eg_elgamal_ciphertext_t **) __asm__("eg_ciphertext_ballot_selection_get_ciphertext");
FT(eg_ciphertext_ballot_selection_get_ciphertext) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    eg_elgamal_ciphertext_t * o1{};
    bool threw = false; try { auto &&e = b0->getCiphertext(); (void)e; status(false, real_eg_ciphertext_ballot_selection_get_ciphertext((eg_ciphertext_ballot_selection_t *)a0, &o1)); same<ElGamalCiphertext>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_selection_get_ciphertext((eg_ciphertext_ballot_selection_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_selection_get_crypto_hash(eg_ciphertext_ballot_selection_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_selection_get_crypto_hash");
FT(eg_ciphertext_ballot_selection_get_crypto_hash) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getCryptoHash(); (void)e; status(false, real_eg_ciphertext_ballot_selection_get_crypto_hash((eg_ciphertext_ballot_selection_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_selection_get_crypto_hash((eg_ciphertext_ballot_selection_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_selection_get_description_hash(eg_ciphertext_ballot_selection_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_selection_get_description_hash");
FT(eg_ciphertext_ballot_selection_get_description_hash) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getDescriptionHash(); (void)e; status(false, real_eg_ciphertext_ballot_selection_get_description_hash((eg_ciphertext_ballot_selection_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_selection_get_description_hash((eg_ciphertext_ballot_selection_t *)a0, &o1));
}
extern "C" bool real_eg_ciphertext_ballot_selection_get_is_placeholder(eg_ciphertext_ballot_selection_t *) __asm__("eg_ciphertext_ballot_selection_get_is_placeholder");
FT(eg_ciphertext_ballot_selection_get_is_placeholder) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_ciphertext_ballot_selection_get_is_placeholder((eg_ciphertext_ballot_selection_t *)a0), (uint64_t)b0->getIsPlaceholder());
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_selection_get_nonce(eg_ciphertext_ballot_selection_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_ballot_selection_get_nonce");
FT(eg_ciphertext_ballot_selection_get_nonce) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getNonce(); (void)e; status(false, real_eg_ciphertext_ballot_selection_get_nonce((eg_ciphertext_ballot_selection_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_selection_get_nonce((eg_ciphertext_ballot_selection_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_selection_get_object_id(eg_ciphertext_ballot_selection_t *, char **) __asm__("eg_ciphertext_ballot_selection_get_object_id");
FT(eg_ciphertext_ballot_selection_get_object_id) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_ciphertext_ballot_selection_get_object_id((eg_ciphertext_ballot_selection_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_selection_get_proof(eg_ciphertext_ballot_selection_t *, eg_disjunctive_chaum_pedersen_proof_t **) __asm__("eg_ciphertext_ballot_selection_get_proof");
FT(eg_ciphertext_ballot_selection_get_proof) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    eg_disjunctive_chaum_pedersen_proof_t * o1{};
    bool threw = false; try { auto &&e = b0->getProof(); (void)e; status(false, real_eg_ciphertext_ballot_selection_get_proof((eg_ciphertext_ballot_selection_t *)a0, &o1)); same<DisjunctiveChaumPedersenProof>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_ballot_selection_get_proof((eg_ciphertext_ballot_selection_t *)a0, &o1));
}
extern "C" uint64_t real_eg_ciphertext_ballot_selection_get_sequence_order(eg_ciphertext_ballot_selection_t *) __asm__("eg_ciphertext_ballot_selection_get_sequence_order");
FT(eg_ciphertext_ballot_selection_get_sequence_order) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_ciphertext_ballot_selection_get_sequence_order((eg_ciphertext_ballot_selection_t *)a0), (uint64_t)b0->getSequenceOrder());
}
extern "C" bool real_eg_ciphertext_ballot_selection_is_valid_encryption(eg_ciphertext_ballot_selection_t *, eg_element_mod_q_t *, eg_element_mod_p_t *, eg_element_mod_q_t *) __asm__("eg_ciphertext_ballot_selection_is_valid_encryption");
FT(eg_ciphertext_ballot_selection_is_valid_encryption) {
    auto a0 = &ob<CiphertextBallotSelection>(k % 4), b0 = a0;
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, k + 3).release(), b3 = arg<ElementModQ>(k, k + 3).release();
    sameN((uint64_t)real_eg_ciphertext_ballot_selection_is_valid_encryption((eg_ciphertext_ballot_selection_t *)a0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3), (uint64_t)b0->isValidEncryption(A<ElementModQ>{b1}, A<ElementModP>{b2}, A<ElementModQ>{b3}));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_to_bson(eg_ciphertext_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_ciphertext_ballot_to_bson");
FT(eg_ciphertext_ballot_to_bson) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_ciphertext_ballot_to_bson((eg_ciphertext_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toBson(false));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_to_bson_with_nonces(eg_ciphertext_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_ciphertext_ballot_to_bson_with_nonces");
FT(eg_ciphertext_ballot_to_bson_with_nonces) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_ciphertext_ballot_to_bson_with_nonces((eg_ciphertext_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toBson(true));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_to_json(eg_ciphertext_ballot_t *, char **, uint64_t *) __asm__("eg_ciphertext_ballot_to_json");
FT(eg_ciphertext_ballot_to_json) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    char * o1{};
    uint64_t o2{};
    status(false, real_eg_ciphertext_ballot_to_json((eg_ciphertext_ballot_t *)a0, &o1, &o2));
    sameJ(o1, o2, b0->toJson(false));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_to_json_with_nonces(eg_ciphertext_ballot_t *, char **, uint64_t *) __asm__("eg_ciphertext_ballot_to_json_with_nonces");
FT(eg_ciphertext_ballot_to_json_with_nonces) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    char * o1{};
    uint64_t o2{};
    status(false, real_eg_ciphertext_ballot_to_json_with_nonces((eg_ciphertext_ballot_t *)a0, &o1, &o2));
    sameJ(o1, o2, b0->toJson(true));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_to_msgpack(eg_ciphertext_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_ciphertext_ballot_to_msgpack");
FT(eg_ciphertext_ballot_to_msgpack) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_ciphertext_ballot_to_msgpack((eg_ciphertext_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toMsgPack(false));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_ballot_to_msgpack_with_nonces(eg_ciphertext_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_ciphertext_ballot_to_msgpack_with_nonces");
FT(eg_ciphertext_ballot_to_msgpack_with_nonces) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_ciphertext_ballot_to_msgpack_with_nonces((eg_ciphertext_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toMsgPack(true));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_config_free(eg_context_configuration_t *) __asm__("eg_ciphertext_election_context_config_free");
FT(eg_ciphertext_election_context_config_free) {
    auto p = mk<ContextConfiguration>(k).release();
    status(false, real_eg_ciphertext_election_context_config_free((eg_context_configuration_t *)p));
    if (real_eg_ciphertext_election_context_config_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_config_get_allowed_overvotes(eg_context_configuration_t *, bool *) __asm__("eg_ciphertext_election_context_config_get_allowed_overvotes");
FT(eg_ciphertext_election_context_config_get_allowed_overvotes) {
    auto a0 = arg<ContextConfiguration>(k, k).release(), b0 = arg<ContextConfiguration>(k, k).release();
    bool o1{};
    uint64_t e = 0; TRY(e = b0->getAllowOverVotes()); status(threw, real_eg_ciphertext_election_context_config_get_allowed_overvotes((eg_context_configuration_t *)a0, &o1)); if (!threw) sameN(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_config_get_max_ballots(eg_context_configuration_t *, uint64_t *) __asm__("eg_ciphertext_election_context_config_get_max_ballots");
FT(eg_ciphertext_election_context_config_get_max_ballots) {
    auto a0 = arg<ContextConfiguration>(k, k).release(), b0 = arg<ContextConfiguration>(k, k).release();
    uint64_t o1{};
    uint64_t e = 0; TRY(e = b0->getMaxNumberOfBallots()); status(threw, real_eg_ciphertext_election_context_config_get_max_ballots((eg_context_configuration_t *)a0, &o1)); if (!threw) sameN(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_config_make(bool, uint64_t, eg_context_configuration_t **) __asm__("eg_ciphertext_election_context_config_make");
FT(eg_ciphertext_election_context_config_make) {
    bool n0 = (k >> 0) & 1;
    uint64_t n1 = 4 + k;
    eg_context_configuration_t * o2{};
    bool threw = false; try { auto &&e = ContextConfiguration::make(n0, n1); (void)e; status(false, real_eg_ciphertext_election_context_config_make(n0, n1, &o2)); same<ContextConfiguration>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_config_make(n0, n1, &o2));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_free(eg_ciphertext_election_context_t *) __asm__("eg_ciphertext_election_context_free");
FT(eg_ciphertext_election_context_free) {
    auto p = mk<Context>(k).release();
    status(false, real_eg_ciphertext_election_context_free((eg_ciphertext_election_context_t *)p));
    if (real_eg_ciphertext_election_context_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_from_bson(uint8_t *, uint64_t, eg_ciphertext_election_context_t **) __asm__("eg_ciphertext_election_context_from_bson");
FT(eg_ciphertext_election_context_from_bson) {
    vector<uint8_t> good = ob<Context>(k).toBson();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_ciphertext_election_context_t * o2{};
    bool threw = false; try { auto &&e = CiphertextElectionContext::fromBson(v0); (void)e; status(false, real_eg_ciphertext_election_context_from_bson((uint8_t *)v0.data(), v0.size(), &o2)); same<Context>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_from_bson((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_from_json(char *, eg_ciphertext_election_context_t **) __asm__("eg_ciphertext_election_context_from_json");
FT(eg_ciphertext_election_context_from_json) {
    string good = ob<Context>(k).toJson();
    for (int c = 0; c < 3; c++) {
    string in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    string s0 = in;
    eg_ciphertext_election_context_t * o1{};
    bool threw = false; try { auto &&e = CiphertextElectionContext::fromJson(s0); (void)e; status(false, real_eg_ciphertext_election_context_from_json((char *)s0.c_str(), &o1)); same<Context>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_from_json((char *)s0.c_str(), &o1));
    }
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_get_commitment_hash(eg_ciphertext_election_context_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_election_context_get_commitment_hash");
FT(eg_ciphertext_election_context_get_commitment_hash) {
    auto a0 = &ob<Context>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getCommitmentHash(); (void)e; status(false, real_eg_ciphertext_election_context_get_commitment_hash((eg_ciphertext_election_context_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_get_commitment_hash((eg_ciphertext_election_context_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_get_configuration(eg_ciphertext_election_context_t *, eg_context_configuration_t **) __asm__("eg_ciphertext_election_context_get_configuration");
FT(eg_ciphertext_election_context_get_configuration) {
    auto a0 = &ob<Context>(k % 4), b0 = a0;
    eg_context_configuration_t * o1{};
    bool threw = false; try { auto &&e = b0->getConfiguration(); (void)e; status(false, real_eg_ciphertext_election_context_get_configuration((eg_ciphertext_election_context_t *)a0, &o1)); same<ContextConfiguration>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_get_configuration((eg_ciphertext_election_context_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_get_crypto_base_hash(eg_ciphertext_election_context_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_election_context_get_crypto_base_hash");
FT(eg_ciphertext_election_context_get_crypto_base_hash) {
    auto a0 = &ob<Context>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getCryptoBaseHash(); (void)e; status(false, real_eg_ciphertext_election_context_get_crypto_base_hash((eg_ciphertext_election_context_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_get_crypto_base_hash((eg_ciphertext_election_context_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_get_crypto_extended_base_hash(eg_ciphertext_election_context_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_election_context_get_crypto_extended_base_hash");
FT(eg_ciphertext_election_context_get_crypto_extended_base_hash) {
    auto a0 = &ob<Context>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getCryptoExtendedBaseHash(); (void)e; status(false, real_eg_ciphertext_election_context_get_crypto_extended_base_hash((eg_ciphertext_election_context_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_get_crypto_extended_base_hash((eg_ciphertext_election_context_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_get_elgamal_public_key(eg_ciphertext_election_context_t *, eg_element_mod_p_t **) __asm__("eg_ciphertext_election_context_get_elgamal_public_key");
FT(eg_ciphertext_election_context_get_elgamal_public_key) {
    auto a0 = &ob<Context>(k % 4), b0 = a0;
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getElGamalPublicKey(); (void)e; status(false, real_eg_ciphertext_election_context_get_elgamal_public_key((eg_ciphertext_election_context_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_get_elgamal_public_key((eg_ciphertext_election_context_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_get_manifest_hash(eg_ciphertext_election_context_t *, eg_element_mod_q_t **) __asm__("eg_ciphertext_election_context_get_manifest_hash");
FT(eg_ciphertext_election_context_get_manifest_hash) {
    auto a0 = &ob<Context>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getManifestHash(); (void)e; status(false, real_eg_ciphertext_election_context_get_manifest_hash((eg_ciphertext_election_context_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_get_manifest_hash((eg_ciphertext_election_context_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_make(uint64_t, uint64_t, eg_element_mod_p_t *, eg_element_mod_q_t *, eg_element_mod_q_t *, eg_ciphertext_election_context_t **) __asm__("eg_ciphertext_election_context_make");
FT(eg_ciphertext_election_context_make) {
    uint64_t n0 = 3 + k;
    uint64_t n1 = 4 + k;
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, k + 3).release(), b3 = arg<ElementModQ>(k, k + 3).release();
    auto a4 = arg<ElementModQ>(k, k + 4).release(), b4 = arg<ElementModQ>(k, k + 4).release();
    eg_ciphertext_election_context_t * o5{};
    bool threw = false; try { auto &&e = CiphertextElectionContext::make(n0, n1, A<ElementModP>{b2}, A<ElementModQ>{b3}, A<ElementModQ>{b4}); (void)e; status(false, real_eg_ciphertext_election_context_make(n0, n1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3, (eg_element_mod_q_t *)a4, &o5)); same<Context>(o5, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_ciphertext_election_context_make(n0, n1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3, (eg_element_mod_q_t *)a4, &o5));
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_to_bson(eg_ciphertext_election_context_t *, uint8_t **, uint64_t *) __asm__("eg_ciphertext_election_context_to_bson");
FT(eg_ciphertext_election_context_to_bson) {
    auto a0 = &ob<Context>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_ciphertext_election_context_to_bson((eg_ciphertext_election_context_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toBson());
}
extern "C" eg_electionguard_status_t real_eg_ciphertext_election_context_to_json(eg_ciphertext_election_context_t *, char **, uint64_t *) __asm__("eg_ciphertext_election_context_to_json");
FT(eg_ciphertext_election_context_to_json) {
    auto a0 = &ob<Context>(k % 4), b0 = a0;
    char * o1{};
    uint64_t o2{};
    status(false, real_eg_ciphertext_election_context_to_json((eg_ciphertext_election_context_t *)a0, &o1, &o2));
    sameJ(o1, o2, b0->toJson());
}
extern "C" eg_electionguard_status_t real_eg_compact_ciphertext_ballot_free(eg_compact_ciphertext_ballot_t *) __asm__("eg_compact_ciphertext_ballot_free");
FT(eg_compact_ciphertext_ballot_free) {
    auto p = mk<CompactCiphertextBallot>(k).release();
    status(false, real_eg_compact_ciphertext_ballot_free((eg_compact_ciphertext_ballot_t *)p));
    if (real_eg_compact_ciphertext_ballot_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_compact_ciphertext_ballot_from_msgpack(uint8_t *, uint64_t, eg_compact_ciphertext_ballot_t **) __asm__("eg_compact_ciphertext_ballot_from_msgpack");
FT(eg_compact_ciphertext_ballot_from_msgpack) {
    vector<uint8_t> good = ob<CompactCiphertextBallot>(k).toMsgPack();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_compact_ciphertext_ballot_t * o2{};
    bool threw = false; try { auto &&e = CompactCiphertextBallot::fromMsgPack(v0); (void)e; status(false, real_eg_compact_ciphertext_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2)); same<CompactCiphertextBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_compact_ciphertext_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_compact_ciphertext_ballot_get_object_id(eg_compact_ciphertext_ballot_t *, char **) __asm__("eg_compact_ciphertext_ballot_get_object_id");
FT(eg_compact_ciphertext_ballot_get_object_id) {
    auto a0 = &ob<CompactCiphertextBallot>(k % 4), b0 = a0;
    char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_compact_ciphertext_ballot_get_object_id((eg_compact_ciphertext_ballot_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_compact_ciphertext_ballot_msgpack_free(uint8_t *) __asm__("eg_compact_ciphertext_ballot_msgpack_free");
FT(eg_compact_ciphertext_ballot_msgpack_free) {
    status(false, real_eg_compact_ciphertext_ballot_msgpack_free((uint8_t *)new uint8_t[8]));
    if (real_eg_compact_ciphertext_ballot_msgpack_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_compact_ciphertext_ballot_to_msgpack(eg_compact_ciphertext_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_compact_ciphertext_ballot_to_msgpack");
FT(eg_compact_ciphertext_ballot_to_msgpack) {
    auto a0 = &ob<CompactCiphertextBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_compact_ciphertext_ballot_to_msgpack((eg_compact_ciphertext_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toMsgPack());
}
extern "C" eg_electionguard_status_t real_eg_compact_plaintext_ballot_free(eg_compact_plaintext_ballot_t *) __asm__("eg_compact_plaintext_ballot_free");
FT(eg_compact_plaintext_ballot_free) {
    auto p = mk<CompactPlaintextBallot>(k).release();
    status(false, real_eg_compact_plaintext_ballot_free((eg_compact_plaintext_ballot_t *)p));
    if (real_eg_compact_plaintext_ballot_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_compact_plaintext_ballot_from_msgpack(uint8_t *, uint64_t, eg_compact_plaintext_ballot_t **) __asm__("eg_compact_plaintext_ballot_from_msgpack");
FT(eg_compact_plaintext_ballot_from_msgpack) {
    vector<uint8_t> good = ob<CompactPlaintextBallot>(k).toMsgPack();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_compact_plaintext_ballot_t * o2{};
    bool threw = false; try { auto &&e = CompactPlaintextBallot::fromMsgPack(v0); (void)e; status(false, real_eg_compact_plaintext_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2)); same<CompactPlaintextBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_compact_plaintext_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_compact_plaintext_ballot_msgpack_free(uint8_t *) __asm__("eg_compact_plaintext_ballot_msgpack_free");
FT(eg_compact_plaintext_ballot_msgpack_free) {
    status(false, real_eg_compact_plaintext_ballot_msgpack_free((uint8_t *)new uint8_t[8]));
    if (real_eg_compact_plaintext_ballot_msgpack_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_compact_plaintext_ballot_to_msgpack(eg_compact_plaintext_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_compact_plaintext_ballot_to_msgpack");
FT(eg_compact_plaintext_ballot_to_msgpack) {
    auto a0 = &ob<CompactPlaintextBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_compact_plaintext_ballot_to_msgpack((eg_compact_plaintext_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toMsgPack());
}
extern "C" eg_electionguard_status_t real_eg_constant_chaum_pedersen_proof_free(eg_constant_chaum_pedersen_proof_t *) __asm__("eg_constant_chaum_pedersen_proof_free");
FT(eg_constant_chaum_pedersen_proof_free) {
    auto p = mk<ConstantChaumPedersenProof>(k).release();
    status(false, real_eg_constant_chaum_pedersen_proof_free((eg_constant_chaum_pedersen_proof_t *)p));
    if (real_eg_constant_chaum_pedersen_proof_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_constant_chaum_pedersen_proof_get_challenge(eg_constant_chaum_pedersen_proof_t *, eg_element_mod_q_t **) __asm__("eg_constant_chaum_pedersen_proof_get_challenge");
FT(eg_constant_chaum_pedersen_proof_get_challenge) {
    auto a0 = arg<ConstantChaumPedersenProof>(k, k).release(), b0 = arg<ConstantChaumPedersenProof>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getChallenge(); (void)e; status(false, real_eg_constant_chaum_pedersen_proof_get_challenge((eg_constant_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_constant_chaum_pedersen_proof_get_challenge((eg_constant_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_constant_chaum_pedersen_proof_get_data(eg_constant_chaum_pedersen_proof_t *, eg_element_mod_p_t **) __asm__("eg_constant_chaum_pedersen_proof_get_data");
FT(eg_constant_chaum_pedersen_proof_get_data) {
    auto a0 = arg<ConstantChaumPedersenProof>(k, k).release(), b0 = arg<ConstantChaumPedersenProof>(k, k).release();
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getData(); (void)e; status(false, real_eg_constant_chaum_pedersen_proof_get_data((eg_constant_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_constant_chaum_pedersen_proof_get_data((eg_constant_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_constant_chaum_pedersen_proof_get_pad(eg_constant_chaum_pedersen_proof_t *, eg_element_mod_p_t **) __asm__("eg_constant_chaum_pedersen_proof_get_pad");
FT(eg_constant_chaum_pedersen_proof_get_pad) {
    auto a0 = arg<ConstantChaumPedersenProof>(k, k).release(), b0 = arg<ConstantChaumPedersenProof>(k, k).release();
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getPad(); (void)e; status(false, real_eg_constant_chaum_pedersen_proof_get_pad((eg_constant_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_constant_chaum_pedersen_proof_get_pad((eg_constant_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_constant_chaum_pedersen_proof_get_response(eg_constant_chaum_pedersen_proof_t *, eg_element_mod_q_t **) __asm__("eg_constant_chaum_pedersen_proof_get_response");
FT(eg_constant_chaum_pedersen_proof_get_response) {
    auto a0 = arg<ConstantChaumPedersenProof>(k, k).release(), b0 = arg<ConstantChaumPedersenProof>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getResponse(); (void)e; status(false, real_eg_constant_chaum_pedersen_proof_get_response((eg_constant_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_constant_chaum_pedersen_proof_get_response((eg_constant_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" bool real_eg_constant_chaum_pedersen_proof_is_valid(eg_constant_chaum_pedersen_proof_t *, eg_elgamal_ciphertext_t *, eg_element_mod_p_t *, eg_element_mod_q_t *) __asm__("eg_constant_chaum_pedersen_proof_is_valid");
FT(eg_constant_chaum_pedersen_proof_is_valid) {
    auto a0 = arg<ConstantChaumPedersenProof>(k, k).release(), b0 = arg<ConstantChaumPedersenProof>(k, k).release();
    auto a1 = arg<ElGamalCiphertext>(k, k + 1).release(), b1 = arg<ElGamalCiphertext>(k, k + 1).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, k + 3).release(), b3 = arg<ElementModQ>(k, k + 3).release();
    sameN((uint64_t)real_eg_constant_chaum_pedersen_proof_is_valid((eg_constant_chaum_pedersen_proof_t *)a0, (eg_elgamal_ciphertext_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3), (uint64_t)b0->isValid(A<ElGamalCiphertext>{b1}, A<ElementModP>{b2}, A<ElementModQ>{b3}));
}
extern "C" eg_electionguard_status_t real_eg_constant_chaum_pedersen_proof_make(eg_elgamal_ciphertext_t *, eg_element_mod_q_t *, eg_element_mod_p_t *, eg_element_mod_q_t *, eg_element_mod_q_t *, uint64_t, eg_constant_chaum_pedersen_proof_t **) __asm__("eg_constant_chaum_pedersen_proof_make");
FT(eg_constant_chaum_pedersen_proof_make) {
    auto a0 = arg<ElGamalCiphertext>(k, k).release(), b0 = arg<ElGamalCiphertext>(k, k).release();
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, 5).release(), b3 = arg<ElementModQ>(k, 5).release();
    auto a4 = arg<ElementModQ>(k, k + 4).release(), b4 = arg<ElementModQ>(k, k + 4).release();
    uint64_t n5 = 8 + k;
    eg_constant_chaum_pedersen_proof_t * o6{};
    bool threw = false; try { auto &&e = ConstantChaumPedersenProof::make(A<ElGamalCiphertext>{b0}, A<ElementModQ>{b1}, A<ElementModP>{b2}, A<ElementModQ>{b3}, A<ElementModQ>{b4}, n5); (void)e; status(false, real_eg_constant_chaum_pedersen_proof_make((eg_elgamal_ciphertext_t *)a0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3, (eg_element_mod_q_t *)a4, n5, &o6)); same<ConstantChaumPedersenProof>(o6, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_constant_chaum_pedersen_proof_make((eg_elgamal_ciphertext_t *)a0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3, (eg_element_mod_q_t *)a4, n5, &o6));
}
extern "C" eg_electionguard_status_t real_eg_contact_information_crypto_hash(eg_contact_information_t *, eg_element_mod_q_t **) __asm__("eg_contact_information_crypto_hash");
FT(eg_contact_information_crypto_hash) {
    auto a0 = arg<ContactInformation>(k, k).release(), b0 = arg<ContactInformation>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_contact_information_crypto_hash((eg_contact_information_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contact_information_crypto_hash((eg_contact_information_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_contact_information_free(eg_contact_information_t *) __asm__("eg_contact_information_free");
FT(eg_contact_information_free) {
    auto p = mk<ContactInformation>(k).release();
    status(false, real_eg_contact_information_free((eg_contact_information_t *)p));
    if (real_eg_contact_information_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_contact_information_get_address_line_at_index(eg_contact_information_t *, uint64_t, char **) __asm__("eg_contact_information_get_address_line_at_index");
FT(eg_contact_information_get_address_line_at_index) {
    auto a0 = arg<ContactInformation>(k, k).release(), b0 = arg<ContactInformation>(k, k).release();
    for (uint64_t z = b0->getAddressLine().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    char * o2{};
    string e; TRY(e = b0->getAddressLine().at(n1)); status(threw, real_eg_contact_information_get_address_line_at_index((eg_contact_information_t *)a0, n1, &o2)); if (!threw) sameS(o2, e);
    }
}
extern "C" uint64_t real_eg_contact_information_get_address_line_size(eg_contact_information_t *) __asm__("eg_contact_information_get_address_line_size");
FT(eg_contact_information_get_address_line_size) {
    auto a0 = arg<ContactInformation>(k, k).release(), b0 = arg<ContactInformation>(k, k).release();
    sameN((uint64_t)real_eg_contact_information_get_address_line_size((eg_contact_information_t *)a0), (uint64_t)b0->getAddressLine().size());
}
extern "C" eg_electionguard_status_t real_eg_contact_information_get_email_line_at_index(eg_contact_information_t *, uint64_t, eg_annotated_string_t **) __asm__("eg_contact_information_get_email_line_at_index");
FT(eg_contact_information_get_email_line_at_index) {
    auto a0 = arg<ContactInformation>(k, k).release(), b0 = arg<ContactInformation>(k, k).release();
    for (uint64_t z = b0->getEmail().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_annotated_string_t * o2{};
    bool threw = false; try { auto e = b0->getEmail().at(n1); (void)e; status(false, real_eg_contact_information_get_email_line_at_index((eg_contact_information_t *)a0, n1, &o2)); same<AnnotatedString>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contact_information_get_email_line_at_index((eg_contact_information_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_contact_information_get_email_line_size(eg_contact_information_t *) __asm__("eg_contact_information_get_email_line_size");
FT(eg_contact_information_get_email_line_size) {
    auto a0 = arg<ContactInformation>(k, k).release(), b0 = arg<ContactInformation>(k, k).release();
    sameN((uint64_t)real_eg_contact_information_get_email_line_size((eg_contact_information_t *)a0), (uint64_t)b0->getEmail().size());
}
extern "C" eg_electionguard_status_t real_eg_contact_information_get_name(eg_contact_information_t *, const char **) __asm__("eg_contact_information_get_name");
FT(eg_contact_information_get_name) {
    auto a0 = arg<ContactInformation>(k, k).release(), b0 = arg<ContactInformation>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getName()); status(threw, real_eg_contact_information_get_name((eg_contact_information_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_contact_information_get_phone_line_at_index(eg_contact_information_t *, uint64_t, eg_annotated_string_t **) __asm__("eg_contact_information_get_phone_line_at_index");
FT(eg_contact_information_get_phone_line_at_index) {
    auto a0 = arg<ContactInformation>(k, k).release(), b0 = arg<ContactInformation>(k, k).release();
    for (uint64_t z = b0->getPhone().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_annotated_string_t * o2{};
    bool threw = false; try { auto e = b0->getPhone().at(n1); (void)e; status(false, real_eg_contact_information_get_phone_line_at_index((eg_contact_information_t *)a0, n1, &o2)); same<AnnotatedString>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contact_information_get_phone_line_at_index((eg_contact_information_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_contact_information_get_phone_line_size(eg_contact_information_t *) __asm__("eg_contact_information_get_phone_line_size");
FT(eg_contact_information_get_phone_line_size) {
    auto a0 = arg<ContactInformation>(k, k).release(), b0 = arg<ContactInformation>(k, k).release();
    sameN((uint64_t)real_eg_contact_information_get_phone_line_size((eg_contact_information_t *)a0), (uint64_t)b0->getPhone().size());
}
extern "C" eg_electionguard_status_t real_eg_contact_information_new(char *, eg_contact_information_t **) __asm__("eg_contact_information_new");
FT(eg_contact_information_new) {
    string s0 = sample(k, 60);
    eg_contact_information_t * o1{};
    bool threw = false; try { auto &&e = unique_ptr<ContactInformation>(new ContactInformation(s0)); (void)e; status(false, real_eg_contact_information_new((char *)s0.c_str(), &o1)); same<ContactInformation>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contact_information_new((char *)s0.c_str(), &o1));
}
extern "C" eg_electionguard_status_t real_eg_contact_information_new_with_collections(char *, char **, const uint64_t, eg_annotated_string_t **, const uint64_t, eg_annotated_string_t **, const uint64_t, eg_contact_information_t **) __asm__("eg_contact_information_new_with_collections");
FT(eg_contact_information_new_with_collections) {
    string s0 = sample(k, 60);
    vector<string> w1; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w1.push_back(sample(k, 50 + i));
    vector<const char *> v1; for (auto &s : w1) v1.push_back(s.c_str());
    vector<AnnotatedString *> v3, d3; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v3.push_back(mk<AnnotatedString>(k + i).release()); d3.push_back(mk<AnnotatedString>(k + i).release()); }
    vector<AnnotatedString *> v5, d5; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v5.push_back(mk<AnnotatedString>(k + i).release()); d5.push_back(mk<AnnotatedString>(k + i).release()); }
    eg_contact_information_t * o7{};
    bool threw = false; try { auto &&e = unique_ptr<ContactInformation>(new ContactInformation(w1, V<AnnotatedString>{d3}, V<AnnotatedString>{d5}, s0)); (void)e; status(false, real_eg_contact_information_new_with_collections((char *)s0.c_str(), (char **)v1.data(), v1.size(), (eg_annotated_string_t **)v3.data(), v3.size(), (eg_annotated_string_t **)v5.data(), v5.size(), &o7)); same<ContactInformation>(o7, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contact_information_new_with_collections((char *)s0.c_str(), (char **)v1.data(), v1.size(), (eg_annotated_string_t **)v3.data(), v3.size(), (eg_annotated_string_t **)v5.data(), v5.size(), &o7));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_crypto_hash(eg_contest_description_t *, eg_element_mod_q_t **) __asm__("eg_contest_description_crypto_hash");
FT(eg_contest_description_crypto_hash) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_contest_description_crypto_hash((eg_contest_description_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_crypto_hash((eg_contest_description_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_free(eg_contest_description_t *) __asm__("eg_contest_description_free");
FT(eg_contest_description_free) {
    auto p = mk<ContestDescription>(k).release();
    status(false, real_eg_contest_description_free((eg_contest_description_t *)p));
    if (real_eg_contest_description_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_contest_description_get_ballot_subtitle(eg_contest_description_t *, eg_internationalized_text_t **) __asm__("eg_contest_description_get_ballot_subtitle");
FT(eg_contest_description_get_ballot_subtitle) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    eg_internationalized_text_t * o1{};
    bool threw = false; try { auto &&e = b0->getBallotSubtitle(); (void)e; status(false, real_eg_contest_description_get_ballot_subtitle((eg_contest_description_t *)a0, &o1)); same<InternationalizedText>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_get_ballot_subtitle((eg_contest_description_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_get_ballot_title(eg_contest_description_t *, eg_internationalized_text_t **) __asm__("eg_contest_description_get_ballot_title");
FT(eg_contest_description_get_ballot_title) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    eg_internationalized_text_t * o1{};
    bool threw = false; try { auto &&e = b0->getBallotTitle(); (void)e; status(false, real_eg_contest_description_get_ballot_title((eg_contest_description_t *)a0, &o1)); same<InternationalizedText>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_get_ballot_title((eg_contest_description_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_get_electoral_district_id(eg_contest_description_t *, const char **) __asm__("eg_contest_description_get_electoral_district_id");
FT(eg_contest_description_get_electoral_district_id) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getElectoralDistrictId()); status(threw, real_eg_contest_description_get_electoral_district_id((eg_contest_description_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_contest_description_get_name(eg_contest_description_t *, const char **) __asm__("eg_contest_description_get_name");
FT(eg_contest_description_get_name) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getName()); status(threw, real_eg_contest_description_get_name((eg_contest_description_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" uint64_t real_eg_contest_description_get_number_elected(eg_contest_description_t *) __asm__("eg_contest_description_get_number_elected");
FT(eg_contest_description_get_number_elected) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    sameN((uint64_t)real_eg_contest_description_get_number_elected((eg_contest_description_t *)a0), (uint64_t)b0->getNumberElected());
}
extern "C" eg_electionguard_status_t real_eg_contest_description_get_object_id(eg_contest_description_t *, const char **) __asm__("eg_contest_description_get_object_id");
FT(eg_contest_description_get_object_id) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_contest_description_get_object_id((eg_contest_description_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_contest_description_get_selection_at_index(eg_contest_description_t *, uint64_t, eg_selection_description_t **) __asm__("eg_contest_description_get_selection_at_index");
FT(eg_contest_description_get_selection_at_index) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    for (uint64_t z = b0->getSelections().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_selection_description_t * o2{};
    bool threw = false; try { auto e = b0->getSelections().at(n1); (void)e; status(false, real_eg_contest_description_get_selection_at_index((eg_contest_description_t *)a0, n1, &o2)); same<SelectionDescription>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_get_selection_at_index((eg_contest_description_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_contest_description_get_selections_size(eg_contest_description_t *) __asm__("eg_contest_description_get_selections_size");
FT(eg_contest_description_get_selections_size) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    sameN((uint64_t)real_eg_contest_description_get_selections_size((eg_contest_description_t *)a0), (uint64_t)b0->getSelections().size());
}
extern "C" uint64_t real_eg_contest_description_get_sequence_order(eg_contest_description_t *) __asm__("eg_contest_description_get_sequence_order");
FT(eg_contest_description_get_sequence_order) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    sameN((uint64_t)real_eg_contest_description_get_sequence_order((eg_contest_description_t *)a0), (uint64_t)b0->getSequenceOrder());
}
extern "C" eg_vote_variation_type_t real_eg_contest_description_get_vote_variation(eg_contest_description_t *) __asm__("eg_contest_description_get_vote_variation");
FT(eg_contest_description_get_vote_variation) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    sameN((uint64_t)real_eg_contest_description_get_vote_variation((eg_contest_description_t *)a0), (uint64_t)b0->getVoteVariation());
}
extern "C" uint64_t real_eg_contest_description_get_votes_allowed(eg_contest_description_t *) __asm__("eg_contest_description_get_votes_allowed");
FT(eg_contest_description_get_votes_allowed) {
    auto a0 = arg<ContestDescription>(k, k).release(), b0 = arg<ContestDescription>(k, k).release();
    sameN((uint64_t)real_eg_contest_description_get_votes_allowed((eg_contest_description_t *)a0), (uint64_t)b0->getVotesAllowed());
}
extern "C" eg_electionguard_status_t real_eg_contest_description_new(const char *, char *, uint64_t, eg_vote_variation_type_t, uint64_t, char *, eg_selection_description_t **, uint64_t, eg_contest_description_t **) __asm__("eg_contest_description_new");
FT(eg_contest_description_new) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    VoteVariationType n3 = (VoteVariationType)(1 + k % 3);
    uint64_t n4 = 7 + k;
    string s5 = sample(k, 65);
    vector<SelectionDescription *> v6, d6; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v6.push_back(mk<SelectionDescription>(k + i).release()); d6.push_back(mk<SelectionDescription>(k + i).release()); }
    eg_contest_description_t * o8{};
    bool threw = false; try { auto &&e = unique_ptr<ContestDescription>(new ContestDescription(s0, s1, n2, n3, n4, s5, V<SelectionDescription>{d6})); (void)e; status(false, real_eg_contest_description_new((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, (char *)s5.c_str(), (eg_selection_description_t **)v6.data(), v6.size(), &o8)); same<ContestDescription>(o8, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_new((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, (char *)s5.c_str(), (eg_selection_description_t **)v6.data(), v6.size(), &o8));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_new_with_parties(const char *, char *, uint64_t, eg_vote_variation_type_t, uint64_t, char *, eg_selection_description_t **, uint64_t, char **, uint64_t, eg_contest_description_t **) __asm__("eg_contest_description_new_with_parties");
FT(eg_contest_description_new_with_parties) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    VoteVariationType n3 = (VoteVariationType)(1 + k % 3);
    uint64_t n4 = 7 + k;
    string s5 = sample(k, 65);
    vector<SelectionDescription *> v6, d6; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v6.push_back(mk<SelectionDescription>(k + i).release()); d6.push_back(mk<SelectionDescription>(k + i).release()); }
    vector<string> w8; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w8.push_back(sample(k, 50 + i));
    vector<const char *> v8; for (auto &s : w8) v8.push_back(s.c_str());
    eg_contest_description_t * o10{};
    bool threw = false; try { auto &&e = unique_ptr<ContestDescription>(new ContestDescription(s0, s1, n2, n3, n4, s5, V<SelectionDescription>{d6}, w8)); (void)e; status(false, real_eg_contest_description_new_with_parties((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, (char *)s5.c_str(), (eg_selection_description_t **)v6.data(), v6.size(), (char **)v8.data(), v8.size(), &o10)); same<ContestDescription>(o10, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_new_with_parties((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, (char *)s5.c_str(), (eg_selection_description_t **)v6.data(), v6.size(), (char **)v8.data(), v8.size(), &o10));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_new_with_title(const char *, char *, uint64_t, eg_vote_variation_type_t, uint64_t, uint64_t, char *, eg_internationalized_text_t *, eg_internationalized_text_t *, eg_selection_description_t **, uint64_t, eg_contest_description_t **) __asm__("eg_contest_description_new_with_title");
FT(eg_contest_description_new_with_title) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    VoteVariationType n3 = (VoteVariationType)(1 + k % 3);
    uint64_t n4 = 7 + k;
    uint64_t n5 = 8 + k;
    string s6 = sample(k, 66);
    auto a7 = arg<InternationalizedText>(k, k + 7).release(), b7 = arg<InternationalizedText>(k, k + 7).release();
    auto a8 = arg<InternationalizedText>(k, k + 8).release(), b8 = arg<InternationalizedText>(k, k + 8).release();
    vector<SelectionDescription *> v9, d9; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v9.push_back(mk<SelectionDescription>(k + i).release()); d9.push_back(mk<SelectionDescription>(k + i).release()); }
    eg_contest_description_t * o11{};
    bool threw = false; try { auto &&e = unique_ptr<ContestDescription>(new ContestDescription(s0, s1, n2, n3, n4, n5, s6, A<InternationalizedText>{b7}, A<InternationalizedText>{b8}, V<SelectionDescription>{d9})); (void)e; status(false, real_eg_contest_description_new_with_title((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, n5, (char *)s6.c_str(), (eg_internationalized_text_t *)a7, (eg_internationalized_text_t *)a8, (eg_selection_description_t **)v9.data(), v9.size(), &o11)); same<ContestDescription>(o11, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_new_with_title((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, n5, (char *)s6.c_str(), (eg_internationalized_text_t *)a7, (eg_internationalized_text_t *)a8, (eg_selection_description_t **)v9.data(), v9.size(), &o11));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_new_with_title_and_parties(const char *, char *, uint64_t, eg_vote_variation_type_t, uint64_t, uint64_t, char *, eg_internationalized_text_t *, eg_internationalized_text_t *, eg_selection_description_t **, uint64_t, char **, uint64_t, eg_contest_description_t **) __asm__("eg_contest_description_new_with_title_and_parties");
FT(eg_contest_description_new_with_title_and_parties) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    VoteVariationType n3 = (VoteVariationType)(1 + k % 3);
    uint64_t n4 = 7 + k;
    uint64_t n5 = 8 + k;
    string s6 = sample(k, 66);
    auto a7 = arg<InternationalizedText>(k, k + 7).release(), b7 = arg<InternationalizedText>(k, k + 7).release();
    auto a8 = arg<InternationalizedText>(k, k + 8).release(), b8 = arg<InternationalizedText>(k, k + 8).release();
    vector<SelectionDescription *> v9, d9; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v9.push_back(mk<SelectionDescription>(k + i).release()); d9.push_back(mk<SelectionDescription>(k + i).release()); }
    vector<string> w11; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w11.push_back(sample(k, 50 + i));
    vector<const char *> v11; for (auto &s : w11) v11.push_back(s.c_str());
    eg_contest_description_t * o13{};
    bool threw = false; try { auto &&e = unique_ptr<ContestDescription>(new ContestDescription(s0, s1, n2, n3, n4, n5, s6, A<InternationalizedText>{b7}, A<InternationalizedText>{b8}, V<SelectionDescription>{d9}, w11)); (void)e; status(false, real_eg_contest_description_new_with_title_and_parties((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, n5, (char *)s6.c_str(), (eg_internationalized_text_t *)a7, (eg_internationalized_text_t *)a8, (eg_selection_description_t **)v9.data(), v9.size(), (char **)v11.data(), v11.size(), &o13)); same<ContestDescription>(o13, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_new_with_title_and_parties((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, n5, (char *)s6.c_str(), (eg_internationalized_text_t *)a7, (eg_internationalized_text_t *)a8, (eg_selection_description_t **)v9.data(), v9.size(), (char **)v11.data(), v11.size(), &o13));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_with_placeholders_free(eg_contest_description_with_placeholders_t *) __asm__("eg_contest_description_with_placeholders_free");
FT(eg_contest_description_with_placeholders_free) {
    auto p = mk<CDP>(k).release();
    status(false, real_eg_contest_description_with_placeholders_free((eg_contest_description_with_placeholders_t *)p));
    if (real_eg_contest_description_with_placeholders_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_contest_description_with_placeholders_get_placeholder_at_index(eg_contest_description_with_placeholders_t *, uint64_t, eg_selection_description_t **) __asm__("eg_contest_description_with_placeholders_get_placeholder_at_index");
FT(eg_contest_description_with_placeholders_get_placeholder_at_index) {
    auto a0 = arg<CDP>(k, k).release(), b0 = arg<CDP>(k, k).release();
    for (uint64_t z = b0->getPlaceholders().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_selection_description_t * o2{};
    bool threw = false; try { auto e = b0->getPlaceholders().at(n1); (void)e; status(false, real_eg_contest_description_with_placeholders_get_placeholder_at_index((eg_contest_description_with_placeholders_t *)a0, n1, &o2)); same<SelectionDescription>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_with_placeholders_get_placeholder_at_index((eg_contest_description_with_placeholders_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_contest_description_with_placeholders_get_placeholders_size(eg_contest_description_with_placeholders_t *) __asm__("eg_contest_description_with_placeholders_get_placeholders_size");
FT(eg_contest_description_with_placeholders_get_placeholders_size) {
    auto a0 = arg<CDP>(k, k).release(), b0 = arg<CDP>(k, k).release();
    sameN((uint64_t)real_eg_contest_description_with_placeholders_get_placeholders_size((eg_contest_description_with_placeholders_t *)a0), (uint64_t)b0->getPlaceholders().size());
}
extern "C" bool real_eg_contest_description_with_placeholders_is_placeholder(eg_contest_description_with_placeholders_t *, eg_selection_description_t *) __asm__("eg_contest_description_with_placeholders_is_placeholder");
FT(eg_contest_description_with_placeholders_is_placeholder) {
    auto a0 = arg<CDP>(k, k).release(), b0 = arg<CDP>(k, k).release();
    auto a1 = arg<SelectionDescription>(k, k + 1).release(), b1 = arg<SelectionDescription>(k, k + 1).release();
    sameN((uint64_t)real_eg_contest_description_with_placeholders_is_placeholder((eg_contest_description_with_placeholders_t *)a0, (eg_selection_description_t *)a1), (uint64_t)b0->IsPlaceholder(A<SelectionDescription>{b1}));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_with_placeholders_new(const char *, char *, uint64_t, eg_vote_variation_type_t, uint64_t, char *, eg_selection_description_t **, uint64_t, eg_selection_description_t **, uint64_t, eg_contest_description_with_placeholders_t **) __asm__("eg_contest_description_with_placeholders_new");
FT(eg_contest_description_with_placeholders_new) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    VoteVariationType n3 = (VoteVariationType)(1 + k % 3);
    uint64_t n4 = 7 + k;
    string s5 = sample(k, 65);
    vector<SelectionDescription *> v6, d6; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v6.push_back(mk<SelectionDescription>(k + i).release()); d6.push_back(mk<SelectionDescription>(k + i).release()); }
    vector<SelectionDescription *> v8, d8; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v8.push_back(mk<SelectionDescription>(k + i).release()); d8.push_back(mk<SelectionDescription>(k + i).release()); }
    eg_contest_description_with_placeholders_t * o10{};
    bool threw = false; try { auto &&e = unique_ptr<ContestDescriptionWithPlaceholders>(new ContestDescriptionWithPlaceholders(s0, s1, n2, n3, n4, s5, V<SelectionDescription>{d6}, V<SelectionDescription>{d8})); (void)e; status(false, real_eg_contest_description_with_placeholders_new((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, (char *)s5.c_str(), (eg_selection_description_t **)v6.data(), v6.size(), (eg_selection_description_t **)v8.data(), v8.size(), &o10)); same<CDP>(o10, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_with_placeholders_new((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, (char *)s5.c_str(), (eg_selection_description_t **)v6.data(), v6.size(), (eg_selection_description_t **)v8.data(), v8.size(), &o10));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_with_placeholders_new_with_parties(const char *, char *, uint64_t, eg_vote_variation_type_t, uint64_t, char *, eg_selection_description_t **, uint64_t, char **, uint64_t, eg_selection_description_t **, uint64_t, eg_contest_description_with_placeholders_t **) __asm__("eg_contest_description_with_placeholders_new_with_parties");
FT(eg_contest_description_with_placeholders_new_with_parties) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    VoteVariationType n3 = (VoteVariationType)(1 + k % 3);
    uint64_t n4 = 7 + k;
    string s5 = sample(k, 65);
    vector<SelectionDescription *> v6, d6; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v6.push_back(mk<SelectionDescription>(k + i).release()); d6.push_back(mk<SelectionDescription>(k + i).release()); }
    vector<string> w8; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w8.push_back(sample(k, 50 + i));
    vector<const char *> v8; for (auto &s : w8) v8.push_back(s.c_str());
    vector<SelectionDescription *> v10, d10; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v10.push_back(mk<SelectionDescription>(k + i).release()); d10.push_back(mk<SelectionDescription>(k + i).release()); }
    eg_contest_description_with_placeholders_t * o12{};
    bool threw = false; try { auto &&e = unique_ptr<ContestDescriptionWithPlaceholders>(new ContestDescriptionWithPlaceholders(s0, s1, n2, n3, n4, s5, V<SelectionDescription>{d6}, w8, V<SelectionDescription>{d10})); (void)e; status(false, real_eg_contest_description_with_placeholders_new_with_parties((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, (char *)s5.c_str(), (eg_selection_description_t **)v6.data(), v6.size(), (char **)v8.data(), v8.size(), (eg_selection_description_t **)v10.data(), v10.size(), &o12)); same<CDP>(o12, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_with_placeholders_new_with_parties((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, (char *)s5.c_str(), (eg_selection_description_t **)v6.data(), v6.size(), (char **)v8.data(), v8.size(), (eg_selection_description_t **)v10.data(), v10.size(), &o12));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_with_placeholders_new_with_title(const char *, char *, uint64_t, eg_vote_variation_type_t, uint64_t, uint64_t, char *, eg_internationalized_text_t *, eg_internationalized_text_t *, eg_selection_description_t **, uint64_t, eg_selection_description_t **, uint64_t, eg_contest_description_with_placeholders_t **) __asm__("eg_contest_description_with_placeholders_new_with_title");
FT(eg_contest_description_with_placeholders_new_with_title) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    VoteVariationType n3 = (VoteVariationType)(1 + k % 3);
    uint64_t n4 = 7 + k;
    uint64_t n5 = 8 + k;
    string s6 = sample(k, 66);
    auto a7 = arg<InternationalizedText>(k, k + 7).release(), b7 = arg<InternationalizedText>(k, k + 7).release();
    auto a8 = arg<InternationalizedText>(k, k + 8).release(), b8 = arg<InternationalizedText>(k, k + 8).release();
    vector<SelectionDescription *> v9, d9; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v9.push_back(mk<SelectionDescription>(k + i).release()); d9.push_back(mk<SelectionDescription>(k + i).release()); }
    vector<SelectionDescription *> v11, d11; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v11.push_back(mk<SelectionDescription>(k + i).release()); d11.push_back(mk<SelectionDescription>(k + i).release()); }
    eg_contest_description_with_placeholders_t * o13{};
    bool threw = false; try { auto &&e = unique_ptr<ContestDescriptionWithPlaceholders>(new ContestDescriptionWithPlaceholders(s0, s1, n2, n3, n4, n5, s6, A<InternationalizedText>{b7}, A<InternationalizedText>{b8}, V<SelectionDescription>{d9}, V<SelectionDescription>{d11})); (void)e; status(false, real_eg_contest_description_with_placeholders_new_with_title((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, n5, (char *)s6.c_str(), (eg_internationalized_text_t *)a7, (eg_internationalized_text_t *)a8, (eg_selection_description_t **)v9.data(), v9.size(), (eg_selection_description_t **)v11.data(), v11.size(), &o13)); same<CDP>(o13, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_with_placeholders_new_with_title((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, n5, (char *)s6.c_str(), (eg_internationalized_text_t *)a7, (eg_internationalized_text_t *)a8, (eg_selection_description_t **)v9.data(), v9.size(), (eg_selection_description_t **)v11.data(), v11.size(), &o13));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_with_placeholders_new_with_title_and_parties(const char *, char *, uint64_t, eg_vote_variation_type_t, uint64_t, uint64_t, char *, eg_internationalized_text_t *, eg_internationalized_text_t *, eg_selection_description_t **, uint64_t, char **, uint64_t, eg_selection_description_t **, uint64_t, eg_contest_description_with_placeholders_t **) __asm__("eg_contest_description_with_placeholders_new_with_title_and_parties");
FT(eg_contest_description_with_placeholders_new_with_title_and_parties) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    VoteVariationType n3 = (VoteVariationType)(1 + k % 3);
    uint64_t n4 = 7 + k;
    uint64_t n5 = 8 + k;
    string s6 = sample(k, 66);
    auto a7 = arg<InternationalizedText>(k, k + 7).release(), b7 = arg<InternationalizedText>(k, k + 7).release();
    auto a8 = arg<InternationalizedText>(k, k + 8).release(), b8 = arg<InternationalizedText>(k, k + 8).release();
    vector<SelectionDescription *> v9, d9; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v9.push_back(mk<SelectionDescription>(k + i).release()); d9.push_back(mk<SelectionDescription>(k + i).release()); }
    vector<string> w11; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w11.push_back(sample(k, 50 + i));
    vector<const char *> v11; for (auto &s : w11) v11.push_back(s.c_str());
    vector<SelectionDescription *> v13, d13; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v13.push_back(mk<SelectionDescription>(k + i).release()); d13.push_back(mk<SelectionDescription>(k + i).release()); }
    eg_contest_description_with_placeholders_t * o15{};
    bool threw = false; try { auto &&e = unique_ptr<ContestDescriptionWithPlaceholders>(new ContestDescriptionWithPlaceholders(s0, s1, n2, n3, n4, n5, s6, A<InternationalizedText>{b7}, A<InternationalizedText>{b8}, V<SelectionDescription>{d9}, w11, V<SelectionDescription>{d13})); (void)e; status(false, real_eg_contest_description_with_placeholders_new_with_title_and_parties((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, n5, (char *)s6.c_str(), (eg_internationalized_text_t *)a7, (eg_internationalized_text_t *)a8, (eg_selection_description_t **)v9.data(), v9.size(), (char **)v11.data(), v11.size(), (eg_selection_description_t **)v13.data(), v13.size(), &o15)); same<CDP>(o15, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_with_placeholders_new_with_title_and_parties((const char *)s0.c_str(), (char *)s1.c_str(), n2, (eg_vote_variation_type_t)n3, n4, n5, (char *)s6.c_str(), (eg_internationalized_text_t *)a7, (eg_internationalized_text_t *)a8, (eg_selection_description_t **)v9.data(), v9.size(), (char **)v11.data(), v11.size(), (eg_selection_description_t **)v13.data(), v13.size(), &o15));
}
extern "C" eg_electionguard_status_t real_eg_contest_description_with_placeholders_selection_for_id(eg_contest_description_with_placeholders_t *, char *, eg_selection_description_t **) __asm__("eg_contest_description_with_placeholders_selection_for_id");
FT(eg_contest_description_with_placeholders_selection_for_id) {
    auto a0 = arg<CDP>(k, k).release(), b0 = arg<CDP>(k, k).release();
    string s1 = sample(k, 61);
    eg_selection_description_t * o2{};
    bool threw = false; try { auto &&e = b0->selectionFor(s1); (void)e; status(false, real_eg_contest_description_with_placeholders_selection_for_id((eg_contest_description_with_placeholders_t *)a0, (char *)s1.c_str(), &o2)); same<SelectionDescription>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_contest_description_with_placeholders_selection_for_id((eg_contest_description_with_placeholders_t *)a0, (char *)s1.c_str(), &o2));
}
extern "C" eg_electionguard_status_t real_eg_delete_int_ptr(uint8_t *) __asm__("eg_delete_int_ptr");
FT(eg_delete_int_ptr) {
    status(false, real_eg_delete_int_ptr((uint8_t *)new uint8_t[8]));
    if (real_eg_delete_int_ptr(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_free(eg_disjunctive_chaum_pedersen_proof_t *) __asm__("eg_disjunctive_chaum_pedersen_proof_free");
FT(eg_disjunctive_chaum_pedersen_proof_free) {
    auto p = mk<DisjunctiveChaumPedersenProof>(k).release();
    status(false, real_eg_disjunctive_chaum_pedersen_proof_free((eg_disjunctive_chaum_pedersen_proof_t *)p));
    if (real_eg_disjunctive_chaum_pedersen_proof_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_challenge(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_q_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_challenge");
FT(eg_disjunctive_chaum_pedersen_proof_get_challenge) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getChallenge(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_challenge((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_challenge((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_one_challenge(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_q_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_one_challenge");
FT(eg_disjunctive_chaum_pedersen_proof_get_one_challenge) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getProofOneChallenge(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_one_challenge((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_one_challenge((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_one_data(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_p_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_one_data");
FT(eg_disjunctive_chaum_pedersen_proof_get_one_data) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getProofOneData(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_one_data((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_one_data((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_one_pad(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_p_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_one_pad");
FT(eg_disjunctive_chaum_pedersen_proof_get_one_pad) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getProofOnePad(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_one_pad((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_one_pad((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_one_response(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_q_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_one_response");
FT(eg_disjunctive_chaum_pedersen_proof_get_one_response) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getProofOneResponse(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_one_response((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_one_response((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_zero_challenge(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_q_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_zero_challenge");
FT(eg_disjunctive_chaum_pedersen_proof_get_zero_challenge) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getProofZeroChallenge(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_zero_challenge((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_zero_challenge((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_zero_data(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_p_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_zero_data");
FT(eg_disjunctive_chaum_pedersen_proof_get_zero_data) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getProofZeroData(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_zero_data((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_zero_data((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_zero_pad(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_p_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_zero_pad");
FT(eg_disjunctive_chaum_pedersen_proof_get_zero_pad) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getProofZeroPad(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_zero_pad((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_zero_pad((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_get_zero_response(eg_disjunctive_chaum_pedersen_proof_t *, eg_element_mod_q_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_get_zero_response");
FT(eg_disjunctive_chaum_pedersen_proof_get_zero_response) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getProofZeroResponse(); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_get_zero_response((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_get_zero_response((eg_disjunctive_chaum_pedersen_proof_t *)a0, &o1));
}
extern "C" bool real_eg_disjunctive_chaum_pedersen_proof_is_valid(eg_disjunctive_chaum_pedersen_proof_t *, eg_elgamal_ciphertext_t *, eg_element_mod_p_t *, eg_element_mod_q_t *) __asm__("eg_disjunctive_chaum_pedersen_proof_is_valid");
FT(eg_disjunctive_chaum_pedersen_proof_is_valid) {
    auto a0 = arg<DisjunctiveChaumPedersenProof>(k, k).release(), b0 = arg<DisjunctiveChaumPedersenProof>(k, k).release();
    auto a1 = arg<ElGamalCiphertext>(k, k + 1).release(), b1 = arg<ElGamalCiphertext>(k, k + 1).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, k + 3).release(), b3 = arg<ElementModQ>(k, k + 3).release();
    sameN((uint64_t)real_eg_disjunctive_chaum_pedersen_proof_is_valid((eg_disjunctive_chaum_pedersen_proof_t *)a0, (eg_elgamal_ciphertext_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3), (uint64_t)b0->isValid(A<ElGamalCiphertext>{b1}, A<ElementModP>{b2}, A<ElementModQ>{b3}));
}
extern "C" eg_electionguard_status_t real_eg_disjunctive_chaum_pedersen_proof_make_deterministic(eg_elgamal_ciphertext_t *, eg_element_mod_q_t *, eg_element_mod_p_t *, eg_element_mod_q_t *, eg_element_mod_q_t *, uint64_t, eg_disjunctive_chaum_pedersen_proof_t **) __asm__("eg_disjunctive_chaum_pedersen_proof_make_deterministic");
FT(eg_disjunctive_chaum_pedersen_proof_make_deterministic) {
    auto a0 = arg<ElGamalCiphertext>(k, k).release(), b0 = arg<ElGamalCiphertext>(k, k).release();
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, k + 3).release(), b3 = arg<ElementModQ>(k, k + 3).release();
    auto a4 = arg<ElementModQ>(k, 5).release(), b4 = arg<ElementModQ>(k, 5).release();
    uint64_t n5 = k & 1;
    eg_disjunctive_chaum_pedersen_proof_t * o6{};
    bool threw = false; try { auto &&e = DisjunctiveChaumPedersenProof::make(A<ElGamalCiphertext>{b0}, A<ElementModQ>{b1}, A<ElementModP>{b2}, A<ElementModQ>{b3}, A<ElementModQ>{b4}, n5); (void)e; status(false, real_eg_disjunctive_chaum_pedersen_proof_make_deterministic((eg_elgamal_ciphertext_t *)a0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3, (eg_element_mod_q_t *)a4, n5, &o6)); same<DisjunctiveChaumPedersenProof>(o6, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_disjunctive_chaum_pedersen_proof_make_deterministic((eg_elgamal_ciphertext_t *)a0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3, (eg_element_mod_q_t *)a4, n5, &o6));
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_crypto_hash(eg_election_manifest_t *, eg_element_mod_q_t **) __asm__("eg_election_manifest_crypto_hash");
FT(eg_election_manifest_crypto_hash) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_election_manifest_crypto_hash((eg_election_manifest_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_crypto_hash((eg_election_manifest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_free(eg_election_manifest_t *) __asm__("eg_election_manifest_free");
FT(eg_election_manifest_free) {
    auto p = mk<Manifest>(k).release();
    status(false, real_eg_election_manifest_free((eg_election_manifest_t *)p));
    if (real_eg_election_manifest_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_from_bson(uint8_t *, uint64_t, eg_election_manifest_t **) __asm__("eg_election_manifest_from_bson");
FT(eg_election_manifest_from_bson) {
    vector<uint8_t> good = ob<Manifest>(k).toBson();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_election_manifest_t * o2{};
    bool threw = false; try { auto &&e = Manifest::fromBson(v0); (void)e; status(false, real_eg_election_manifest_from_bson((uint8_t *)v0.data(), v0.size(), &o2)); same<Manifest>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_from_bson((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_from_json(char *, eg_election_manifest_t **) __asm__("eg_election_manifest_from_json");
FT(eg_election_manifest_from_json) {
    string good = ob<Manifest>(k).toJson();
    for (int c = 0; c < 3; c++) {
    string in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    string s0 = in;
    eg_election_manifest_t * o1{};
    bool threw = false; try { auto &&e = Manifest::fromJson(s0); (void)e; status(false, real_eg_election_manifest_from_json((char *)s0.c_str(), &o1)); same<Manifest>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_from_json((char *)s0.c_str(), &o1));
    }
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_from_msgpack(uint8_t *, uint64_t, eg_election_manifest_t **) __asm__("eg_election_manifest_from_msgpack");
FT(eg_election_manifest_from_msgpack) {
    vector<uint8_t> good = ob<Manifest>(k).toMsgPack();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_election_manifest_t * o2{};
    bool threw = false; try { auto &&e = Manifest::fromMsgPack(v0); (void)e; status(false, real_eg_election_manifest_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2)); same<Manifest>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_get_ballot_style_at_index(eg_election_manifest_t *, uint64_t, eg_ballot_style_t **) __asm__("eg_election_manifest_get_ballot_style_at_index");
FT(eg_election_manifest_get_ballot_style_at_index) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getBallotStyles().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_ballot_style_t * o2{};
    bool threw = false; try { auto e = b0->getBallotStyles().at(n1); (void)e; status(false, real_eg_election_manifest_get_ballot_style_at_index((eg_election_manifest_t *)a0, n1, &o2)); same<BallotStyle>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_get_ballot_style_at_index((eg_election_manifest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_election_manifest_get_ballot_styles_size(eg_election_manifest_t *) __asm__("eg_election_manifest_get_ballot_styles_size");
FT(eg_election_manifest_get_ballot_styles_size) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_election_manifest_get_ballot_styles_size((eg_election_manifest_t *)a0), (uint64_t)b0->getBallotStyles().size());
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_get_candidate_at_index(eg_election_manifest_t *, uint64_t, eg_candidate_t **) __asm__("eg_election_manifest_get_candidate_at_index");
FT(eg_election_manifest_get_candidate_at_index) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getCandidates().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_candidate_t * o2{};
    bool threw = false; try { auto e = b0->getCandidates().at(n1); (void)e; status(false, real_eg_election_manifest_get_candidate_at_index((eg_election_manifest_t *)a0, n1, &o2)); same<Candidate>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_get_candidate_at_index((eg_election_manifest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_election_manifest_get_candidates_size(eg_election_manifest_t *) __asm__("eg_election_manifest_get_candidates_size");
FT(eg_election_manifest_get_candidates_size) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_election_manifest_get_candidates_size((eg_election_manifest_t *)a0), (uint64_t)b0->getCandidates().size());
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_get_contact_info(eg_election_manifest_t *, eg_contact_information_t **) __asm__("eg_election_manifest_get_contact_info");
FT(eg_election_manifest_get_contact_info) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    eg_contact_information_t * o1{};
    bool threw = false; try { auto &&e = b0->getContactInformation(); (void)e; status(false, real_eg_election_manifest_get_contact_info((eg_election_manifest_t *)a0, &o1)); same<ContactInformation>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_get_contact_info((eg_election_manifest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_get_contest_at_index(eg_election_manifest_t *, uint64_t, eg_contest_description_t **) __asm__("eg_election_manifest_get_contest_at_index");
FT(eg_election_manifest_get_contest_at_index) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getContests().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_contest_description_t * o2{};
    bool threw = false; try { auto e = b0->getContests().at(n1); (void)e; status(false, real_eg_election_manifest_get_contest_at_index((eg_election_manifest_t *)a0, n1, &o2)); same<ContestDescription>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_get_contest_at_index((eg_election_manifest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_election_manifest_get_contests_size(eg_election_manifest_t *) __asm__("eg_election_manifest_get_contests_size");
FT(eg_election_manifest_get_contests_size) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_election_manifest_get_contests_size((eg_election_manifest_t *)a0), (uint64_t)b0->getContests().size());
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_get_election_scope_id(eg_election_manifest_t *, char **) __asm__("eg_election_manifest_get_election_scope_id");
FT(eg_election_manifest_get_election_scope_id) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    char * o1{};
    string e; TRY(e = b0->getElectionScopeId()); status(threw, real_eg_election_manifest_get_election_scope_id((eg_election_manifest_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_get_geopolitical_unit_at_index(eg_election_manifest_t *, uint64_t, eg_geopolitical_unit_t **) __asm__("eg_election_manifest_get_geopolitical_unit_at_index");
FT(eg_election_manifest_get_geopolitical_unit_at_index) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getGeopoliticalUnits().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_geopolitical_unit_t * o2{};
    bool threw = false; try { auto e = b0->getGeopoliticalUnits().at(n1); (void)e; status(false, real_eg_election_manifest_get_geopolitical_unit_at_index((eg_election_manifest_t *)a0, n1, &o2)); same<GeopoliticalUnit>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_get_geopolitical_unit_at_index((eg_election_manifest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_election_manifest_get_geopolitical_units_size(eg_election_manifest_t *) __asm__("eg_election_manifest_get_geopolitical_units_size");
FT(eg_election_manifest_get_geopolitical_units_size) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_election_manifest_get_geopolitical_units_size((eg_election_manifest_t *)a0), (uint64_t)b0->getGeopoliticalUnits().size());
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_get_name(eg_election_manifest_t *, eg_internationalized_text_t **) __asm__("eg_election_manifest_get_name");
FT(eg_election_manifest_get_name) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    eg_internationalized_text_t * o1{};
    bool threw = false; try { auto &&e = b0->getName(); (void)e; status(false, real_eg_election_manifest_get_name((eg_election_manifest_t *)a0, &o1)); same<InternationalizedText>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_get_name((eg_election_manifest_t *)a0, &o1));
}
extern "C" uint64_t real_eg_election_manifest_get_parties_size(eg_election_manifest_t *) __asm__("eg_election_manifest_get_parties_size");
FT(eg_election_manifest_get_parties_size) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_election_manifest_get_parties_size((eg_election_manifest_t *)a0), (uint64_t)b0->getParties().size());
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_get_party_at_index(eg_election_manifest_t *, uint64_t, eg_party_t **) __asm__("eg_election_manifest_get_party_at_index");
FT(eg_election_manifest_get_party_at_index) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getParties().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_party_t * o2{};
    bool threw = false; try { auto e = b0->getParties().at(n1); (void)e; status(false, real_eg_election_manifest_get_party_at_index((eg_election_manifest_t *)a0, n1, &o2)); same<Party>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_get_party_at_index((eg_election_manifest_t *)a0, n1, &o2));
    }
}
extern "C" eg_election_type_t real_eg_election_manifest_get_type(eg_election_manifest_t *) __asm__("eg_election_manifest_get_type");
FT(eg_election_manifest_get_type) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_election_manifest_get_type((eg_election_manifest_t *)a0), (uint64_t)b0->getElectionType());
}
extern "C" bool real_eg_election_manifest_is_valid(eg_election_manifest_t *) __asm__("eg_election_manifest_is_valid");
FT(eg_election_manifest_is_valid) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_election_manifest_is_valid((eg_election_manifest_t *)a0), (uint64_t)b0->isValid());
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_new(char *, eg_election_type_t, uint64_t, uint64_t, eg_geopolitical_unit_t **, uint64_t, eg_party_t **, uint64_t, eg_candidate_t **, uint64_t, eg_contest_description_t **, uint64_t, eg_ballot_style_t **, uint64_t, eg_election_manifest_t **) __asm__("eg_election_manifest_new");
FT(eg_election_manifest_new) {
    string s0 = sample(k, 60);
    ElectionType n1 = (ElectionType)(1 + k % 3);
    uint64_t n2 = 5 + k;
    uint64_t n3 = 6 + k;
    vector<GeopoliticalUnit *> v4, d4; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v4.push_back(mk<GeopoliticalUnit>(k + i).release()); d4.push_back(mk<GeopoliticalUnit>(k + i).release()); }
    vector<Party *> v6, d6; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v6.push_back(mk<Party>(k + i).release()); d6.push_back(mk<Party>(k + i).release()); }
    vector<Candidate *> v8, d8; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v8.push_back(mk<Candidate>(k + i).release()); d8.push_back(mk<Candidate>(k + i).release()); }
    vector<ContestDescription *> v10, d10; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v10.push_back(mk<ContestDescription>(k + i).release()); d10.push_back(mk<ContestDescription>(k + i).release()); }
    vector<BallotStyle *> v12, d12; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v12.push_back(mk<BallotStyle>(k + i).release()); d12.push_back(mk<BallotStyle>(k + i).release()); }
    eg_election_manifest_t * o14{};
    bool threw = false; try { auto &&e = unique_ptr<Manifest>(new Manifest(s0, n1, std::chrono::system_clock::time_point(std::chrono::milliseconds(n2)), std::chrono::system_clock::time_point(std::chrono::milliseconds(n3)), V<GeopoliticalUnit>{d4}, V<Party>{d6}, V<Candidate>{d8}, V<ContestDescription>{d10}, V<BallotStyle>{d12})); (void)e; status(false, real_eg_election_manifest_new((char *)s0.c_str(), (eg_election_type_t)n1, n2, n3, (eg_geopolitical_unit_t **)v4.data(), v4.size(), (eg_party_t **)v6.data(), v6.size(), (eg_candidate_t **)v8.data(), v8.size(), (eg_contest_description_t **)v10.data(), v10.size(), (eg_ballot_style_t **)v12.data(), v12.size(), &o14)); same<Manifest>(o14, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_new((char *)s0.c_str(), (eg_election_type_t)n1, n2, n3, (eg_geopolitical_unit_t **)v4.data(), v4.size(), (eg_party_t **)v6.data(), v6.size(), (eg_candidate_t **)v8.data(), v8.size(), (eg_contest_description_t **)v10.data(), v10.size(), (eg_ballot_style_t **)v12.data(), v12.size(), &o14));
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_new_with_contact(char *, eg_election_type_t, uint64_t, uint64_t, eg_geopolitical_unit_t **, uint64_t, eg_party_t **, uint64_t, eg_candidate_t **, uint64_t, eg_contest_description_t **, uint64_t, eg_ballot_style_t **, uint64_t, eg_internationalized_text_t *, eg_contact_information_t *, eg_election_manifest_t **) __asm__("eg_election_manifest_new_with_contact");
FT(eg_election_manifest_new_with_contact) {
    string s0 = sample(k, 60);
    ElectionType n1 = (ElectionType)(1 + k % 3);
    uint64_t n2 = 5 + k;
    uint64_t n3 = 6 + k;
    vector<GeopoliticalUnit *> v4, d4; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v4.push_back(mk<GeopoliticalUnit>(k + i).release()); d4.push_back(mk<GeopoliticalUnit>(k + i).release()); }
    vector<Party *> v6, d6; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v6.push_back(mk<Party>(k + i).release()); d6.push_back(mk<Party>(k + i).release()); }
    vector<Candidate *> v8, d8; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v8.push_back(mk<Candidate>(k + i).release()); d8.push_back(mk<Candidate>(k + i).release()); }
    vector<ContestDescription *> v10, d10; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v10.push_back(mk<ContestDescription>(k + i).release()); d10.push_back(mk<ContestDescription>(k + i).release()); }
    vector<BallotStyle *> v12, d12; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v12.push_back(mk<BallotStyle>(k + i).release()); d12.push_back(mk<BallotStyle>(k + i).release()); }
    auto a14 = arg<InternationalizedText>(k, k + 14).release(), b14 = arg<InternationalizedText>(k, k + 14).release();
    auto a15 = arg<ContactInformation>(k, k + 15).release(), b15 = arg<ContactInformation>(k, k + 15).release();
    eg_election_manifest_t * o16{};
    bool threw = false; try { auto &&e = unique_ptr<Manifest>(new Manifest(s0, n1, std::chrono::system_clock::time_point(std::chrono::milliseconds(n2)), std::chrono::system_clock::time_point(std::chrono::milliseconds(n3)), V<GeopoliticalUnit>{d4}, V<Party>{d6}, V<Candidate>{d8}, V<ContestDescription>{d10}, V<BallotStyle>{d12}, A<InternationalizedText>{b14}, A<ContactInformation>{b15})); (void)e; status(false, real_eg_election_manifest_new_with_contact((char *)s0.c_str(), (eg_election_type_t)n1, n2, n3, (eg_geopolitical_unit_t **)v4.data(), v4.size(), (eg_party_t **)v6.data(), v6.size(), (eg_candidate_t **)v8.data(), v8.size(), (eg_contest_description_t **)v10.data(), v10.size(), (eg_ballot_style_t **)v12.data(), v12.size(), (eg_internationalized_text_t *)a14, (eg_contact_information_t *)a15, &o16)); same<Manifest>(o16, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_election_manifest_new_with_contact((char *)s0.c_str(), (eg_election_type_t)n1, n2, n3, (eg_geopolitical_unit_t **)v4.data(), v4.size(), (eg_party_t **)v6.data(), v6.size(), (eg_candidate_t **)v8.data(), v8.size(), (eg_contest_description_t **)v10.data(), v10.size(), (eg_ballot_style_t **)v12.data(), v12.size(), (eg_internationalized_text_t *)a14, (eg_contact_information_t *)a15, &o16));
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_to_bson(eg_election_manifest_t *, uint8_t **, uint64_t *) __asm__("eg_election_manifest_to_bson");
FT(eg_election_manifest_to_bson) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_election_manifest_to_bson((eg_election_manifest_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toBson());
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_to_json(eg_election_manifest_t *, char **, uint64_t *) __asm__("eg_election_manifest_to_json");
FT(eg_election_manifest_to_json) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    char * o1{};
    uint64_t o2{};
    status(false, real_eg_election_manifest_to_json((eg_election_manifest_t *)a0, &o1, &o2));
    sameJ(o1, o2, b0->toJson());
}
extern "C" eg_electionguard_status_t real_eg_election_manifest_to_msgpack(eg_election_manifest_t *, uint8_t **, uint64_t *) __asm__("eg_election_manifest_to_msgpack");
FT(eg_election_manifest_to_msgpack) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_election_manifest_to_msgpack((eg_election_manifest_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toMsgPack());
}
extern "C" eg_electionguard_status_t real_eg_element_mod_p_constant_g(eg_element_mod_p_t **) __asm__("eg_element_mod_p_constant_g");
FT(eg_element_mod_p_constant_g) {
    eg_element_mod_p_t * o0{};
    bool threw = false; try { auto &&e = G(); (void)e; status(false, real_eg_element_mod_p_constant_g(&o0)); same<ElementModP>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_p_constant_g(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_p_constant_one_mod_p(eg_element_mod_p_t **) __asm__("eg_element_mod_p_constant_one_mod_p");
FT(eg_element_mod_p_constant_one_mod_p) {
    eg_element_mod_p_t * o0{};
    bool threw = false; try { auto &&e = ONE_MOD_P(); (void)e; status(false, real_eg_element_mod_p_constant_one_mod_p(&o0)); same<ElementModP>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_p_constant_one_mod_p(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_p_constant_p(eg_element_mod_p_t **) __asm__("eg_element_mod_p_constant_p");
FT(eg_element_mod_p_constant_p) {
    eg_element_mod_p_t * o0{};
    bool threw = false; try { auto &&e = P(); (void)e; status(false, real_eg_element_mod_p_constant_p(&o0)); same<ElementModP>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_p_constant_p(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_p_constant_r(eg_element_mod_p_t **) __asm__("eg_element_mod_p_constant_r");
FT(eg_element_mod_p_constant_r) {
    eg_element_mod_p_t * o0{};
    bool threw = false; try { auto &&e = R(); (void)e; status(false, real_eg_element_mod_p_constant_r(&o0)); same<ElementModP>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_p_constant_r(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_p_constant_two_mod_p(eg_element_mod_p_t **) __asm__("eg_element_mod_p_constant_two_mod_p");
FT(eg_element_mod_p_constant_two_mod_p) {
    eg_element_mod_p_t * o0{};
    bool threw = false; try { auto &&e = TWO_MOD_P(); (void)e; status(false, real_eg_element_mod_p_constant_two_mod_p(&o0)); same<ElementModP>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_p_constant_two_mod_p(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_p_constant_zero_mod_p(eg_element_mod_p_t **) __asm__("eg_element_mod_p_constant_zero_mod_p");
FT(eg_element_mod_p_constant_zero_mod_p) {
    eg_element_mod_p_t * o0{};
    bool threw = false; try { auto &&e = ZERO_MOD_P(); (void)e; status(false, real_eg_element_mod_p_constant_zero_mod_p(&o0)); same<ElementModP>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_p_constant_zero_mod_p(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_p_free(eg_element_mod_p_t *) __asm__("eg_element_mod_p_free");
FT(eg_element_mod_p_free) {
    auto p = mk<ElementModP>(k).release();
    status(false, real_eg_element_mod_p_free((eg_element_mod_p_t *)p));
    if (real_eg_element_mod_p_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_element_mod_p_to_hex(eg_element_mod_p_t *, char **) __asm__("eg_element_mod_p_to_hex");
FT(eg_element_mod_p_to_hex) {
    auto a0 = arg<ElementModP>(k, k).release(), b0 = arg<ElementModP>(k, k).release();
    char * o1{};
    string e; TRY(e = b0->toHex()); status(threw, real_eg_element_mod_p_to_hex((eg_element_mod_p_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_constant_one_mod_q(eg_element_mod_q_t **) __asm__("eg_element_mod_q_constant_one_mod_q");
FT(eg_element_mod_q_constant_one_mod_q) {
    eg_element_mod_q_t * o0{};
    bool threw = false; try { auto &&e = ONE_MOD_Q(); (void)e; status(false, real_eg_element_mod_q_constant_one_mod_q(&o0)); same<ElementModQ>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_q_constant_one_mod_q(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_constant_q(eg_element_mod_q_t **) __asm__("eg_element_mod_q_constant_q");
FT(eg_element_mod_q_constant_q) {
    eg_element_mod_q_t * o0{};
    bool threw = false; try { auto &&e = Q(); (void)e; status(false, real_eg_element_mod_q_constant_q(&o0)); same<ElementModQ>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_q_constant_q(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_constant_two_mod_q(eg_element_mod_q_t **) __asm__("eg_element_mod_q_constant_two_mod_q");
FT(eg_element_mod_q_constant_two_mod_q) {
    eg_element_mod_q_t * o0{};
    bool threw = false; try { auto &&e = TWO_MOD_Q(); (void)e; status(false, real_eg_element_mod_q_constant_two_mod_q(&o0)); same<ElementModQ>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_q_constant_two_mod_q(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_constant_zero_mod_q(eg_element_mod_q_t **) __asm__("eg_element_mod_q_constant_zero_mod_q");
FT(eg_element_mod_q_constant_zero_mod_q) {
    eg_element_mod_q_t * o0{};
    bool threw = false; try { auto &&e = ZERO_MOD_Q(); (void)e; status(false, real_eg_element_mod_q_constant_zero_mod_q(&o0)); same<ElementModQ>(o0, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_q_constant_zero_mod_q(&o0));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_free(eg_element_mod_q_t *) __asm__("eg_element_mod_q_free");
FT(eg_element_mod_q_free) {
    auto p = mk<ElementModQ>(k).release();
    status(false, real_eg_element_mod_q_free((eg_element_mod_q_t *)p));
    if (real_eg_element_mod_q_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_from_hex(char *, eg_element_mod_q_t **) __asm__("eg_element_mod_q_from_hex");
FT(eg_element_mod_q_from_hex) {
    static const char *hx[] = {"1A", "", "ZZ", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"};
    string s0 = hx[k % 4];
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = ElementModQ::fromHex(s0, false); (void)e; status(false, real_eg_element_mod_q_from_hex((char *)s0.c_str(), &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_q_from_hex((char *)s0.c_str(), &o1));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_from_hex_unchecked(char *, eg_element_mod_q_t **) __asm__("eg_element_mod_q_from_hex_unchecked");
FT(eg_element_mod_q_from_hex_unchecked) {
    static const char *hx[] = {"1A", "", "ZZ", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"};
    string s0 = hx[k % 4];
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = ElementModQ::fromHex(s0, true); (void)e; status(false, real_eg_element_mod_q_from_hex_unchecked((char *)s0.c_str(), &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_q_from_hex_unchecked((char *)s0.c_str(), &o1));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_pow_mod_p(eg_element_mod_p_t *, eg_element_mod_q_t *, eg_element_mod_p_t **) __asm__("eg_element_mod_q_pow_mod_p");
FT(eg_element_mod_q_pow_mod_p) {
    auto a0 = arg<ElementModP>(k, k).release(), b0 = arg<ElementModP>(k, k).release();
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    eg_element_mod_p_t * o2{};
    bool threw = false; try { auto &&e = pow_mod_p(A<ElementModP>{b0}, A<ElementModQ>{b1}); (void)e; status(false, real_eg_element_mod_q_pow_mod_p((eg_element_mod_p_t *)a0, (eg_element_mod_q_t *)a1, &o2)); same<ElementModP>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_element_mod_q_pow_mod_p((eg_element_mod_p_t *)a0, (eg_element_mod_q_t *)a1, &o2));
}
extern "C" eg_electionguard_status_t real_eg_element_mod_q_to_hex(eg_element_mod_q_t *, char **) __asm__("eg_element_mod_q_to_hex");
FT(eg_element_mod_q_to_hex) {
    auto a0 = arg<ElementModQ>(k, k).release(), b0 = arg<ElementModQ>(k, k).release();
    char * o1{};
    string e; TRY(e = b0->toHex()); status(threw, real_eg_element_mod_q_to_hex((eg_element_mod_q_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_elgamal_ciphertext_crypto_hash(eg_elgamal_ciphertext_t *, eg_element_mod_q_t **) __asm__("eg_elgamal_ciphertext_crypto_hash");
FT(eg_elgamal_ciphertext_crypto_hash) {
    auto a0 = arg<ElGamalCiphertext>(k, k).release(), b0 = arg<ElGamalCiphertext>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_elgamal_ciphertext_crypto_hash((eg_elgamal_ciphertext_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_elgamal_ciphertext_crypto_hash((eg_elgamal_ciphertext_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_elgamal_ciphertext_decrypt_with_secret(eg_elgamal_ciphertext_t *, eg_element_mod_q_t *, uint64_t *) __asm__("eg_elgamal_ciphertext_decrypt_with_secret");
FT(eg_elgamal_ciphertext_decrypt_with_secret) {
    auto a0 = arg<ElGamalCiphertext>(k, k).release(), b0 = arg<ElGamalCiphertext>(k, k).release();
    auto a1 = arg<ElementModQ>(k, k + 1).release(), b1 = arg<ElementModQ>(k, k + 1).release();
    uint64_t o2{};
    uint64_t e = 0; TRY(e = b0->decrypt(A<ElementModQ>{b1})); status(threw, real_eg_elgamal_ciphertext_decrypt_with_secret((eg_elgamal_ciphertext_t *)a0, (eg_element_mod_q_t *)a1, &o2)); if (!threw) sameN(o2, e);
}
extern "C" eg_electionguard_status_t real_eg_elgamal_ciphertext_free(eg_elgamal_ciphertext_t *) __asm__("eg_elgamal_ciphertext_free");
FT(eg_elgamal_ciphertext_free) {
    auto p = mk<ElGamalCiphertext>(k).release();
    status(false, real_eg_elgamal_ciphertext_free((eg_elgamal_ciphertext_t *)p));
    if (real_eg_elgamal_ciphertext_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_elgamal_ciphertext_get_data(eg_elgamal_ciphertext_t *, eg_element_mod_p_t **) __asm__("eg_elgamal_ciphertext_get_data");
FT(eg_elgamal_ciphertext_get_data) {
    auto a0 = arg<ElGamalCiphertext>(k, k).release(), b0 = arg<ElGamalCiphertext>(k, k).release();
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getData(); (void)e; status(false, real_eg_elgamal_ciphertext_get_data((eg_elgamal_ciphertext_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_elgamal_ciphertext_get_data((eg_elgamal_ciphertext_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_elgamal_ciphertext_get_pad(eg_elgamal_ciphertext_t *, eg_element_mod_p_t **) __asm__("eg_elgamal_ciphertext_get_pad");
FT(eg_elgamal_ciphertext_get_pad) {
    auto a0 = arg<ElGamalCiphertext>(k, k).release(), b0 = arg<ElGamalCiphertext>(k, k).release();
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getPad(); (void)e; status(false, real_eg_elgamal_ciphertext_get_pad((eg_elgamal_ciphertext_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_elgamal_ciphertext_get_pad((eg_elgamal_ciphertext_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_elgamal_encrypt(uint64_t, eg_element_mod_q_t *, eg_element_mod_p_t *, eg_elgamal_ciphertext_t **) __asm__("eg_elgamal_encrypt");
FT(eg_elgamal_encrypt) {
    uint64_t n0 = k & 1;
    auto a1 = arg<ElementModQ>(k, k + 2).release(), b1 = arg<ElementModQ>(k, k + 2).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    eg_elgamal_ciphertext_t * o3{};
    bool threw = false; try { auto &&e = elgamalEncrypt(n0, A<ElementModQ>{b1}, A<ElementModP>{b2}); (void)e; status(false, real_eg_elgamal_encrypt(n0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, &o3)); same<ElGamalCiphertext>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_elgamal_encrypt(n0, (eg_element_mod_q_t *)a1, (eg_element_mod_p_t *)a2, &o3));
}
extern "C" eg_electionguard_status_t real_eg_elgamal_keypair_free(eg_elgamal_keypair_t *) __asm__("eg_elgamal_keypair_free");
FT(eg_elgamal_keypair_free) {
    auto p = mk<ElGamalKeyPair>(k).release();
    status(false, real_eg_elgamal_keypair_free((eg_elgamal_keypair_t *)p));
    if (real_eg_elgamal_keypair_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_elgamal_keypair_from_secret_new(eg_element_mod_q_t *, eg_elgamal_keypair_t **) __asm__("eg_elgamal_keypair_from_secret_new");
FT(eg_elgamal_keypair_from_secret_new) {
    auto a0 = arg<ElementModQ>(k, k).release(), b0 = arg<ElementModQ>(k, k).release();
    eg_elgamal_keypair_t * o1{};
    bool threw = false; try { auto &&e = ElGamalKeyPair::fromSecret(A<ElementModQ>{b0}); (void)e; status(false, real_eg_elgamal_keypair_from_secret_new((eg_element_mod_q_t *)a0, &o1)); same<ElGamalKeyPair>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_elgamal_keypair_from_secret_new((eg_element_mod_q_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_elgamal_keypair_get_public_key(eg_elgamal_keypair_t *, eg_element_mod_p_t **) __asm__("eg_elgamal_keypair_get_public_key");
FT(eg_elgamal_keypair_get_public_key) {
    auto a0 = &ob<ElGamalKeyPair>(k % 4), b0 = a0;
    eg_element_mod_p_t * o1{};
    bool threw = false; try { auto &&e = b0->getPublicKey(); (void)e; status(false, real_eg_elgamal_keypair_get_public_key((eg_elgamal_keypair_t *)a0, &o1)); same<ElementModP>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_elgamal_keypair_get_public_key((eg_elgamal_keypair_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_elgamal_keypair_get_secret_key(eg_elgamal_keypair_t *, eg_element_mod_q_t **) __asm__("eg_elgamal_keypair_get_secret_key");
FT(eg_elgamal_keypair_get_secret_key) {
    auto a0 = &ob<ElGamalKeyPair>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getSecretKey(); (void)e; status(false, real_eg_elgamal_keypair_get_secret_key((eg_elgamal_keypair_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_elgamal_keypair_get_secret_key((eg_elgamal_keypair_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_encrypt_contest(eg_plaintext_ballot_contest_t *, eg_internal_manifest_t *, eg_contest_description_with_placeholders_t *, eg_element_mod_p_t *, eg_element_mod_q_t *, eg_element_mod_q_t *, bool, eg_ciphertext_ballot_contest_t **) __asm__("eg_encrypt_contest");
FT(eg_encrypt_contest) {
    auto a0 = arg<PlaintextBallotContest>(k, k).release(), b0 = arg<PlaintextBallotContest>(k, k).release();
    auto a1 = &ob<InternalManifest>(k % 4), b1 = a1;
    auto a2 = arg<CDP>(k, k + 2).release(), b2 = arg<CDP>(k, k + 2).release();
    auto a3 = arg<ElementModP>(k, k + 3).release(), b3 = arg<ElementModP>(k, k + 3).release();
    auto a4 = arg<ElementModQ>(k, k + 4).release(), b4 = arg<ElementModQ>(k, k + 4).release();
    auto a5 = arg<ElementModQ>(k, k + 5).release(), b5 = arg<ElementModQ>(k, k + 5).release();
    bool n6 = (k >> 0) & 1;
    eg_ciphertext_ballot_contest_t * o7{};
    bool threw = false; try { auto &&e = encryptContest(A<PlaintextBallotContest>{b0}, A<InternalManifest>{b1}, A<CDP>{b2}, A<ElementModP>{b3}, A<ElementModQ>{b4}, A<ElementModQ>{b5}, n6); (void)e; status(false, real_eg_encrypt_contest((eg_plaintext_ballot_contest_t *)a0, (eg_internal_manifest_t *)a1, (eg_contest_description_with_placeholders_t *)a2, (eg_element_mod_p_t *)a3, (eg_element_mod_q_t *)a4, (eg_element_mod_q_t *)a5, n6, &o7)); same<CiphertextBallotContest>(o7, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_encrypt_contest((eg_plaintext_ballot_contest_t *)a0, (eg_internal_manifest_t *)a1, (eg_contest_description_with_placeholders_t *)a2, (eg_element_mod_p_t *)a3, (eg_element_mod_q_t *)a4, (eg_element_mod_q_t *)a5, n6, &o7));
}
extern "C" eg_electionguard_status_t real_eg_encrypt_selection(eg_plaintext_ballot_selection_t *, eg_selection_description_t *, eg_element_mod_p_t *, eg_element_mod_q_t *, eg_element_mod_q_t *, bool, bool, eg_ciphertext_ballot_selection_t **) __asm__("eg_encrypt_selection");
FT(eg_encrypt_selection) {
    auto a0 = arg<PlaintextBallotSelection>(k, k).release(), b0 = arg<PlaintextBallotSelection>(k, k).release();
    auto a1 = arg<SelectionDescription>(k, k + 1).release(), b1 = arg<SelectionDescription>(k, k + 1).release();
    auto a2 = arg<ElementModP>(k, k + 2).release(), b2 = arg<ElementModP>(k, k + 2).release();
    auto a3 = arg<ElementModQ>(k, k + 3).release(), b3 = arg<ElementModQ>(k, k + 3).release();
    auto a4 = arg<ElementModQ>(k, k + 4).release(), b4 = arg<ElementModQ>(k, k + 4).release();
    bool n5 = (k >> 1) & 1;
    bool n6 = (k >> 0) & 1;
    eg_ciphertext_ballot_selection_t * o7{};
    bool threw = false; try { auto &&e = encryptSelection(A<PlaintextBallotSelection>{b0}, A<SelectionDescription>{b1}, A<ElementModP>{b2}, A<ElementModQ>{b3}, A<ElementModQ>{b4}, n5, n6); (void)e; status(false, real_eg_encrypt_selection((eg_plaintext_ballot_selection_t *)a0, (eg_selection_description_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3, (eg_element_mod_q_t *)a4, n5, n6, &o7)); same<CiphertextBallotSelection>(o7, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_encrypt_selection((eg_plaintext_ballot_selection_t *)a0, (eg_selection_description_t *)a1, (eg_element_mod_p_t *)a2, (eg_element_mod_q_t *)a3, (eg_element_mod_q_t *)a4, n5, n6, &o7));
}
extern "C" eg_electionguard_status_t real_eg_encryption_device_free(eg_encryption_device_t *) __asm__("eg_encryption_device_free");
FT(eg_encryption_device_free) {
    auto p = mk<EncryptionDevice>(k).release();
    status(false, real_eg_encryption_device_free((eg_encryption_device_t *)p));
    if (real_eg_encryption_device_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_encryption_device_from_json(char *, eg_encryption_device_t **) __asm__("eg_encryption_device_from_json");
FT(eg_encryption_device_from_json) {
    string good = ob<EncryptionDevice>(k).toJson();
    for (int c = 0; c < 3; c++) {
    string in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    string s0 = in;
    eg_encryption_device_t * o1{};
    bool threw = false; try { auto &&e = EncryptionDevice::fromJson(s0); (void)e; status(false, real_eg_encryption_device_from_json((char *)s0.c_str(), &o1)); same<EncryptionDevice>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_encryption_device_from_json((char *)s0.c_str(), &o1));
    }
}
extern "C" eg_electionguard_status_t real_eg_encryption_device_get_hash(eg_encryption_device_t *, eg_element_mod_q_t **) __asm__("eg_encryption_device_get_hash");
FT(eg_encryption_device_get_hash) {
    auto a0 = &ob<EncryptionDevice>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getHash(); (void)e; status(false, real_eg_encryption_device_get_hash((eg_encryption_device_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_encryption_device_get_hash((eg_encryption_device_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_encryption_device_new(uint64_t, uint64_t, uint64_t, const char *, eg_encryption_device_t **) __asm__("eg_encryption_device_new");
FT(eg_encryption_device_new) {
    uint64_t n0 = 3 + k;
    uint64_t n1 = 4 + k;
    uint64_t n2 = 5 + k;
    string s3 = sample(k, 63);
    eg_encryption_device_t * o4{};
    bool threw = false; try { auto &&e = unique_ptr<EncryptionDevice>(new EncryptionDevice(n0, n1, n2, s3)); (void)e; status(false, real_eg_encryption_device_new(n0, n1, n2, (const char *)s3.c_str(), &o4)); same<EncryptionDevice>(o4, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_encryption_device_new(n0, n1, n2, (const char *)s3.c_str(), &o4));
}
extern "C" eg_electionguard_status_t real_eg_encryption_mediator_free(eg_encryption_mediator_t *) __asm__("eg_encryption_mediator_free");
FT(eg_encryption_mediator_free) {
    auto p = mk<EncryptionMediator>(k).release();
    status(false, real_eg_encryption_mediator_free((eg_encryption_mediator_t *)p));
    if (real_eg_encryption_mediator_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_encryption_mediator_new(eg_internal_manifest_t *, eg_ciphertext_election_context_t *, eg_encryption_device_t *, eg_encryption_mediator_t **) __asm__("eg_encryption_mediator_new");
FT(eg_encryption_mediator_new) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    auto a1 = &ob<Context>(k % 4), b1 = a1;
    auto a2 = &ob<EncryptionDevice>(k % 4), b2 = a2;
    eg_encryption_mediator_t * o3{};
    bool threw = false; try { auto &&e = unique_ptr<EncryptionMediator>(new EncryptionMediator(A<InternalManifest>{b0}, A<Context>{b1}, A<EncryptionDevice>{b2})); (void)e; status(false, real_eg_encryption_mediator_new((eg_internal_manifest_t *)a0, (eg_ciphertext_election_context_t *)a1, (eg_encryption_device_t *)a2, &o3)); same<EncryptionMediator>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_encryption_mediator_new((eg_internal_manifest_t *)a0, (eg_ciphertext_election_context_t *)a1, (eg_encryption_device_t *)a2, &o3));
}
extern "C" eg_electionguard_status_t real_eg_extended_data_free(eg_extended_data_t *) __asm__("eg_extended_data_free");
FT(eg_extended_data_free) {
    auto p = mk<ExtendedData>(k).release();
    status(false, real_eg_extended_data_free((eg_extended_data_t *)p));
    if (real_eg_extended_data_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" uint64_t real_eg_extended_data_get_length(eg_extended_data_t *) __asm__("eg_extended_data_get_length");
FT(eg_extended_data_get_length) {
    auto a0 = arg<ExtendedData>(k, k).release(), b0 = arg<ExtendedData>(k, k).release();
    sameN((uint64_t)real_eg_extended_data_get_length((eg_extended_data_t *)a0), (uint64_t)b0->length);
}
extern "C" eg_electionguard_status_t real_eg_extended_data_get_value(eg_extended_data_t *, char **) __asm__("eg_extended_data_get_value");
FT(eg_extended_data_get_value) {
    auto a0 = arg<ExtendedData>(k, k).release(), b0 = arg<ExtendedData>(k, k).release();
    char * o1{};
    string e; TRY(e = b0->value); status(threw, real_eg_extended_data_get_value((eg_extended_data_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_extended_data_new(char *, uint64_t, eg_extended_data_t **) __asm__("eg_extended_data_new");
FT(eg_extended_data_new) {
    string s0 = sample(k, 60);
    uint64_t n1 = 4 + k;
    eg_extended_data_t * o2{};
    bool threw = false; try { auto &&e = unique_ptr<ExtendedData>(new ExtendedData(s0, n1)); (void)e; status(false, real_eg_extended_data_new((char *)s0.c_str(), n1, &o2)); same<ExtendedData>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_extended_data_new((char *)s0.c_str(), n1, &o2));
}
extern "C" eg_electionguard_status_t real_eg_free_int_ptr(char *) __asm__("eg_free_int_ptr");
FT(eg_free_int_ptr) {
    status(false, real_eg_free_int_ptr((char *)malloc(8)));
    if (real_eg_free_int_ptr(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_geopolitical_unit_crypto_hash(eg_geopolitical_unit_t *, eg_element_mod_q_t **) __asm__("eg_geopolitical_unit_crypto_hash");
FT(eg_geopolitical_unit_crypto_hash) {
    auto a0 = arg<GeopoliticalUnit>(k, k).release(), b0 = arg<GeopoliticalUnit>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_geopolitical_unit_crypto_hash((eg_geopolitical_unit_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_geopolitical_unit_crypto_hash((eg_geopolitical_unit_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_geopolitical_unit_free(eg_geopolitical_unit_t *) __asm__("eg_geopolitical_unit_free");
FT(eg_geopolitical_unit_free) {
    auto p = mk<GeopoliticalUnit>(k).release();
    status(false, real_eg_geopolitical_unit_free((eg_geopolitical_unit_t *)p));
    if (real_eg_geopolitical_unit_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_geopolitical_unit_get_name(eg_geopolitical_unit_t *, const char **) __asm__("eg_geopolitical_unit_get_name");
FT(eg_geopolitical_unit_get_name) {
    auto a0 = arg<GeopoliticalUnit>(k, k).release(), b0 = arg<GeopoliticalUnit>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getName()); status(threw, real_eg_geopolitical_unit_get_name((eg_geopolitical_unit_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_geopolitical_unit_get_object_id(eg_geopolitical_unit_t *, const char **) __asm__("eg_geopolitical_unit_get_object_id");
FT(eg_geopolitical_unit_get_object_id) {
    auto a0 = arg<GeopoliticalUnit>(k, k).release(), b0 = arg<GeopoliticalUnit>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_geopolitical_unit_get_object_id((eg_geopolitical_unit_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_geopolitical_unit_new(char *, char *, eg_reporting_unit_type_t, eg_geopolitical_unit_t **) __asm__("eg_geopolitical_unit_new");
FT(eg_geopolitical_unit_new) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    ReportingUnitType n2 = (ReportingUnitType)(1 + k % 3);
    eg_geopolitical_unit_t * o3{};
    bool threw = false; try { auto &&e = unique_ptr<GeopoliticalUnit>(new GeopoliticalUnit(s0, s1, n2)); (void)e; status(false, real_eg_geopolitical_unit_new((char *)s0.c_str(), (char *)s1.c_str(), (eg_reporting_unit_type_t)n2, &o3)); same<GeopoliticalUnit>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_geopolitical_unit_new((char *)s0.c_str(), (char *)s1.c_str(), (eg_reporting_unit_type_t)n2, &o3));
}
extern "C" eg_electionguard_status_t real_eg_geopolitical_unit_new_with_contact_info(char *, char *, eg_reporting_unit_type_t, eg_contact_information_t *, eg_geopolitical_unit_t **) __asm__("eg_geopolitical_unit_new_with_contact_info");
FT(eg_geopolitical_unit_new_with_contact_info) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    ReportingUnitType n2 = (ReportingUnitType)(1 + k % 3);
    auto a3 = arg<ContactInformation>(k, k + 3).release(), b3 = arg<ContactInformation>(k, k + 3).release();
    eg_geopolitical_unit_t * o4{};
    bool threw = false; try { auto &&e = unique_ptr<GeopoliticalUnit>(new GeopoliticalUnit(s0, s1, n2, A<ContactInformation>{b3})); (void)e; status(false, real_eg_geopolitical_unit_new_with_contact_info((char *)s0.c_str(), (char *)s1.c_str(), (eg_reporting_unit_type_t)n2, (eg_contact_information_t *)a3, &o4)); same<GeopoliticalUnit>(o4, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_geopolitical_unit_new_with_contact_info((char *)s0.c_str(), (char *)s1.c_str(), (eg_reporting_unit_type_t)n2, (eg_contact_information_t *)a3, &o4));
}
extern "C" eg_electionguard_status_t real_eg_hash_elems_int(const uint64_t, eg_element_mod_q_t **) __asm__("eg_hash_elems_int");
FT(eg_hash_elems_int) {
    uint64_t n0 = 3 + k;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = hash_elems(n0); (void)e; status(false, real_eg_hash_elems_int(n0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_hash_elems_int(n0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_hash_elems_string(const char *, eg_element_mod_q_t **) __asm__("eg_hash_elems_string");
FT(eg_hash_elems_string) {
    string s0 = sample(k, 60);
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = hash_elems(s0); (void)e; status(false, real_eg_hash_elems_string((const char *)s0.c_str(), &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_hash_elems_string((const char *)s0.c_str(), &o1));
}
extern "C" eg_electionguard_status_t real_eg_hash_elems_strings(const char **, uint64_t, eg_element_mod_q_t **) __asm__("eg_hash_elems_strings");
FT(eg_hash_elems_strings) {
    vector<string> w0; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w0.push_back(sample(k, 50 + i));
    vector<const char *> v0; for (auto &s : w0) v0.push_back(s.c_str());
    eg_element_mod_q_t * o2{};
    bool threw = false; try { auto &&e = hash_elems(w0); (void)e; status(false, real_eg_hash_elems_strings((const char **)v0.data(), v0.size(), &o2)); same<ElementModQ>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_hash_elems_strings((const char **)v0.data(), v0.size(), &o2));
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_free(eg_internal_manifest_t *) __asm__("eg_internal_manifest_free");
FT(eg_internal_manifest_free) {
    auto p = mk<InternalManifest>(k).release();
    status(false, real_eg_internal_manifest_free((eg_internal_manifest_t *)p));
    if (real_eg_internal_manifest_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_from_bson(uint8_t *, uint64_t, eg_internal_manifest_t **) __asm__("eg_internal_manifest_from_bson");
FT(eg_internal_manifest_from_bson) {
    vector<uint8_t> good = ob<InternalManifest>(k).toBson();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_internal_manifest_t * o2{};
    bool threw = false; try { auto &&e = InternalManifest::fromBson(v0); (void)e; status(false, real_eg_internal_manifest_from_bson((uint8_t *)v0.data(), v0.size(), &o2)); same<InternalManifest>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_from_bson((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_from_json(char *, eg_internal_manifest_t **) __asm__("eg_internal_manifest_from_json");
FT(eg_internal_manifest_from_json) {
    string good = ob<InternalManifest>(k).toJson();
    for (int c = 0; c < 3; c++) {
    string in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    string s0 = in;
    eg_internal_manifest_t * o1{};
    bool threw = false; try { auto &&e = InternalManifest::fromJson(s0); (void)e; status(false, real_eg_internal_manifest_from_json((char *)s0.c_str(), &o1)); same<InternalManifest>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_from_json((char *)s0.c_str(), &o1));
    }
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_from_msgpack(uint8_t *, uint64_t, eg_internal_manifest_t **) __asm__("eg_internal_manifest_from_msgpack");
FT(eg_internal_manifest_from_msgpack) {
    vector<uint8_t> good = ob<InternalManifest>(k).toMsgPack();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_internal_manifest_t * o2{};
    bool threw = false; try { auto &&e = InternalManifest::fromMsgPack(v0); (void)e; status(false, real_eg_internal_manifest_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2)); same<InternalManifest>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_get_ballot_style(eg_internal_manifest_t *, char *, eg_ballot_style_t **) __asm__("eg_internal_manifest_get_ballot_style");
FT(eg_internal_manifest_get_ballot_style) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    string s1 = k == 1 ? "none" : "style";
    eg_ballot_style_t * o2{};
    bool threw = false; try { auto &&e = b0->getBallotStyle(s1); (void)e; status(false, real_eg_internal_manifest_get_ballot_style((eg_internal_manifest_t *)a0, (char *)s1.c_str(), &o2)); same<BallotStyle>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_get_ballot_style((eg_internal_manifest_t *)a0, (char *)s1.c_str(), &o2));
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_get_ballot_style_at_index(eg_internal_manifest_t *, uint64_t, eg_ballot_style_t **) __asm__("eg_internal_manifest_get_ballot_style_at_index");
FT(eg_internal_manifest_get_ballot_style_at_index) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getBallotStyles().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_ballot_style_t * o2{};
    bool threw = false; try { auto e = b0->getBallotStyles().at(n1); (void)e; status(false, real_eg_internal_manifest_get_ballot_style_at_index((eg_internal_manifest_t *)a0, n1, &o2)); same<BallotStyle>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_get_ballot_style_at_index((eg_internal_manifest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_internal_manifest_get_ballot_styles_size(eg_internal_manifest_t *) __asm__("eg_internal_manifest_get_ballot_styles_size");
FT(eg_internal_manifest_get_ballot_styles_size) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_internal_manifest_get_ballot_styles_size((eg_internal_manifest_t *)a0), (uint64_t)b0->getBallotStyles().size());
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_get_contest_at_index(eg_internal_manifest_t *, uint64_t, eg_contest_description_with_placeholders_t **) __asm__("eg_internal_manifest_get_contest_at_index");
FT(eg_internal_manifest_get_contest_at_index) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getContests().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_contest_description_with_placeholders_t * o2{};
    bool threw = false; try { auto e = b0->getContests().at(n1); (void)e; status(false, real_eg_internal_manifest_get_contest_at_index((eg_internal_manifest_t *)a0, n1, &o2)); same<CDP>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_get_contest_at_index((eg_internal_manifest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_internal_manifest_get_contests_size(eg_internal_manifest_t *) __asm__("eg_internal_manifest_get_contests_size");
FT(eg_internal_manifest_get_contests_size) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_internal_manifest_get_contests_size((eg_internal_manifest_t *)a0), (uint64_t)b0->getContests().size());
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_get_geopolitical_unit_at_index(eg_internal_manifest_t *, uint64_t, eg_geopolitical_unit_t **) __asm__("eg_internal_manifest_get_geopolitical_unit_at_index");
FT(eg_internal_manifest_get_geopolitical_unit_at_index) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    for (uint64_t z = b0->getGeopoliticalUnits().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_geopolitical_unit_t * o2{};
    bool threw = false; try { auto e = b0->getGeopoliticalUnits().at(n1); (void)e; status(false, real_eg_internal_manifest_get_geopolitical_unit_at_index((eg_internal_manifest_t *)a0, n1, &o2)); same<GeopoliticalUnit>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_get_geopolitical_unit_at_index((eg_internal_manifest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_internal_manifest_get_geopolitical_units_size(eg_internal_manifest_t *) __asm__("eg_internal_manifest_get_geopolitical_units_size");
FT(eg_internal_manifest_get_geopolitical_units_size) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_internal_manifest_get_geopolitical_units_size((eg_internal_manifest_t *)a0), (uint64_t)b0->getGeopoliticalUnits().size());
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_get_manifest_hash(eg_internal_manifest_t *, eg_element_mod_q_t **) __asm__("eg_internal_manifest_get_manifest_hash");
FT(eg_internal_manifest_get_manifest_hash) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->getManifestHash(); (void)e; status(false, real_eg_internal_manifest_get_manifest_hash((eg_internal_manifest_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_get_manifest_hash((eg_internal_manifest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_new(eg_election_manifest_t *, eg_internal_manifest_t **) __asm__("eg_internal_manifest_new");
FT(eg_internal_manifest_new) {
    auto a0 = &ob<Manifest>(k % 4), b0 = a0;
    eg_internal_manifest_t * o1{};
    bool threw = false; try { auto &&e = unique_ptr<InternalManifest>(new InternalManifest(A<Manifest>{b0})); (void)e; status(false, real_eg_internal_manifest_new((eg_election_manifest_t *)a0, &o1)); same<InternalManifest>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internal_manifest_new((eg_election_manifest_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_to_bson(eg_internal_manifest_t *, uint8_t **, uint64_t *) __asm__("eg_internal_manifest_to_bson");
FT(eg_internal_manifest_to_bson) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_internal_manifest_to_bson((eg_internal_manifest_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toBson());
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_to_json(eg_internal_manifest_t *, char **, uint64_t *) __asm__("eg_internal_manifest_to_json");
FT(eg_internal_manifest_to_json) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    char * o1{};
    uint64_t o2{};
    status(false, real_eg_internal_manifest_to_json((eg_internal_manifest_t *)a0, &o1, &o2));
    sameJ(o1, o2, b0->toJson());
}
extern "C" eg_electionguard_status_t real_eg_internal_manifest_to_msgpack(eg_internal_manifest_t *, uint8_t **, uint64_t *) __asm__("eg_internal_manifest_to_msgpack");
FT(eg_internal_manifest_to_msgpack) {
    auto a0 = &ob<InternalManifest>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_internal_manifest_to_msgpack((eg_internal_manifest_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toMsgPack());
}
extern "C" eg_electionguard_status_t real_eg_internationalized_text_free(eg_internationalized_text_t *) __asm__("eg_internationalized_text_free");
FT(eg_internationalized_text_free) {
    auto p = mk<InternationalizedText>(k).release();
    status(false, real_eg_internationalized_text_free((eg_internationalized_text_t *)p));
    if (real_eg_internationalized_text_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_internationalized_text_get_text_at_index(eg_internationalized_text_t *, uint64_t, eg_language_t **) __asm__("eg_internationalized_text_get_text_at_index");
FT(eg_internationalized_text_get_text_at_index) {
    auto a0 = arg<InternationalizedText>(k, k).release(), b0 = arg<InternationalizedText>(k, k).release();
    for (uint64_t z = b0->getText().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_language_t * o2{};
    bool threw = false; try { auto e = b0->getText().at(n1); (void)e; status(false, real_eg_internationalized_text_get_text_at_index((eg_internationalized_text_t *)a0, n1, &o2)); same<Language>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internationalized_text_get_text_at_index((eg_internationalized_text_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_internationalized_text_get_text_size(eg_internationalized_text_t *) __asm__("eg_internationalized_text_get_text_size");
FT(eg_internationalized_text_get_text_size) {
    auto a0 = arg<InternationalizedText>(k, k).release(), b0 = arg<InternationalizedText>(k, k).release();
    sameN((uint64_t)real_eg_internationalized_text_get_text_size((eg_internationalized_text_t *)a0), (uint64_t)b0->getText().size());
}
extern "C" eg_electionguard_status_t real_eg_internationalized_text_new(eg_language_t **, const uint64_t, eg_internationalized_text_t **) __asm__("eg_internationalized_text_new");
FT(eg_internationalized_text_new) {
    vector<Language *> v0, d0; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v0.push_back(mk<Language>(k + i).release()); d0.push_back(mk<Language>(k + i).release()); }
    eg_internationalized_text_t * o2{};
    bool threw = false; try { auto &&e = unique_ptr<InternationalizedText>(new InternationalizedText(V<Language>{d0})); (void)e; status(false, real_eg_internationalized_text_new((eg_language_t **)v0.data(), v0.size(), &o2)); same<InternationalizedText>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_internationalized_text_new((eg_language_t **)v0.data(), v0.size(), &o2));
}
extern "C" eg_electionguard_status_t real_eg_language_crypto_hash(eg_language_t *, eg_element_mod_q_t **) __asm__("eg_language_crypto_hash");
FT(eg_language_crypto_hash) {
    auto a0 = arg<Language>(k, k).release(), b0 = arg<Language>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_language_crypto_hash((eg_language_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_language_crypto_hash((eg_language_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_language_free(eg_language_t *) __asm__("eg_language_free");
FT(eg_language_free) {
    auto p = mk<Language>(k).release();
    status(false, real_eg_language_free((eg_language_t *)p));
    if (real_eg_language_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_language_get_language(eg_language_t *, char **) __asm__("eg_language_get_language");
FT(eg_language_get_language) {
    auto a0 = arg<Language>(k, k).release(), b0 = arg<Language>(k, k).release();
    char * o1{};
    string e; TRY(e = b0->getLanguage()); status(threw, real_eg_language_get_language((eg_language_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_language_get_value(eg_language_t *, char **) __asm__("eg_language_get_value");
FT(eg_language_get_value) {
    auto a0 = arg<Language>(k, k).release(), b0 = arg<Language>(k, k).release();
    char * o1{};
    string e; TRY(e = b0->getValue()); status(threw, real_eg_language_get_value((eg_language_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_language_new(const char *, const char *, eg_language_t **) __asm__("eg_language_new");
FT(eg_language_new) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    eg_language_t * o2{};
    bool threw = false; try { auto &&e = unique_ptr<Language>(new Language(s0, s1)); (void)e; status(false, real_eg_language_new((const char *)s0.c_str(), (const char *)s1.c_str(), &o2)); same<Language>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_language_new((const char *)s0.c_str(), (const char *)s1.c_str(), &o2));
}
extern "C" eg_electionguard_status_t real_eg_party_crypto_hash(eg_party_t *, eg_element_mod_q_t **) __asm__("eg_party_crypto_hash");
FT(eg_party_crypto_hash) {
    auto a0 = arg<Party>(k, k).release(), b0 = arg<Party>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_party_crypto_hash((eg_party_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_party_crypto_hash((eg_party_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_party_free(eg_party_t *) __asm__("eg_party_free");
FT(eg_party_free) {
    auto p = mk<Party>(k).release();
    status(false, real_eg_party_free((eg_party_t *)p));
    if (real_eg_party_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_party_get_abbreviation(eg_party_t *, const char **) __asm__("eg_party_get_abbreviation");
FT(eg_party_get_abbreviation) {
    auto a0 = arg<Party>(k, k).release(), b0 = arg<Party>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getAbbreviation()); status(threw, real_eg_party_get_abbreviation((eg_party_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_party_get_color(eg_party_t *, const char **) __asm__("eg_party_get_color");
FT(eg_party_get_color) {
    auto a0 = arg<Party>(k, k).release(), b0 = arg<Party>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getColor()); status(threw, real_eg_party_get_color((eg_party_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_party_get_logo_uri(eg_party_t *, const char **) __asm__("eg_party_get_logo_uri");
FT(eg_party_get_logo_uri) {
    auto a0 = arg<Party>(k, k).release(), b0 = arg<Party>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getLogoUri()); status(threw, real_eg_party_get_logo_uri((eg_party_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_party_get_name(eg_party_t *, eg_internationalized_text_t **) __asm__("eg_party_get_name");
FT(eg_party_get_name) {
    auto a0 = arg<Party>(k, k).release(), b0 = arg<Party>(k, k).release();
    eg_internationalized_text_t * o1{};
    bool threw = false; try { auto &&e = b0->getName(); (void)e; status(false, real_eg_party_get_name((eg_party_t *)a0, &o1)); same<InternationalizedText>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_party_get_name((eg_party_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_party_get_object_id(eg_party_t *, const char **) __asm__("eg_party_get_object_id");
FT(eg_party_get_object_id) {
    auto a0 = arg<Party>(k, k).release(), b0 = arg<Party>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_party_get_object_id((eg_party_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_party_new(char *, eg_party_t **) __asm__("eg_party_new");
FT(eg_party_new) {
    string s0 = sample(k, 60);
    eg_party_t * o1{};
    bool threw = false; try { auto &&e = unique_ptr<Party>(new Party(s0)); (void)e; status(false, real_eg_party_new((char *)s0.c_str(), &o1)); same<Party>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_party_new((char *)s0.c_str(), &o1));
}
extern "C" eg_electionguard_status_t real_eg_party_new_with_extras(char *, eg_internationalized_text_t *, char *, char *, char *, eg_party_t **) __asm__("eg_party_new_with_extras");
FT(eg_party_new_with_extras) {
    string s0 = sample(k, 60);
    auto a1 = arg<InternationalizedText>(k, k + 1).release(), b1 = arg<InternationalizedText>(k, k + 1).release();
    string s2 = sample(k, 62);
    string s3 = sample(k, 63);
    string s4 = sample(k, 64);
    eg_party_t * o5{};
    bool threw = false; try { auto &&e = unique_ptr<Party>(new Party(s0, A<InternationalizedText>{b1}, s2, s3, s4)); (void)e; status(false, real_eg_party_new_with_extras((char *)s0.c_str(), (eg_internationalized_text_t *)a1, (char *)s2.c_str(), (char *)s3.c_str(), (char *)s4.c_str(), &o5)); same<Party>(o5, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_party_new_with_extras((char *)s0.c_str(), (eg_internationalized_text_t *)a1, (char *)s2.c_str(), (char *)s3.c_str(), (char *)s4.c_str(), &o5));
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_contest_free(eg_plaintext_ballot_contest_t *) __asm__("eg_plaintext_ballot_contest_free");
FT(eg_plaintext_ballot_contest_free) {
    auto p = mk<PlaintextBallotContest>(k).release();
    status(false, real_eg_plaintext_ballot_contest_free((eg_plaintext_ballot_contest_t *)p));
    if (real_eg_plaintext_ballot_contest_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_contest_get_object_id(eg_plaintext_ballot_contest_t *, char **) __asm__("eg_plaintext_ballot_contest_get_object_id");
FT(eg_plaintext_ballot_contest_get_object_id) {
    auto a0 = arg<PlaintextBallotContest>(k, k).release(), b0 = arg<PlaintextBallotContest>(k, k).release();
    char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_plaintext_ballot_contest_get_object_id((eg_plaintext_ballot_contest_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_contest_get_selection_at_index(eg_plaintext_ballot_contest_t *, uint64_t, eg_plaintext_ballot_selection_t **) __asm__("eg_plaintext_ballot_contest_get_selection_at_index");
FT(eg_plaintext_ballot_contest_get_selection_at_index) {
    auto a0 = arg<PlaintextBallotContest>(k, k).release(), b0 = arg<PlaintextBallotContest>(k, k).release();
    for (uint64_t z = b0->getSelections().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_plaintext_ballot_selection_t * o2{};
    bool threw = false; try { auto e = b0->getSelections().at(n1); (void)e; status(false, real_eg_plaintext_ballot_contest_get_selection_at_index((eg_plaintext_ballot_contest_t *)a0, n1, &o2)); same<PlaintextBallotSelection>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_contest_get_selection_at_index((eg_plaintext_ballot_contest_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_plaintext_ballot_contest_get_selections_size(eg_plaintext_ballot_contest_t *) __asm__("eg_plaintext_ballot_contest_get_selections_size");
FT(eg_plaintext_ballot_contest_get_selections_size) {
    auto a0 = arg<PlaintextBallotContest>(k, k).release(), b0 = arg<PlaintextBallotContest>(k, k).release();
    sameN((uint64_t)real_eg_plaintext_ballot_contest_get_selections_size((eg_plaintext_ballot_contest_t *)a0), (uint64_t)b0->getSelections().size());
}
extern "C" bool real_eg_plaintext_ballot_contest_is_valid(eg_plaintext_ballot_contest_t *, char *, uint64_t, uint64_t, uint64_t) __asm__("eg_plaintext_ballot_contest_is_valid");
FT(eg_plaintext_ballot_contest_is_valid) {
    auto a0 = arg<PlaintextBallotContest>(k, k).release(), b0 = arg<PlaintextBallotContest>(k, k).release();
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    uint64_t n3 = 6 + k;
    uint64_t n4 = 7 + k;
    sameN((uint64_t)real_eg_plaintext_ballot_contest_is_valid((eg_plaintext_ballot_contest_t *)a0, (char *)s1.c_str(), n2, n3, n4), (uint64_t)!b0->isValid(s1, n2, n3, n4));
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_contest_new(char *, eg_plaintext_ballot_selection_t **, const uint64_t, eg_plaintext_ballot_contest_t **) __asm__("eg_plaintext_ballot_contest_new");
FT(eg_plaintext_ballot_contest_new) {
    string s0 = sample(k, 60);
    vector<PlaintextBallotSelection *> v1, d1; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v1.push_back(mk<PlaintextBallotSelection>(k + i).release()); d1.push_back(mk<PlaintextBallotSelection>(k + i).release()); }
    eg_plaintext_ballot_contest_t * o3{};
    bool threw = false; try { auto &&e = unique_ptr<PlaintextBallotContest>(new PlaintextBallotContest(s0, V<PlaintextBallotSelection>{d1})); (void)e; status(false, real_eg_plaintext_ballot_contest_new((char *)s0.c_str(), (eg_plaintext_ballot_selection_t **)v1.data(), v1.size(), &o3)); same<PlaintextBallotContest>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_contest_new((char *)s0.c_str(), (eg_plaintext_ballot_selection_t **)v1.data(), v1.size(), &o3));
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_free(eg_plaintext_ballot_t *) __asm__("eg_plaintext_ballot_free");
FT(eg_plaintext_ballot_free) {
    auto p = mk<PlaintextBallot>(k).release();
    status(false, real_eg_plaintext_ballot_free((eg_plaintext_ballot_t *)p));
    if (real_eg_plaintext_ballot_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_from_bson(uint8_t *, uint64_t, eg_plaintext_ballot_t **) __asm__("eg_plaintext_ballot_from_bson");
FT(eg_plaintext_ballot_from_bson) {
    vector<uint8_t> good = ob<PlaintextBallot>(k).toBson();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_plaintext_ballot_t * o2{};
    bool threw = false; try { auto &&e = PlaintextBallot::fromBson(v0); (void)e; status(false, real_eg_plaintext_ballot_from_bson((uint8_t *)v0.data(), v0.size(), &o2)); same<PlaintextBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_from_bson((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_from_json(char *, eg_plaintext_ballot_t **) __asm__("eg_plaintext_ballot_from_json");
FT(eg_plaintext_ballot_from_json) {
    string good = ob<PlaintextBallot>(k).toJson();
    for (int c = 0; c < 3; c++) {
    string in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    string s0 = in;
    eg_plaintext_ballot_t * o1{};
    bool threw = false; try { auto &&e = PlaintextBallot::fromJson(s0); (void)e; status(false, real_eg_plaintext_ballot_from_json((char *)s0.c_str(), &o1)); same<PlaintextBallot>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_from_json((char *)s0.c_str(), &o1));
    }
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_from_msgpack(uint8_t *, uint64_t, eg_plaintext_ballot_t **) __asm__("eg_plaintext_ballot_from_msgpack");
FT(eg_plaintext_ballot_from_msgpack) {
    vector<uint8_t> good = ob<PlaintextBallot>(k).toMsgPack();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_plaintext_ballot_t * o2{};
    bool threw = false; try { auto &&e = PlaintextBallot::fromMsgPack(v0); (void)e; status(false, real_eg_plaintext_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2)); same<PlaintextBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_get_contest_at_index(eg_plaintext_ballot_t *, uint64_t, eg_plaintext_ballot_contest_t **) __asm__("eg_plaintext_ballot_get_contest_at_index");
FT(eg_plaintext_ballot_get_contest_at_index) {
    auto a0 = &ob<PlaintextBallot>(k % 4), b0 = a0;
    for (uint64_t z = b0->getContests().size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;
    uint64_t n1 = idx;
    eg_plaintext_ballot_contest_t * o2{};
    bool threw = false; try { auto e = b0->getContests().at(n1); (void)e; status(false, real_eg_plaintext_ballot_get_contest_at_index((eg_plaintext_ballot_t *)a0, n1, &o2)); same<PlaintextBallotContest>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_get_contest_at_index((eg_plaintext_ballot_t *)a0, n1, &o2));
    }
}
extern "C" uint64_t real_eg_plaintext_ballot_get_contests_size(eg_plaintext_ballot_t *) __asm__("eg_plaintext_ballot_get_contests_size");
FT(eg_plaintext_ballot_get_contests_size) {
    auto a0 = &ob<PlaintextBallot>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_plaintext_ballot_get_contests_size((eg_plaintext_ballot_t *)a0), (uint64_t)b0->getContests().size());
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_get_object_id(eg_plaintext_ballot_t *, char **) __asm__("eg_plaintext_ballot_get_object_id");
FT(eg_plaintext_ballot_get_object_id) {
    auto a0 = &ob<PlaintextBallot>(k % 4), b0 = a0;
    char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_plaintext_ballot_get_object_id((eg_plaintext_ballot_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_get_style_id(eg_plaintext_ballot_t *, char **) __asm__("eg_plaintext_ballot_get_style_id");
FT(eg_plaintext_ballot_get_style_id) {
    auto a0 = &ob<PlaintextBallot>(k % 4), b0 = a0;
    char * o1{};
    string e; TRY(e = b0->getStyleId()); status(threw, real_eg_plaintext_ballot_get_style_id((eg_plaintext_ballot_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_new(char *, char *, eg_plaintext_ballot_contest_t **, const uint64_t, eg_plaintext_ballot_t **) __asm__("eg_plaintext_ballot_new");
FT(eg_plaintext_ballot_new) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    vector<PlaintextBallotContest *> v2, d2; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v2.push_back(mk<PlaintextBallotContest>(k + i).release()); d2.push_back(mk<PlaintextBallotContest>(k + i).release()); }
    eg_plaintext_ballot_t * o4{};
    bool threw = false; try { auto &&e = unique_ptr<PlaintextBallot>(new PlaintextBallot(s0, s1, V<PlaintextBallotContest>{d2})); (void)e; status(false, real_eg_plaintext_ballot_new((char *)s0.c_str(), (char *)s1.c_str(), (eg_plaintext_ballot_contest_t **)v2.data(), v2.size(), &o4)); same<PlaintextBallot>(o4, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_new((char *)s0.c_str(), (char *)s1.c_str(), (eg_plaintext_ballot_contest_t **)v2.data(), v2.size(), &o4));
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_selection_free(eg_plaintext_ballot_selection_t *) __asm__("eg_plaintext_ballot_selection_free");
FT(eg_plaintext_ballot_selection_free) {
    auto p = mk<PlaintextBallotSelection>(k).release();
    status(false, real_eg_plaintext_ballot_selection_free((eg_plaintext_ballot_selection_t *)p));
    if (real_eg_plaintext_ballot_selection_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" bool real_eg_plaintext_ballot_selection_get_is_placeholder(eg_plaintext_ballot_selection_t *) __asm__("eg_plaintext_ballot_selection_get_is_placeholder");
FT(eg_plaintext_ballot_selection_get_is_placeholder) {
    auto a0 = arg<PlaintextBallotSelection>(k, k).release(), b0 = arg<PlaintextBallotSelection>(k, k).release();
    sameN((uint64_t)real_eg_plaintext_ballot_selection_get_is_placeholder((eg_plaintext_ballot_selection_t *)a0), (uint64_t)b0->getIsPlaceholder());
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_selection_get_object_id(eg_plaintext_ballot_selection_t *, char **) __asm__("eg_plaintext_ballot_selection_get_object_id");
FT(eg_plaintext_ballot_selection_get_object_id) {
    auto a0 = arg<PlaintextBallotSelection>(k, k).release(), b0 = arg<PlaintextBallotSelection>(k, k).release();
    char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_plaintext_ballot_selection_get_object_id((eg_plaintext_ballot_selection_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" uint64_t real_eg_plaintext_ballot_selection_get_vote(eg_plaintext_ballot_selection_t *) __asm__("eg_plaintext_ballot_selection_get_vote");
FT(eg_plaintext_ballot_selection_get_vote) {
    auto a0 = arg<PlaintextBallotSelection>(k, k).release(), b0 = arg<PlaintextBallotSelection>(k, k).release();
    sameN((uint64_t)real_eg_plaintext_ballot_selection_get_vote((eg_plaintext_ballot_selection_t *)a0), (uint64_t)b0->getVote());
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_selection_get_write_in(eg_plaintext_ballot_selection_t *, char **) __asm__("eg_plaintext_ballot_selection_get_write_in");
FT(eg_plaintext_ballot_selection_get_write_in) {
    auto a0 = arg<PlaintextBallotSelection>(k, k).release(), b0 = arg<PlaintextBallotSelection>(k, k).release();
    char * o1{};
    string e; TRY(e = b0->getWriteIn()); status(threw, real_eg_plaintext_ballot_selection_get_write_in((eg_plaintext_ballot_selection_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" bool real_eg_plaintext_ballot_selection_is_valid(eg_plaintext_ballot_selection_t *, char *) __asm__("eg_plaintext_ballot_selection_is_valid");
FT(eg_plaintext_ballot_selection_is_valid) {
    auto a0 = arg<PlaintextBallotSelection>(k, k).release(), b0 = arg<PlaintextBallotSelection>(k, k).release();
    string s1 = sample(k, 61);
    sameN((uint64_t)real_eg_plaintext_ballot_selection_is_valid((eg_plaintext_ballot_selection_t *)a0, (char *)s1.c_str()), (uint64_t)b0->isValid(s1));
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_selection_new(const char *, uint64_t, bool, eg_plaintext_ballot_selection_t **) __asm__("eg_plaintext_ballot_selection_new");
FT(eg_plaintext_ballot_selection_new) {
    string s0 = sample(k, 60);
    uint64_t n1 = k & 1;
    bool n2 = (k >> 0) & 1;
    eg_plaintext_ballot_selection_t * o3{};
    bool threw = false; try { auto &&e = unique_ptr<PlaintextBallotSelection>(new PlaintextBallotSelection(s0, n1, n2)); (void)e; status(false, real_eg_plaintext_ballot_selection_new((const char *)s0.c_str(), n1, n2, &o3)); same<PlaintextBallotSelection>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_selection_new((const char *)s0.c_str(), n1, n2, &o3));
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_selection_new_with_write_in(const char *, const uint64_t, bool, const char *, eg_plaintext_ballot_selection_t **) __asm__("eg_plaintext_ballot_selection_new_with_write_in");
FT(eg_plaintext_ballot_selection_new_with_write_in) {
    string s0 = sample(k, 60);
    uint64_t n1 = k & 1;
    bool n2 = (k >> 0) & 1;
    string s3 = sample(k, 63);
    eg_plaintext_ballot_selection_t * o4{};
    bool threw = false; try { auto &&e = unique_ptr<PlaintextBallotSelection>(new PlaintextBallotSelection(s0, n1, n2, s3)); (void)e; status(false, real_eg_plaintext_ballot_selection_new_with_write_in((const char *)s0.c_str(), n1, n2, (const char *)s3.c_str(), &o4)); same<PlaintextBallotSelection>(o4, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_plaintext_ballot_selection_new_with_write_in((const char *)s0.c_str(), n1, n2, (const char *)s3.c_str(), &o4));
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_to_bson(eg_plaintext_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_plaintext_ballot_to_bson");
FT(eg_plaintext_ballot_to_bson) {
    auto a0 = &ob<PlaintextBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_plaintext_ballot_to_bson((eg_plaintext_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toBson());
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_to_json(eg_plaintext_ballot_t *, char **, uint64_t *) __asm__("eg_plaintext_ballot_to_json");
FT(eg_plaintext_ballot_to_json) {
    auto a0 = &ob<PlaintextBallot>(k % 4), b0 = a0;
    char * o1{};
    uint64_t o2{};
    status(false, real_eg_plaintext_ballot_to_json((eg_plaintext_ballot_t *)a0, &o1, &o2));
    sameJ(o1, o2, b0->toJson());
}
extern "C" eg_electionguard_status_t real_eg_plaintext_ballot_to_msgpack(eg_plaintext_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_plaintext_ballot_to_msgpack");
FT(eg_plaintext_ballot_to_msgpack) {
    auto a0 = &ob<PlaintextBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_plaintext_ballot_to_msgpack((eg_plaintext_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toMsgPack());
}
extern "C" eg_electionguard_status_t real_eg_selection_description_crypto_hash(eg_selection_description_t *, eg_element_mod_q_t **) __asm__("eg_selection_description_crypto_hash");
FT(eg_selection_description_crypto_hash) {
    auto a0 = arg<SelectionDescription>(k, k).release(), b0 = arg<SelectionDescription>(k, k).release();
    eg_element_mod_q_t * o1{};
    bool threw = false; try { auto &&e = b0->crypto_hash(); (void)e; status(false, real_eg_selection_description_crypto_hash((eg_selection_description_t *)a0, &o1)); same<ElementModQ>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_selection_description_crypto_hash((eg_selection_description_t *)a0, &o1));
}
extern "C" eg_electionguard_status_t real_eg_selection_description_free(eg_selection_description_t *) __asm__("eg_selection_description_free");
FT(eg_selection_description_free) {
    auto p = mk<SelectionDescription>(k).release();
    status(false, real_eg_selection_description_free((eg_selection_description_t *)p));
    if (real_eg_selection_description_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_selection_description_get_candidate_id(eg_selection_description_t *, const char **) __asm__("eg_selection_description_get_candidate_id");
FT(eg_selection_description_get_candidate_id) {
    auto a0 = arg<SelectionDescription>(k, k).release(), b0 = arg<SelectionDescription>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getCandidateId()); status(threw, real_eg_selection_description_get_candidate_id((eg_selection_description_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" eg_electionguard_status_t real_eg_selection_description_get_object_id(eg_selection_description_t *, const char **) __asm__("eg_selection_description_get_object_id");
FT(eg_selection_description_get_object_id) {
    auto a0 = arg<SelectionDescription>(k, k).release(), b0 = arg<SelectionDescription>(k, k).release();
    const char * o1{};
    string e; TRY(e = b0->getObjectId()); status(threw, real_eg_selection_description_get_object_id((eg_selection_description_t *)a0, &o1)); if (!threw) sameS(o1, e);
}
extern "C" uint64_t real_eg_selection_description_get_sequence_order(eg_selection_description_t *) __asm__("eg_selection_description_get_sequence_order");
FT(eg_selection_description_get_sequence_order) {
    auto a0 = arg<SelectionDescription>(k, k).release(), b0 = arg<SelectionDescription>(k, k).release();
    sameN((uint64_t)real_eg_selection_description_get_sequence_order((eg_selection_description_t *)a0), (uint64_t)b0->getSequenceOrder());
}
extern "C" eg_electionguard_status_t real_eg_selection_description_new(const char *, const char *, uint64_t, eg_selection_description_t **) __asm__("eg_selection_description_new");
FT(eg_selection_description_new) {
    string s0 = sample(k, 60);
    string s1 = sample(k, 61);
    uint64_t n2 = 5 + k;
    eg_selection_description_t * o3{};
    bool threw = false; try { auto &&e = unique_ptr<SelectionDescription>(new SelectionDescription(s0, s1, n2)); (void)e; status(false, real_eg_selection_description_new((const char *)s0.c_str(), (const char *)s1.c_str(), n2, &o3)); same<SelectionDescription>(o3, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_selection_description_new((const char *)s0.c_str(), (const char *)s1.c_str(), n2, &o3));
}
extern "C" eg_electionguard_status_t real_eg_submitted_ballot_free(eg_submitted_ballot_t *) __asm__("eg_submitted_ballot_free");
FT(eg_submitted_ballot_free) {
    auto p = mk<SubmittedBallot>(k).release();
    status(false, real_eg_submitted_ballot_free((eg_submitted_ballot_t *)p));
    if (real_eg_submitted_ballot_free(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");
}
extern "C" eg_electionguard_status_t real_eg_submitted_ballot_from(eg_ciphertext_ballot_t *, eg_ballot_box_state_t, eg_submitted_ballot_t **) __asm__("eg_submitted_ballot_from");
FT(eg_submitted_ballot_from) {
    auto a0 = &ob<CiphertextBallot>(k % 4), b0 = a0;
    BallotBoxState n1 = (BallotBoxState)(1 + k % 3);
    eg_submitted_ballot_t * o2{};
    bool threw = false; try { auto &&e = SubmittedBallot::from(A<CiphertextBallot>{b0}, n1); (void)e; status(false, real_eg_submitted_ballot_from((eg_ciphertext_ballot_t *)a0, (eg_ballot_box_state_t)n1, &o2)); same<SubmittedBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_submitted_ballot_from((eg_ciphertext_ballot_t *)a0, (eg_ballot_box_state_t)n1, &o2));
}
extern "C" eg_electionguard_status_t real_eg_submitted_ballot_from_bson(uint8_t *, uint64_t, eg_submitted_ballot_t **) __asm__("eg_submitted_ballot_from_bson");
FT(eg_submitted_ballot_from_bson) {
    vector<uint8_t> good = ob<SubmittedBallot>(k).toBson();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_submitted_ballot_t * o2{};
    bool threw = false; try { auto &&e = SubmittedBallot::fromBson(v0); (void)e; status(false, real_eg_submitted_ballot_from_bson((uint8_t *)v0.data(), v0.size(), &o2)); same<SubmittedBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_submitted_ballot_from_bson((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_electionguard_status_t real_eg_submitted_ballot_from_json(char *, eg_submitted_ballot_t **) __asm__("eg_submitted_ballot_from_json");
FT(eg_submitted_ballot_from_json) {
    string good = ob<SubmittedBallot>(k).toJson();
    for (int c = 0; c < 3; c++) {
    string in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    string s0 = in;
    eg_submitted_ballot_t * o1{};
    bool threw = false; try { auto &&e = SubmittedBallot::fromJson(s0); (void)e; status(false, real_eg_submitted_ballot_from_json((char *)s0.c_str(), &o1)); same<SubmittedBallot>(o1, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_submitted_ballot_from_json((char *)s0.c_str(), &o1));
    }
}
extern "C" eg_electionguard_status_t real_eg_submitted_ballot_from_msgpack(uint8_t *, uint64_t, eg_submitted_ballot_t **) __asm__("eg_submitted_ballot_from_msgpack");
FT(eg_submitted_ballot_from_msgpack) {
    vector<uint8_t> good = ob<SubmittedBallot>(k).toMsgPack();
    for (int c = 0; c < 3; c++) {
    vector<uint8_t> in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();
    vector<uint8_t> v0 = in;
    eg_submitted_ballot_t * o2{};
    bool threw = false; try { auto &&e = SubmittedBallot::fromMsgPack(v0); (void)e; status(false, real_eg_submitted_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2)); same<SubmittedBallot>(o2, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, real_eg_submitted_ballot_from_msgpack((uint8_t *)v0.data(), v0.size(), &o2));
    }
}
extern "C" eg_ballot_box_state_t real_eg_submitted_ballot_get_state(eg_submitted_ballot_t *) __asm__("eg_submitted_ballot_get_state");
FT(eg_submitted_ballot_get_state) {
    auto a0 = &ob<SubmittedBallot>(k % 4), b0 = a0;
    sameN((uint64_t)real_eg_submitted_ballot_get_state((eg_submitted_ballot_t *)a0), (uint64_t)b0->getState());
}
extern "C" eg_electionguard_status_t real_eg_submitted_ballot_to_bson(eg_submitted_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_submitted_ballot_to_bson");
FT(eg_submitted_ballot_to_bson) {
    auto a0 = &ob<SubmittedBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_submitted_ballot_to_bson((eg_submitted_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toBson());
}
extern "C" eg_electionguard_status_t real_eg_submitted_ballot_to_json(eg_submitted_ballot_t *, char **, uint64_t *) __asm__("eg_submitted_ballot_to_json");
FT(eg_submitted_ballot_to_json) {
    auto a0 = &ob<SubmittedBallot>(k % 4), b0 = a0;
    char * o1{};
    uint64_t o2{};
    status(false, real_eg_submitted_ballot_to_json((eg_submitted_ballot_t *)a0, &o1, &o2));
    sameJ(o1, o2, b0->toJson());
}
extern "C" eg_electionguard_status_t real_eg_submitted_ballot_to_msgpack(eg_submitted_ballot_t *, uint8_t **, uint64_t *) __asm__("eg_submitted_ballot_to_msgpack");
FT(eg_submitted_ballot_to_msgpack) {
    auto a0 = &ob<SubmittedBallot>(k % 4), b0 = a0;
    uint8_t * o1{};
    uint64_t o2{};
    status(false, real_eg_submitted_ballot_to_msgpack((eg_submitted_ballot_t *)a0, &o1, &o2));
    sameB(o1, o2, b0->toMsgPack());
}
