// samples of every class behind a handle, and comparison of what the C interface yields with what the wrapped operation yields
#pragma once
#include "ballot.hpp"
extern "C" {
#include <electionguard/ballot.h>
#include <electionguard/ballot_code.h>
#include <electionguard/ballot_compact.h>
#include <electionguard/chaum_pedersen.h>
#include <electionguard/collections.h>
#include <electionguard/election.h>
#include <electionguard/elgamal.h>
#include <electionguard/encrypt.h>
#include <electionguard/group.h>
#include <electionguard/hash.h>
#include <electionguard/manifest.h>
}
#include <unordered_map>
#include <algorithm>
typedef CiphertextElectionContext Context;
typedef ContestDescriptionWithPlaceholders CDP;
inline string sample(int k, int i) { static const char *w[] = {"alpha", "b", "gamma-2", "x y", "\xc3\xa9t\xc3\xa9"}; return string(w[(k + i) % 5]) + "-" + std::to_string(i); }
inline unique_ptr<ElementModQ> sq(int k) { auto e = Qe(k % 3 == 0 ? "7" : "9f3c" + std::to_string(1000 + 17 * k)); return e; }
template <class T> struct Mk;
#define MK(T) template <> struct Mk<T> { static unique_ptr<T> make(int k); }; inline unique_ptr<T> Mk<T>::make([[maybe_unused]] int k)
template <class T> unique_ptr<T> mk(int k) { return Mk<T>::make(k); }
template <class T> T &ob(int k) { static std::map<int, unique_ptr<T>> m; auto &p = m[k]; if (!p) p = mk<T>(k); return *p; }
template <class T> vector<unique_ptr<T>> mks(int k, int n) { vector<unique_ptr<T>> v; for (int i = 0; i < n; i++) v.push_back(mk<T>(k + i)); return v; }
MK(ElementModQ) { return sq(k); }
MK(ElementModP) { return g_pow_p(*sq(k)); }
MK(ElGamalKeyPair) { return ElGamalKeyPair::fromSecret(*sq(k + 1)); }
MK(ElGamalCiphertext) { return elgamalEncrypt(k & 1, *sq(k + 2), *ob<ElGamalKeyPair>(0).getPublicKey()); }
MK(DisjunctiveChaumPedersenProof) { return DisjunctiveChaumPedersenProof::make(ob<ElGamalCiphertext>(k), *sq(k + 2), *ob<ElGamalKeyPair>(0).getPublicKey(), *sq(4), *sq(5), k & 1); }
MK(ConstantChaumPedersenProof) { return ConstantChaumPedersenProof::make(ob<ElGamalCiphertext>(k), *sq(k + 2), *ob<ElGamalKeyPair>(0).getPublicKey(), *sq(4), *sq(5), k & 1); }
MK(ExtendedData) { return make_unique<ExtendedData>(sample(k, 0), sample(k, 0).size()); }
MK(PlaintextBallotSelection) { return make_unique<PlaintextBallotSelection>(sample(k, 1), (uint64_t)(k & 1), (k & 2) != 0, k & 4 ? "write" : ""); }
MK(PlaintextBallotContest) { return make_unique<PlaintextBallotContest>(sample(k, 2), mks<PlaintextBallotSelection>(k, 1 + k % 4)); }
MK(Language) { return make_unique<Language>(sample(k, 3), sample(k, 4)); }
MK(InternationalizedText) { return make_unique<InternationalizedText>(mks<Language>(k, k % 4)); }
MK(AnnotatedString) { return make_unique<AnnotatedString>(sample(k, 5), sample(k, 6)); }
MK(ContactInformation) { vector<string> l; for (int i = 0; i < k % 4; i++) l.push_back(sample(k, 20 + i)); return make_unique<ContactInformation>(l, mks<AnnotatedString>(k, (k + 1) % 4), mks<AnnotatedString>(k + 3, (k + 2) % 4), sample(k, 7)); }
MK(GeopoliticalUnit) { return make_unique<GeopoliticalUnit>(sample(k, 8), sample(k, 9), (ReportingUnitType)(k % 5), mk<ContactInformation>(k)); }
MK(BallotStyle) { vector<string> g, p; for (int i = 0; i < 1 + k % 4; i++) g.push_back(sample(k, 30 + i)); for (int i = 0; i < k % 3; i++) p.push_back(sample(k, 40 + i)); return make_unique<BallotStyle>(sample(k, 10), g, p, sample(k, 11)); }
MK(Party) { return make_unique<Party>(sample(k, 12), mk<InternationalizedText>(k), sample(k, 13), sample(k, 14), sample(k, 15)); }
MK(Candidate) { return make_unique<Candidate>(sample(k, 16), mk<InternationalizedText>(k + 1), sample(k, 17), sample(k, 18), (k & 1) != 0); }
MK(SelectionDescription) { return make_unique<SelectionDescription>(sample(k, 19), sample(k, 20), (uint64_t)k); }
MK(ContestDescription) { return make_unique<ContestDescription>(sample(k, 21), sample(k, 22), (uint64_t)k, (VoteVariationType)(1 + k % 5), 1 + k, 2 + k, sample(k, 23), mk<InternationalizedText>(k), mk<InternationalizedText>(k + 1), mks<SelectionDescription>(k, 1 + k % 4)); }
MK(CDP) { return make_unique<CDP>(sample(k, 21), sample(k, 22), (uint64_t)k, (VoteVariationType)(1 + k % 5), 1 + k, 2 + k, sample(k, 23), mk<InternationalizedText>(k), mk<InternationalizedText>(k + 1), mks<SelectionDescription>(k, 1 + k % 4), mks<SelectionDescription>(k + 7, 1 + k)); }
// a valid manifest: k+1 contests of two selections, all in one district
MK(Manifest) {
    vector<unique_ptr<GeopoliticalUnit>> g; g.push_back(make_unique<GeopoliticalUnit>("gp", "unit", ReportingUnitType::county));
    vector<unique_ptr<Party>> p; p.push_back(mk<Party>(k)); p.push_back(mk<Party>(k + 1));
    vector<unique_ptr<Candidate>> c; for (int i = 0; i < 3; i++) c.push_back(make_unique<Candidate>("c" + std::to_string(i), false));
    vector<CD> q; for (int i = 0; i <= k; i++) { vector<SD> s; for (int j = 0; j < 2 + (i & 1); j++) s.push_back(make_unique<SelectionDescription>("s" + std::to_string(i) + "-" + std::to_string(j), "c" + std::to_string(j), (uint64_t)j));
        q.push_back(make_unique<ContestDescription>("q" + std::to_string(i), "gp", (uint64_t)i, VoteVariationType::one_of_m, 1, 1, "contest", mk<InternationalizedText>(1), mk<InternationalizedText>(2), move(s))); }
    vector<unique_ptr<BallotStyle>> b; b.push_back(make_unique<BallotStyle>("style", vector<string>{"gp"}));
    return make_unique<Manifest>("scope-" + std::to_string(k), ElectionType::general, std::chrono::system_clock::time_point(std::chrono::seconds(1600000000 + k)), std::chrono::system_clock::time_point(std::chrono::seconds(1600001000 + k)), move(g), move(p), move(c), move(q), move(b), mk<InternationalizedText>(k + 1), mk<ContactInformation>(k + 2));
}
MK(InternalManifest) { return make_unique<InternalManifest>(ob<Manifest>(k)); }
MK(PlaintextBallot) { vector<unique_ptr<PlaintextBallotContest>> v; for (int i = 0; i <= k; i++) { vector<unique_ptr<PlaintextBallotSelection>> s; s.push_back(make_unique<PlaintextBallotSelection>("s" + std::to_string(i) + "-0", (uint64_t)(i & 1), false)); v.push_back(make_unique<PlaintextBallotContest>("q" + std::to_string(i), move(s))); } return make_unique<PlaintextBallot>("ballot-" + std::to_string(k), "style", move(v)); }
MK(ContextConfiguration) { return make_unique<ContextConfiguration>((k & 1) != 0, (uint64_t)1000 + k); }
MK(Context) { std::unordered_map<string, string> e; for (int i = 0; i < k % 4; i++) e["k" + std::to_string(i)] = sample(k, i); return Context::make(3, 2, ob<ElGamalKeyPair>(0).getPublicKey()->clone(), sq(k), ob<InternalManifest>(k).getManifestHash()->clone(), mk<ContextConfiguration>(k), e); }
MK(CiphertextBallot) { return encryptBallot(ob<PlaintextBallot>(k), ob<InternalManifest>(k), ob<Context>(k), *sq(k), sq(k + 1), 1000 + k, false); }
MK(CiphertextBallotContest) { return make_unique<CiphertextBallotContest>(ob<CiphertextBallot>(k).getContests().at(k).get()); }
MK(CiphertextBallotSelection) { return make_unique<CiphertextBallotSelection>(ob<CiphertextBallot>(k).getContests().at(k).get().getSelections().at(k & 1).get()); }
MK(SubmittedBallot) { return SubmittedBallot::from(ob<CiphertextBallot>(k), (BallotBoxState)(1 + (k & 1))); }
MK(CompactPlaintextBallot) { return compressPlaintextBallot(ob<PlaintextBallot>(k)); }
MK(CompactCiphertextBallot) { return encryptCompactBallot(ob<PlaintextBallot>(k), ob<InternalManifest>(k), ob<Context>(k), *sq(k), sq(k + 1), 1000 + k, false); }
MK(EncryptionDevice) { return make_unique<EncryptionDevice>(1 + k, 2 + k, 3 + k, sample(k, 24)); }
MK(EncryptionMediator) { return make_unique<EncryptionMediator>(ob<InternalManifest>(k), ob<Context>(k), ob<EncryptionDevice>(k)); }
// an argument: sample i, or for k = 4, 5 the elements zero and one
template <class T> unique_ptr<T> arg(int, int i) { return mk<T>(i); }
template <> inline unique_ptr<ElementModQ> arg<ElementModQ>(int k, int i) { return k == 4 ? Qe("0") : k == 5 ? Qe("1") : sq(i); }
template <> inline unique_ptr<ElementModP> arg<ElementModP>(int k, int i) { return k == 4 ? Pe("0") : k == 5 ? Pe("1") : mk<ElementModP>(i); }
// ---- dumps
#define DV(T) inline string dump(const T *v) { if (!v) return "-"; Out o; w(o, *v); return o.s; }
#define DP(T) inline string dump(const T *v) { Out o; w(o, v); return o.s; }
DP(ElementModQ) DP(ElementModP) DP(ElGamalCiphertext) DP(DisjunctiveChaumPedersenProof) DP(ConstantChaumPedersenProof) DP(InternationalizedText) DP(ContactInformation)
DV(PlaintextBallotSelection) DV(PlaintextBallotContest) DV(PlaintextBallot) DV(CiphertextBallotSelection) DV(CiphertextBallotContest) DV(CiphertextBallot) DV(AnnotatedString) DV(GeopoliticalUnit) DV(Party) DV(Candidate)
DV(SelectionDescription) DV(ContestDescription) DV(ContestDescriptionWithPlaceholders) DV(BallotStyle) DV(Manifest) DV(InternalManifest)
inline string dump(const Language *l) { return l ? l->getValue() + "/" + l->getLanguage() : "-"; }
inline string dump(const ElGamalKeyPair *k) { auto &p = *const_cast<ElGamalKeyPair *>(k); return H(p.getSecretKey()) + " " + H(p.getPublicKey()); }
inline string dump(const ExtendedData *d) { return d->value + " " + std::to_string(d->length); }
inline string dump(const ContextConfiguration *c) { auto &p = *const_cast<ContextConfiguration *>(c); return c ? B(p.getAllowOverVotes()) + " " + std::to_string(p.getMaxNumberOfBallots()) : "-"; }
inline string dump(const std::unordered_map<string, string> &m) { std::map<string, string> s(m.begin(), m.end()); string r; for (auto &x : s) r += x.first + "=" + x.second + ";"; return r; }
inline string dump(const Context *c) { auto &p = *const_cast<Context *>(c); return p.toJson() + dump(p.getConfiguration()) + dump(p.getExtendedData()); }
inline string dump(const SubmittedBallot *b) { return b->toJson() + std::to_string((int)b->getState()); }
inline string dump(const CompactPlaintextBallot *b) { return tohex(b->toMsgPack()); }
inline string dump(const CompactCiphertextBallot *b) { return tohex(b->toMsgPack()); }
inline string dump(const EncryptionDevice *d) { auto &p = *const_cast<EncryptionDevice *>(d); return std::to_string(p.getDeviceUuid()) + " " + std::to_string(p.getSessionUuid()) + " " + std::to_string(p.getLaunchCode()) + " " + p.getLocation(); }
inline string dump(const EncryptionMediator *) { return "mediator"; }
// ---- a handle as the wrapped operation wants it
template <class T> struct A { T *p; operator T &() const { return *p; } operator const T *() const { return p; } operator T *() const { return p; } operator unique_ptr<T>() const { return unique_ptr<T>(p); } T *operator->() const { return p; } };
template <class T> struct V { vector<T *> p; operator vector<unique_ptr<T>>() const { vector<unique_ptr<T>> v; for (auto x : p) v.emplace_back(x); return v; } };
template <class T> const T *raw(const unique_ptr<T> &x) { return x.get(); }
template <class T> const T *raw(const T &x) { return &x; }
template <class T> const T *raw(const T *x) { return x; }
template <class T> const T *raw(T *x) { return x; }
template <class T> const T *raw(const reference_wrapper<T> &x) { return &x.get(); }
template <class T> const T *raw(const A<T> &x) { return x.p; }
struct Bad { string what; };
#define FAIL(what) throw Bad{what}
inline void status(bool threw, eg_electionguard_status_t st) { if (threw && st == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success although the wrapped operation fails"); if (!threw && st != ELECTIONGUARD_STATUS_SUCCESS) FAIL("error status " + std::to_string((int)st) + " although the wrapped operation succeeds"); }
template <class T, class E> void same(const void *out, const E &e) { if (!out) { if (raw(e)) FAIL("no output"); return; } auto x = dump((const T *)out), y = dump((const T *)raw(e)); if (x != y) FAIL("output " + x.substr(0, 200) + " instead of " + y.substr(0, 200)); }
inline void sameS(const char *out, const string &e) { if (!out || e != out) FAIL("output '" + string(out ? out : "(null)").substr(0, 200) + "' instead of '" + e.substr(0, 200) + "'"); }
inline void sameB(const void *out, uint64_t n, const vector<uint8_t> &e) { if (n != e.size() || !out || memcmp(out, e.data(), n)) FAIL("other bytes: " + std::to_string(n) + " instead of " + std::to_string(e.size())); }
inline void sameJ(const char *out, uint64_t n, const string &e) { if (!out || e != out || n != e.size() + 1) FAIL("other text or size " + std::to_string(n) + " instead of " + std::to_string(e.size() + 1)); }
inline void sameN(uint64_t a, uint64_t b) { if (a != b) FAIL("result " + std::to_string(a) + " instead of " + std::to_string(b)); }
#define TRY(stmt) bool threw = false; try { stmt; } catch (const std::exception &) { threw = true; }
typedef void (*Test)(int);
std::map<string, Test> &tests();
struct RegT { RegT(const char *n, Test t) { tests()[n] = t; } };
#define FT(name) static void ft_##name(int); static RegT rt_##name(#name, ft_##name); static void ft_##name([[maybe_unused]] int k)
