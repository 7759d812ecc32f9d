// token stream <-> ballot and manifest objects (grammar mirrored in egv/wire.py)
#pragma once
#include "common.hpp"
#include <chrono>
struct In { Args &a; size_t i; In(Args &x, size_t k = 0) : a(x), i(k) {} const string &t() { if (i >= a.size()) throw std::logic_error("harness: short input"); return a[i++]; } };
struct Out { string s; void t(const string &x) { if (!s.empty()) s += " "; s += x; } void n(uint64_t v) { t(std::to_string(v)); } };
inline string rS(In &x) { return dehex(x.t().substr(1)); }
inline uint64_t rU(In &x) { return U(x.t()); }
inline bool rB(In &x) { return x.t() == "1"; }
inline unique_ptr<ElementModQ> rQ(In &x) { auto &s = x.t(); return s == "-" ? nullptr : Qe(s); }
inline unique_ptr<ElementModP> rP(In &x) { auto &s = x.t(); return s == "-" ? nullptr : Pe(s); }
inline bool rOpt(In &x) { return x.t() == "+"; }
template <class T, class F> vector<T> rL(In &x, F f) { vector<T> v; uint64_t n = rU(x); for (uint64_t i = 0; i < n; i++) v.push_back(f(x)); return v; }
inline vector<uint8_t> rBytes(In &x) { return unhex(x.t().substr(1)); }
inline void w(Out &o, const string &s) { o.t("x" + enhex(s)); }
inline void w(Out &o, const vector<uint8_t> &s) { o.t("x" + tohex(s)); }
inline void w(Out &o, uint64_t v) { o.n(v); }
inline void w(Out &o, bool v) { o.t(B(v)); }
inline void w(Out &o, const ElementModQ *e) { o.t(e ? H(e) : string("-")); }
inline void w(Out &o, const ElementModP *e) { o.t(e ? H(e) : string("-")); }
template <class V, class F> void wL(Out &o, const V &v, F f) { o.n(v.size()); for (auto &e : v) f(o, e); }
// ---- ciphertexts and proofs
typedef unique_ptr<ElGamalCiphertext> CT;
inline CT rCT(In &x) { if (!rOpt(x)) return nullptr; auto p = rP(x); auto d = rP(x); return make_unique<ElGamalCiphertext>(move(p), move(d)); }
inline void w(Out &o, const ElGamalCiphertext *c) { if (!c) { o.t("-"); return; } o.t("+"); w(o, c->getPad()); w(o, c->getData()); }
inline unique_ptr<DisjunctiveChaumPedersenProof> rD(In &x) { if (!rOpt(x)) return nullptr; auto a = rP(x), b = rP(x), c = rP(x), d = rP(x); auto e = rQ(x), f = rQ(x), g = rQ(x), h = rQ(x), i = rQ(x); return make_unique<DisjunctiveChaumPedersenProof>(move(a), move(b), move(c), move(d), move(e), move(f), move(g), move(h), move(i)); }
inline void w(Out &o, const DisjunctiveChaumPedersenProof *p) { if (!p) { o.t("-"); return; } o.t("+"); w(o, p->getProofZeroPad()); w(o, p->getProofZeroData()); w(o, p->getProofOnePad()); w(o, p->getProofOneData()); w(o, p->getProofZeroChallenge()); w(o, p->getProofOneChallenge()); w(o, p->getChallenge()); w(o, p->getProofZeroResponse()); w(o, p->getProofOneResponse()); }
inline unique_ptr<ConstantChaumPedersenProof> rC(In &x) { if (!rOpt(x)) return nullptr; auto a = rP(x), b = rP(x); auto c = rQ(x), d = rQ(x); auto n = rU(x); return make_unique<ConstantChaumPedersenProof>(move(a), move(b), move(c), move(d), n); }
inline void w(Out &o, const ConstantChaumPedersenProof *p) { if (!p) { o.t("-"); return; } o.t("+"); w(o, p->getPad()); w(o, p->getData()); w(o, p->getChallenge()); w(o, p->getResponse()); w(o, p->getConstant()); }
inline unique_ptr<HashedElGamalCiphertext> rHE(In &x) { if (!rOpt(x)) return nullptr; auto p = rP(x); auto d = rBytes(x); auto m = rBytes(x); return make_unique<HashedElGamalCiphertext>(move(p), d, m); }
inline void w(Out &o, const HashedElGamalCiphertext *c) { if (!c) { o.t("-"); return; } o.t("+"); w(o, c->getPad()); w(o, c->getData()); w(o, c->getMac()); }
// ---- plaintext ballots
typedef unique_ptr<PlaintextBallotSelection> PS; typedef unique_ptr<PlaintextBallotContest> PC; typedef unique_ptr<PlaintextBallot> PBt;
inline PS rPS(In &x) { auto i = rS(x); auto v = rU(x); auto p = rB(x); auto wi = rS(x); return make_unique<PlaintextBallotSelection>(i, v, p, wi); }
inline PC rPC(In &x) { auto i = rS(x); return make_unique<PlaintextBallotContest>(i, rL<PS>(x, rPS)); }
inline PBt rPB(In &x) { auto i = rS(x); auto s = rS(x); return make_unique<PlaintextBallot>(i, s, rL<PC>(x, rPC)); }
inline void w(Out &o, const PlaintextBallotSelection &s) { w(o, s.getObjectId()); w(o, s.getVote()); w(o, s.getIsPlaceholder()); w(o, s.getWriteIn()); }
inline void w(Out &o, const PlaintextBallotContest &s) { w(o, s.getObjectId()); wL(o, s.getSelections(), [](Out &o, const PlaintextBallotSelection &x) { w(o, x); }); }
inline void w(Out &o, const PlaintextBallot &s) { w(o, s.getObjectId()); w(o, s.getStyleId()); wL(o, s.getContests(), [](Out &o, const PlaintextBallotContest &x) { w(o, x); }); }
// ---- encrypted ballots
typedef unique_ptr<CiphertextBallotSelection> CS; typedef unique_ptr<CiphertextBallotContest> CC; typedef unique_ptr<CiphertextBallot> CB;
inline CS rCS(In &x) { auto i = rS(x); auto q = rU(x); auto dh = rQ(x); auto ct = rCT(x); auto ph = rB(x); auto n = rQ(x); auto ch = rQ(x); auto p = rD(x); return make_unique<CiphertextBallotSelection>(i, q, *dh, move(ct), ph, move(n), move(ch), move(p)); }
inline CC rCC(In &x) { auto i = rS(x); auto q = rU(x); auto dh = rQ(x); auto s = rL<CS>(x, rCS); auto n = rQ(x); auto acc = rCT(x); auto ch = rQ(x); auto p = rC(x); auto he = rHE(x); return make_unique<CiphertextBallotContest>(i, q, *dh, move(s), move(n), move(acc), move(ch), move(p), move(he)); }
inline CB rCB(In &x) { auto i = rS(x); auto st = rS(x); auto mh = rQ(x); auto sd = rQ(x); auto c = rL<CC>(x, rCC); auto code = rQ(x); auto ts = rU(x); auto n = rQ(x); auto ch = rQ(x); return make_unique<CiphertextBallot>(i, st, *mh, move(sd), move(c), move(code), ts, move(n), move(ch)); }
inline void w(Out &o, const CiphertextBallotSelection &s) { w(o, s.getObjectId()); w(o, s.getSequenceOrder()); w(o, s.getDescriptionHash()); w(o, s.getCiphertext()); w(o, s.getIsPlaceholder()); w(o, const_cast<CiphertextBallotSelection &>(s).getNonce()); w(o, s.getCryptoHash()); w(o, s.getProof()); }
inline void w(Out &o, const CiphertextBallotContest &s, bool he = true) { w(o, s.getObjectId()); w(o, s.getSequenceOrder()); w(o, s.getDescriptionHash()); wL(o, s.getSelections(), [](Out &o, const CiphertextBallotSelection &x) { w(o, x); }); w(o, s.getNonce()); w(o, s.getCiphertextAccumulation()); w(o, s.getCryptoHash()); w(o, s.getProof()); if (he) { auto h = s.getHashedElGamalCiphertext(); w(o, h.get()); } else o.t("-"); }
inline void w(Out &o, const CiphertextBallot &s, bool he = true) { w(o, s.getObjectId()); w(o, s.getStyleId()); w(o, s.getManifestHash()); w(o, s.getBallotCodeSeed()); wL(o, s.getContests(), [he](Out &o, const CiphertextBallotContest &x) { w(o, x, he); }); w(o, s.getBallotCode()); w(o, s.getTimestamp()); w(o, s.getNonce()); w(o, s.getCryptoHash()); }
// ---- manifest
typedef unique_ptr<InternationalizedText> IT; typedef unique_ptr<ContactInformation> CI;
inline IT rIT(In &x) { if (!rOpt(x)) return nullptr; return make_unique<InternationalizedText>(rL<unique_ptr<Language>>(x, [](In &x) { auto v = rS(x); auto l = rS(x); return make_unique<Language>(v, l); })); }
inline unique_ptr<AnnotatedString> rAS(In &x) { auto a = rS(x); auto v = rS(x); return make_unique<AnnotatedString>(a, v); }
inline CI rCI(In &x) { if (!rOpt(x)) return nullptr; auto l = rL<string>(x, rS); auto e = rL<unique_ptr<AnnotatedString>>(x, rAS); auto p = rL<unique_ptr<AnnotatedString>>(x, rAS); auto n = rS(x); return make_unique<ContactInformation>(l, move(e), move(p), n); }
inline unique_ptr<GeopoliticalUnit> rGP(In &x) { auto i = rS(x); auto n = rS(x); auto t = (ReportingUnitType)rU(x); auto c = rCI(x); if (c) return make_unique<GeopoliticalUnit>(i, n, t, move(c)); return make_unique<GeopoliticalUnit>(i, n, t); }
inline unique_ptr<Party> rPa(In &x) { auto i = rS(x); auto n = rIT(x); auto ab = rS(x), c = rS(x), l = rS(x); if (n) return make_unique<Party>(i, move(n), ab, c, l); if (c.empty() && l.empty()) { if (ab.empty()) return make_unique<Party>(i); return make_unique<Party>(i, ab); } return make_unique<Party>(i, ab, c, l); }
inline unique_ptr<Candidate> rCa(In &x) { auto i = rS(x); auto n = rIT(x); auto p = rS(x), im = rS(x); auto wi = rB(x); if (!n) { if (p.empty()) return make_unique<Candidate>(i, wi); return make_unique<Candidate>(i, p, wi); } if (!im.empty()) return make_unique<Candidate>(i, move(n), p, im, wi); if (!p.empty()) return make_unique<Candidate>(i, move(n), p, wi); return make_unique<Candidate>(i, move(n), wi); }
typedef unique_ptr<SelectionDescription> SD; typedef unique_ptr<ContestDescription> CD;
inline SD rSD(In &x) { auto i = rS(x), c = rS(x); auto s = rU(x); return make_unique<SelectionDescription>(i, c, s); }
// id district seq variation elected allowed name title subtitle selections parties
inline CD rCD(In &x) { auto i = rS(x), d = rS(x); auto q = rU(x); auto v = (VoteVariationType)rU(x); auto e = rU(x), al = rU(x); auto n = rS(x); auto t = rIT(x), u = rIT(x); auto s = rL<SD>(x, rSD); auto pp = rL<string>(x, rS); if (pp.empty()) return make_unique<ContestDescription>(i, d, q, v, e, al, n, move(t), move(u), move(s)); return make_unique<ContestDescription>(i, d, q, v, e, al, n, move(t), move(u), move(s), pp); }
inline unique_ptr<BallotStyle> rBS(In &x) { auto i = rS(x); auto g = rL<string>(x, rS); auto p = rL<string>(x, rS); auto im = rS(x); if (p.empty() && im.empty()) return make_unique<BallotStyle>(i, g); return make_unique<BallotStyle>(i, g, p, im); }
inline std::chrono::system_clock::time_point rTP(In &x) { return std::chrono::system_clock::time_point(std::chrono::seconds((int64_t)rU(x))); }
inline unique_ptr<Manifest> rM(In &x) { auto i = rS(x); auto t = (ElectionType)rU(x); auto s = rTP(x), e = rTP(x); auto g = rL<unique_ptr<GeopoliticalUnit>>(x, rGP); auto p = rL<unique_ptr<Party>>(x, rPa); auto c = rL<unique_ptr<Candidate>>(x, rCa); auto k = rL<CD>(x, rCD); auto b = rL<unique_ptr<BallotStyle>>(x, rBS); auto n = rIT(x); auto ci = rCI(x); if (!n && !ci) return make_unique<Manifest>(i, t, s, e, move(g), move(p), move(c), move(k), move(b)); return make_unique<Manifest>(i, t, s, e, move(g), move(p), move(c), move(k), move(b), move(n), move(ci)); }
inline void w(Out &o, const InternationalizedText *t) { if (!t) { o.t("-"); return; } o.t("+"); wL(o, t->getText(), [](Out &o, const Language &l) { w(o, l.getValue()); w(o, l.getLanguage()); }); }
inline void w(Out &o, const AnnotatedString &s) { w(o, s.getAnnotation()); w(o, s.getValue()); }
inline void w(Out &o, const ContactInformation *c) { if (!c) { o.t("-"); return; } o.t("+"); wL(o, c->getAddressLine(), [](Out &o, const string &s) { w(o, s); }); wL(o, c->getEmail(), [](Out &o, const AnnotatedString &s) { w(o, s); }); wL(o, c->getPhone(), [](Out &o, const AnnotatedString &s) { w(o, s); }); w(o, c->getName()); }
inline void w(Out &o, const GeopoliticalUnit &g) { w(o, g.getObjectId()); w(o, g.getName()); w(o, (uint64_t)g.getType()); w(o, g.getContactInformation()); }
inline void w(Out &o, const Party &p) { w(o, p.getObjectId()); w(o, p.getName()); w(o, p.getAbbreviation()); w(o, p.getColor()); w(o, p.getLogoUri()); }
inline void w(Out &o, const Candidate &c) { w(o, c.getObjectId()); w(o, c.getName()); w(o, c.getPartyId()); w(o, c.getImageUri()); w(o, c.isWriteIn()); }
inline void w(Out &o, const SelectionDescription &s) { w(o, s.getObjectId()); w(o, s.getCandidateId()); w(o, s.getSequenceOrder()); }
inline void wSDs(Out &o, const vector<reference_wrapper<SelectionDescription>> &v) { wL(o, v, [](Out &o, const SelectionDescription &x) { w(o, x); }); }
inline void w(Out &o, const ContestDescription &c) { w(o, c.getObjectId()); w(o, c.getElectoralDistrictId()); w(o, c.getSequenceOrder()); w(o, (uint64_t)c.getVoteVariation()); w(o, c.getNumberElected()); w(o, c.getVotesAllowed()); w(o, c.getName()); w(o, c.getBallotTitle()); w(o, c.getBallotSubtitle()); wSDs(o, c.getSelections()); }
inline void w(Out &o, const ContestDescriptionWithPlaceholders &c) { w(o, (const ContestDescription &)c); wSDs(o, c.getPlaceholders()); }
inline void w(Out &o, const BallotStyle &b) { w(o, b.getObjectId()); wL(o, b.getGeopoliticalUnitIds(), [](Out &o, const string &s) { w(o, s); }); wL(o, b.getPartyIds(), [](Out &o, const string &s) { w(o, s); }); w(o, b.getImageUri()); }
inline void wTP(Out &o, std::chrono::system_clock::time_point t) { o.t(std::to_string((long long)std::chrono::duration_cast<std::chrono::seconds>(t.time_since_epoch()).count())); }
template <class T> void wR(Out &o, const vector<reference_wrapper<T>> &v) { wL(o, v, [](Out &o, const T &x) { w(o, x); }); }
inline void w(Out &o, const Manifest &m) { w(o, m.getElectionScopeId()); w(o, (uint64_t)m.getElectionType()); wTP(o, m.getStartDate()); wTP(o, m.getEndDate()); wR(o, m.getGeopoliticalUnits()); wR(o, m.getParties()); wR(o, m.getCandidates()); wR(o, m.getContests()); wR(o, m.getBallotStyles()); w(o, m.getName()); w(o, m.getContactInformation()); }
inline void w(Out &o, const InternalManifest &m) { w(o, m.getManifestHash()); wR(o, m.getGeopoliticalUnits()); wR(o, m.getCandidates()); wR(o, m.getContests()); wR(o, m.getBallotStyles()); }
// n quorum K commitment allowOvervotes maxBallots ; manifest hash given separately
inline unique_ptr<CiphertextElectionContext> rX(In &x, unique_ptr<ElementModQ> mh) { auto n = rU(x), k = rU(x); auto K = rP(x); auto c = rQ(x); auto ov = rB(x); auto mx = rU(x); return CiphertextElectionContext::make(n, k, move(K), move(c), move(mh), make_unique<ContextConfiguration>(ov, mx)); }
