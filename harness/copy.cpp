#include "ballot.hpp"
#include <type_traits>
// copy <kind> <object> <other object>: dumps of the source, of a copy, an assigned object and a clone, of the source afterwards, and of the
// copies after the source is gone, separated by "|"
template <class T, class = void> struct HasClone : std::false_type {};
template <class T> struct HasClone<T, std::void_t<decltype(std::declval<T &>().clone())>> : std::true_type {};
template <class T, class R, class W> string cp(In &x, R rd, W wr)
{
    auto d = [&](T &v) { Out o; wr(o, v); return " | " + o.s; };
    unique_ptr<T> s = rd(x), y = rd(x);
    string out = d(*s).substr(3);
    auto c = make_unique<T>(*s);
    *y = *s;
    out += d(*c) + d(*y);
    unique_ptr<T> k;
    if constexpr (HasClone<T>::value) { k = s->clone(); out += d(*k); }
    out += d(*s);
    s.reset();
    out += d(*c) + d(*y);
    if (k) out += d(*k);
    return out;
}
static unique_ptr<Party> xPa(In &x) { auto i = rS(x); auto n = rIT(x); auto ab = rS(x), c = rS(x), l = rS(x); return make_unique<Party>(i, move(n), ab, c, l); }
static unique_ptr<Candidate> xCa(In &x) { auto i = rS(x); auto n = rIT(x); auto p = rS(x), im = rS(x); auto wi = rB(x); return make_unique<Candidate>(i, move(n), p, im, wi); }
static unique_ptr<GeopoliticalUnit> xGP(In &x) { auto i = rS(x); auto n = rS(x); auto t = (ReportingUnitType)rU(x); auto c = rCI(x); return make_unique<GeopoliticalUnit>(i, n, t, move(c)); }
static unique_ptr<BallotStyle> xBS(In &x) { auto i = rS(x); auto g = rL<string>(x, rS); auto p = rL<string>(x, rS); auto im = rS(x); return make_unique<BallotStyle>(i, g, p, im); }
static unique_ptr<ContestDescription> xCD(In &x) { auto i = rS(x), d = rS(x); auto q = rU(x); auto v = (VoteVariationType)rU(x); auto e = rU(x), al = rU(x); auto n = rS(x); auto t = rIT(x), u = rIT(x); auto s = rL<SD>(x, rSD); return make_unique<ContestDescription>(i, d, q, v, e, al, n, move(t), move(u), move(s)); }
static unique_ptr<ContestDescriptionWithPlaceholders> xCDP(In &x) { auto i = rS(x), d = rS(x); auto q = rU(x); auto v = (VoteVariationType)rU(x); auto e = rU(x), al = rU(x); auto n = rS(x); auto t = rIT(x), u = rIT(x); auto s = rL<SD>(x, rSD); auto p = rL<SD>(x, rSD); return make_unique<ContestDescriptionWithPlaceholders>(i, d, q, v, e, al, n, move(t), move(u), move(s), move(p)); }
static unique_ptr<Triple> xT(In &x) { auto e = rQ(x); auto g = rP(x), k = rP(x); return make_unique<Triple>(move(e), move(g), move(k)); }
static unique_ptr<Quadruple> xF(In &x) { auto e = rQ(x), f = rQ(x); auto g = rP(x), k = rP(x); return make_unique<Quadruple>(move(e), move(f), move(g), move(k)); }
static unique_ptr<TwoTriplesAndAQuadruple> xTT(In &x) { auto a = xT(x), b = xT(x); auto c = xF(x); return make_unique<TwoTriplesAndAQuadruple>(move(a), move(b), move(c)); }
static void wT(Out &o, Triple &t) { w(o, t.get_exp().get()); w(o, t.get_g_to_exp().get()); w(o, t.get_pubkey_to_exp().get()); }
static void wF(Out &o, Quadruple &t) { w(o, t.get_exp1().get()); w(o, t.get_exp2().get()); w(o, t.get_g_to_exp1().get()); w(o, t.get_g_to_exp2_mult_by_pubkey_to_exp1().get()); }
static void wTT(Out &o, TwoTriplesAndAQuadruple &t) { wT(o, *t.get_triple1()); wT(o, *t.get_triple2()); wF(o, *t.get_quad()); }
template <class T> void wv(Out &o, T &v) { w(o, (const T &)v); }
template <class T> void wp(Out &o, T &v) { w(o, (const T *)&v); }
CMD("copy") {
    In x(a); string k = x.t(); 
    if (k == "Q") return cp<ElementModQ>(x, rQ, wp<ElementModQ>);
    if (k == "P") return cp<ElementModP>(x, [](In &x) { auto e = rP(x); e->setIsFixedBase(rB(x)); return e; }, [](Out &o, ElementModP &e) { w(o, &e); w(o, e.isFixedBase()); });
    if (k == "KP") return cp<ElGamalKeyPair>(x, [](In &x) { auto s = rQ(x); auto p = rP(x); return make_unique<ElGamalKeyPair>(move(s), move(p)); }, [](Out &o, ElGamalKeyPair &e) { w(o, e.getSecretKey()); w(o, e.getPublicKey()); });
    if (k == "CT") return cp<ElGamalCiphertext>(x, rCT, wp<ElGamalCiphertext>);
    if (k == "HE") return cp<HashedElGamalCiphertext>(x, rHE, wp<HashedElGamalCiphertext>);
    if (k == "DP") return cp<DisjunctiveChaumPedersenProof>(x, rD, wp<DisjunctiveChaumPedersenProof>);
    if (k == "CP") return cp<ConstantChaumPedersenProof>(x, rC, wp<ConstantChaumPedersenProof>);
    if (k == "PS") return cp<PlaintextBallotSelection>(x, rPS, wv<PlaintextBallotSelection>);
    if (k == "PC") return cp<PlaintextBallotContest>(x, rPC, wv<PlaintextBallotContest>);
    if (k == "PB") return cp<PlaintextBallot>(x, rPB, wv<PlaintextBallot>);
    if (k == "CS") return cp<CiphertextBallotSelection>(x, rCS, wv<CiphertextBallotSelection>);
    bool h = k.back() == 'h';      // contests carry hashed data
    if (k.substr(0, 2) == "CC") return cp<CiphertextBallotContest>(x, rCC, [h](Out &o, CiphertextBallotContest &c) { w(o, (const CiphertextBallotContest &)c, h); });
    if (k.substr(0, 2) == "CB") return cp<CiphertextBallot>(x, rCB, [h](Out &o, CiphertextBallot &c) { w(o, (const CiphertextBallot &)c, h); });
    if (k == "AS") return cp<AnnotatedString>(x, rAS, wv<AnnotatedString>);
    if (k == "LA") return cp<Language>(x, [](In &x) { auto v = rS(x); auto l = rS(x); return make_unique<Language>(v, l); }, [](Out &o, Language &l) { w(o, l.getValue()); w(o, l.getLanguage()); });
    if (k == "IT") return cp<InternationalizedText>(x, rIT, wp<InternationalizedText>);
    if (k == "CI") return cp<ContactInformation>(x, rCI, wp<ContactInformation>);
    if (k == "GP") return cp<GeopoliticalUnit>(x, xGP, wv<GeopoliticalUnit>);
    if (k == "BS") return cp<BallotStyle>(x, xBS, wv<BallotStyle>);
    if (k == "PA") return cp<Party>(x, xPa, wv<Party>);
    if (k == "CA") return cp<Candidate>(x, xCa, wv<Candidate>);
    if (k == "SD") return cp<SelectionDescription>(x, rSD, wv<SelectionDescription>);
    if (k == "CD") return cp<ContestDescription>(x, xCD, wv<ContestDescription>);
    if (k == "DPH") return cp<ContestDescriptionWithPlaceholders>(x, xCDP, wv<ContestDescriptionWithPlaceholders>);
    if (k == "T") return cp<Triple>(x, xT, wT);
    if (k == "F") return cp<Quadruple>(x, xF, wF);
    if (k == "TT") return cp<TwoTriplesAndAQuadruple>(x, xTT, wTT);
    throw std::logic_error("kind");
}
// submitting a ballot keeps everything but the nonces
CMD("submitcopy") { In x(a); auto h = rB(x); auto b = rCB(x); Out o; w(o, *b, h); o.t("|"); auto s = SubmittedBallot::from(*b, BallotBoxState::cast); w(o, *s, h); o.t("|"); w(o, *b, h); b.reset(); o.t("|"); w(o, *s, h); return o.s; }
