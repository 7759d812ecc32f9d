#include "ballot.hpp"
// ser <kind> <format> <object>: dumps of the object before and after a round trip, separated by "|"; then the JSON text
template <class T, class F, class... N> unique_ptr<T> trip(T &o, const string &fmt, F, N... n)
{
    if (fmt == "json") return T::fromJson(o.toJson(n...));
    if (fmt == "bson") return T::fromBson(o.toBson(n...));
    if constexpr (F::value) return T::fromMsgPack(o.toMsgPack(n...));
    throw std::logic_error("format");
}
template <class T, class F, class W, class... N> string ser(T &o, const string &fmt, F f, W wr, N... n)
{
    Out x; wr(x, o); string a = x.s;
    string j = o.toJson(n...);
    auto r = trip<T>(o, fmt, f, n...);
    Out y; wr(y, *r);
    Out z; wr(z, o);
    return a + " | " + y.s + " | " + z.s + " | x" + enhex(j);
}
typedef std::true_type MP; typedef std::false_type NM;
static void wX(Out &o, const CiphertextElectionContext &c)
{
    w(o, (uint64_t)c.getNumberOfGuardians()); w(o, (uint64_t)c.getQuorum()); w(o, c.getElGamalPublicKey()); w(o, c.getCommitmentHash()); w(o, c.getManifestHash()); w(o, c.getCryptoBaseHash()); w(o, c.getCryptoExtendedBaseHash());
    w(o, c.getConfiguration()->getAllowOverVotes()); w(o, (uint64_t)c.getConfiguration()->getMaxNumberOfBallots());
    auto e = c.getExtendedData(); vector<std::pair<string, string>> v(e.begin(), e.end()); std::sort(v.begin(), v.end()); o.n(v.size()); for (auto &p : v) { w(o, p.first); w(o, p.second); }
}
static void wDev(Out &o, const EncryptionDevice &d) { w(o, d.getDeviceUuid()); w(o, d.getSessionUuid()); w(o, d.getLaunchCode()); w(o, d.getLocation()); w(o, d.getHash().get()); }
static void wCPl(Out &o, const CompactPlaintextBallot &b) { w(o, b.getObjectId()); w(o, b.getStyleId()); wL(o, b.getSelections(), [](Out &o, uint64_t v) { w(o, v); }); wL(o, b.getWriteIns(), [](Out &o, const string &s) { w(o, s); }); }
static void wCCi(Out &o, const CompactCiphertextBallot &b) { wCPl(o, *b.getPlaintext()); w(o, (uint64_t)b.getBallotBoxState()); w(o, b.getBallotCodeSeed()); w(o, b.getBallotCode()); w(o, b.getTimestamp()); w(o, b.getNonce()); }
static void wMan(Out &o, const Manifest &m) { w(o, m); w(o, m.crypto_hash().get()); }
static void wIM(Out &o, const InternalManifest &m) { w(o, m); }
static void wPBal(Out &o, const PlaintextBallot &m) { w(o, m); }
static void wCBal(Out &o, const CiphertextBallot &m) { w(o, m); }
static void wSub(Out &o, const SubmittedBallot &m) { w(o, (const CiphertextBallot &)m); w(o, (uint64_t)m.getState()); }
static unique_ptr<CompactPlaintextBallot> rCPl(In &x) { auto i = rS(x), s = rS(x); auto v = rL<uint64_t>(x, rU); auto wi = rL<string>(x, rS); return make_unique<CompactPlaintextBallot>(i, s, v, wi); }
CMD("ser") {
    In x(a); string k = x.t(), f = x.t();
    if (k == "MAN") { auto o = rM(x); return ser(*o, f, MP(), wMan); }
    if (k == "IMAN") { auto m = rM(x); InternalManifest im(*m); return ser(im, f, MP(), wIM); }
    if (k == "CTX") { auto mh = rQ(x); auto n = rU(x), q = rU(x); auto K = rP(x); auto c = rQ(x); auto ov = rB(x); auto mx = rU(x); std::unordered_map<string, string> e; for (auto i = rU(x); i; i--) { auto kk = rS(x); e[kk] = rS(x); }
        auto o = CiphertextElectionContext::make(n, q, move(K), move(c), move(mh), make_unique<ContextConfiguration>(ov, mx), e); return ser(*o, f, NM(), wX); }
    if (k == "PBAL") { auto o = rPB(x); return ser(*o, f, MP(), wPBal); }
    if (k == "DEV") { auto d = rU(x), s = rU(x), l = rU(x); auto loc = rS(x); EncryptionDevice o(d, s, l, loc); return ser(o, f, NM(), wDev); }
    if (k == "CPB") { auto o = rCPl(x); return ser(*o, f, MP(), wCPl); }
    if (k == "CCB") { auto p = rCPl(x); auto st = (BallotBoxState)rU(x); auto sd = rQ(x), cd = rQ(x); auto ts = rU(x); auto n = rQ(x); CompactCiphertextBallot o(move(p), st, move(sd), move(cd), ts, move(n)); return ser(o, f, MP(), wCCi); }
    if (k == "CBAL0") { auto o = rCB(x); return ser(*o, f, MP(), wCBal, false); }
    if (k == "CBALd") { auto o = rCB(x); return ser(*o, f, MP(), wCBal); }
    if (k == "CBAL1") { auto o = rCB(x); return ser(*o, f, MP(), wCBal, true); }
    if (k == "SUB") { auto st = (BallotBoxState)rU(x); auto b = rCB(x); auto o = SubmittedBallot::from(*b, st); return ser(*o, f, MP(), wSub); }
    throw std::logic_error("kind");
}
