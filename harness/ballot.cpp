#include "ballot.hpp"
typedef PrecomputeBufferContext PB;
// precomputed values: 0 = none, n = buffer of n filled for K
static void fill(uint64_t n, const ElementModP &K) { PB::empty_queues(); if (n) { PB::init(n); PB::populate(K); PB::stop_populate(); } }
// ---- C10: verification.  seed K q object
CMD("selvalid") { In x(a); auto s = rQ(x); auto K = rP(x); auto q = rQ(x); auto o = rCS(x); bool b = o->isValidEncryption(*s, *K, *q), b2 = o->isValidEncryption(*s, *K, *q); Out r; r.t(B(b) + B(b2)); w(r, *o); return r.s; }
CMD("convalid") { In x(a); auto s = rQ(x); auto K = rP(x); auto q = rQ(x); auto o = rCC(x); bool b = o->isValidEncryption(*s, *K, *q), b2 = o->isValidEncryption(*s, *K, *q); Out r; r.t(B(b) + B(b2)); w(r, *o, false); return r.s; }
CMD("balvalid") { In x(a); auto s = rQ(x); auto K = rP(x); auto q = rQ(x); auto o = rCB(x); bool b = o->isValidEncryption(*s, *K, *q), b2 = b; Out r; r.t(B(b) + B(b2)); w(r, *o, false); return r.s; }
CMD("selhash") { In x(a); auto s = rQ(x); auto o = rCS(x); return H(o->crypto_hash_with(*s)) + " " + H(((const CiphertextBallotSelection &)*o).crypto_hash_with(*s)); }
CMD("conhash") { In x(a); auto s = rQ(x); auto o = rCC(x); return H(((const CiphertextBallotContest &)*o).crypto_hash_with(*s)); }
CMD("balhash") { In x(a); auto s = rQ(x); auto o = rCB(x); return H(((const CiphertextBallot &)*o).crypto_hash_with(*s)); }
CMD("conagg") { In x(a); auto o = rCC(x); auto n = o->aggregateNonce(); auto c = o->elgamalAccumulate(); Out r; w(r, n.get()); w(r, c.get()); return r.s; }
// make: given parts
// K q seed elected contest-without-hash; "-" crypto hash and proof are computed
CMD("conmake") { In x(a); auto K = rP(x); auto q = rQ(x), sd = rQ(x); auto el = rU(x); auto i = rS(x); auto sq = rU(x); auto dh = rQ(x); auto s = rL<CS>(x, rCS); auto n = rQ(x); auto o = CiphertextBallotContest::make(i, sq, *dh, move(s), *K, *q, *sd, el, move(n)); Out r; w(r, *o, false); return r.s; }
CMD("balmake") { In x(a); auto i = rS(x), st = rS(x); auto mh = rQ(x); auto c = rL<CC>(x, rCC); auto n = rQ(x); auto ts = rU(x); auto sd = rQ(x), code = rQ(x); auto o = CiphertextBallot::make(i, st, *mh, move(c), move(n), ts, move(sd), move(code)); Out r; w(r, *o, false); return r.s; }
CMD("nonceseed") { In x(a); auto m = rQ(x); auto i = rS(x); auto n = rQ(x); return H(CiphertextBallot::nonceSeed(*m, i, *n)); }
CMD("code") { In x(a); auto s = rQ(x); auto t = rU(x); auto h = rQ(x); return H(BallotCode::getBallotCode(*s, t, *h)); }
CMD("device") { In x(a); auto d = rU(x), s = rU(x), l = rU(x); auto loc = rS(x); EncryptionDevice e(d, s, l, loc); Out r; w(r, e.getHash().get()); w(r, BallotCode::getHashForDevice(d, s, l, loc).get()); w(r, e.getDeviceUuid()); w(r, e.getSessionUuid()); w(r, e.getLaunchCode()); w(r, e.getLocation()); return r.s; }
// ---- C16
CMD("conok") { In x(a); auto c = rCD(x); return B(c->isValid()) + " " + H(c->crypto_hash()); }
CMD("manok") { In x(a); auto m = rM(x); bool b = m->isValid(); Out o; o.t(B(b)); w(o, *m); return o.s; }
CMD("manhash") { In x(a); auto m = rM(x); InternalManifest im(*m); return H(m->crypto_hash()) + " " + H(im.getManifestHash()); }
CMD("internal") { In x(a); auto m = rM(x); InternalManifest im(*m); Out o; w(o, im); return o.s; }
CMD("contestsfor") { In x(a); auto st = rS(x); auto m = rM(x); InternalManifest im(*m); Out o; wR(o, im.getContestsFor(st)); auto b = im.getBallotStyle(st); o.t(b ? "x" + enhex(b->getObjectId()) : "-"); return o.s; }
CMD("sdhash") { In x(a); auto s = rSD(x); return H(s->crypto_hash()) + " " + H(((const SelectionDescription &)*s).crypto_hash()); }
// ---- C09
// K q nonceSeed isPlaceholder verify pre selection description
CMD("encsel") { In x(a); auto K = rP(x); auto q = rQ(x), ns = rQ(x); auto ph = rB(x), vf = rB(x); fill(rU(x), *K); auto s = rPS(x); auto d = rSD(x); unique_ptr<CiphertextBallotSelection> c; try { c = encryptSelection(*s, *d, *K, *q, *ns, ph, vf); } catch (...) { PB::empty_queues(); throw; } PB::empty_queues(); Out o; w(o, *c); return o.s; }
// K q nonceSeed verify pre contestIndex contest manifest
CMD("enccon") { In x(a); auto K = rP(x); auto q = rQ(x), ns = rQ(x); auto vf = rB(x); auto pre = rU(x), k = rU(x); auto c = rPC(x); auto m = rM(x); InternalManifest im(*m); fill(pre, *K); auto ds = im.getContests(); unique_ptr<CiphertextBallotContest> e; try { e = encryptContest(*c, im, ds[k].get(), *K, *q, *ns, vf); } catch (...) { PB::empty_queues(); throw; } PB::empty_queues(); Out o; w(o, *e); return o.s; }
CMD("conplainvalid") { In x(a); auto id = rS(x); auto n = rU(x), el = rU(x), al = rU(x); auto ov = rB(x); auto c = rPC(x); return std::to_string((int)c->isValid(id, n, el, al, ov)); }
// verify pre seed nonce timestamp context(mh from manifest) ballot manifest
CMD("encbal") { In x(a); auto vf = rB(x); auto pre = rU(x); auto sd = rQ(x), n = rQ(x); auto ts = rU(x); Args xa(a.begin() + x.i, a.begin() + x.i + 6); x.i += 6; auto b = rPB(x); auto m = rM(x); InternalManifest im(*m); In y(xa); auto cx = rX(y, im.getManifestHash()->clone()); fill(pre, *cx->getElGamalPublicKey()); CB e; try { e = encryptBallot(*b, im, *cx, *sd, move(n), ts, vf); } catch (...) { PB::empty_queues(); throw; } PB::empty_queues(); Out o; w(o, *e); return o.s; }
static void w(Out &o, const CompactPlaintextBallot &p) { w(o, p.getObjectId()); w(o, p.getStyleId()); wL(o, p.getSelections(), [](Out &o, uint64_t v) { w(o, v); }); wL(o, p.getWriteIns(), [](Out &o, const string &s) { w(o, s); }); }
static void w(Out &o, const CompactCiphertextBallot &c) { w(o, *c.getPlaintext()); w(o, (uint64_t)c.getBallotBoxState()); w(o, c.getBallotCodeSeed()); w(o, c.getBallotCode()); w(o, c.getTimestamp()); w(o, c.getNonce()); w(o, c.getObjectId()); }
static unique_ptr<CompactPlaintextBallot> rCP(In &x) { auto i = rS(x), s = rS(x); auto v = rL<uint64_t>(x, rU); auto wi = rL<string>(x, rS); return make_unique<CompactPlaintextBallot>(i, s, v, wi); }
static unique_ptr<CompactCiphertextBallot> rCCB(In &x) { auto p = rCP(x); auto st = (BallotBoxState)rU(x); auto sd = rQ(x), c = rQ(x); auto t = rU(x); auto n = rQ(x); return make_unique<CompactCiphertextBallot>(move(p), st, move(sd), move(c), t, move(n)); }
// ---- C11 mediator history: device(4) pre context(6) manifest k { F|C verify ballot }...   "!" prefix on manifest hash: bad context
CMD("mediator") { In x(a); auto d1 = rU(x), d2 = rU(x), d3 = rU(x); auto loc = rS(x); auto pre = rU(x); auto bad = rB(x); Args xa(a.begin() + x.i, a.begin() + x.i + 6); x.i += 6; auto m = rM(x); InternalManifest im(*m); In y(xa); auto mh = im.getManifestHash()->clone(); if (bad) mh = add_mod_q(*mh, ONE_MOD_Q()); auto cx = rX(y, move(mh)); EncryptionDevice dev(d1, d2, d3, loc); EncryptionMediator med(im, *cx, dev);
    Out o; uint64_t k = rU(x);
    for (uint64_t i = 0; i < k; i++) { bool compact = x.t() == "C"; bool vf = rB(x); auto b = rPB(x); fill(pre, *cx->getElGamalPublicKey());
        try { if (compact) { auto c = med.compactEncrypt(*b, vf); o.t("C"); w(o, *c); } else { auto c = med.encrypt(*b, vf); o.t("F"); w(o, *c); } } catch (const std::exception &e) { o.t("E"); } }
    PB::empty_queues(); return o.s; }
// ---- C15
CMD("compress") { In x(a); auto b = rPB(x); auto c = compressPlaintextBallot(*b); auto c2 = CompactPlaintextBallot::make(*b); Out o; w(o, *c); w(o, *c2); return o.s; }
CMD("expand") { In x(a); auto c = rCP(x); auto m = rM(x); InternalManifest im(*m); auto b = expandCompactPlaintextBallot(*c, im); Out o; w(o, *b); return o.s; }
CMD("compressc") { In x(a); auto b = rPB(x); auto e = rCB(x); auto c = compressCiphertextBallot(*b, *e); Out o; w(o, *c); return o.s; }
CMD("expandc") { In x(a); auto pre = rU(x); auto c = rCCB(x); Args xa(a.begin() + x.i, a.begin() + x.i + 6); x.i += 6; auto m = rM(x); InternalManifest im(*m); In y(xa); auto cx = rX(y, im.getManifestHash()->clone()); fill(pre, *cx->getElGamalPublicKey()); CB e; try { e = expandCompactCiphertextBallot(*c, im, *cx); } catch (...) { PB::empty_queues(); throw; } PB::empty_queues(); Out o; w(o, *e); return o.s; }
