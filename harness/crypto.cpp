#include "common.hpp"
#include "nonces.hpp"
typedef unique_ptr<ElGamalCiphertext> CT;
static CT ct(const string &p, const string &d) { return make_unique<ElGamalCiphertext>(Pe(p), Pe(d)); }
static string S(const ElGamalCiphertext &c) { return H(c.getPad()) + " " + H(c.getData()); }
// ---- ElGamal
CMD("enc") { auto r = Qe(a[1]); auto k = Pe(a[2], a.size() > 3); auto c = elgamalEncrypt(U(a[0]), *r, *k); return S(*c) + " " + H(r) + " " + H(k); }
CMD("encpre") { auto g = Pe(a[1]), k = Pe(a[2]); auto c = elgamalEncrypt_with_precomputed(U(a[0]), *g, *k); return S(*c) + " " + H(g) + " " + H(k); }
CMD("dec") { auto c = ct(a[0], a[1]); auto m = c->decrypt(*Qe(a[2])); return std::to_string(m) + " " + S(*c); }
CMD("ctadd") { vector<CT> v; vector<reference_wrapper<ElGamalCiphertext>> w; for (size_t i = 0; i + 1 < a.size(); i += 2) v.push_back(ct(a[i], a[i + 1])); for (auto &c : v) w.push_back(*c); auto r = elgamalAdd(w); string o = S(*r); for (auto &c : v) o += " " + S(*c); return o; }
CMD("ctaddsame") { auto c = ct(a[0], a[1]); vector<reference_wrapper<ElGamalCiphertext>> w; for (uint64_t i = 0; i < U(a[2]); i++) w.push_back(*c); auto r = elgamalAdd(w); return S(*r) + " " + S(*c); }
CMD("cteq") { auto x = ct(a[0], a[1]), y = ct(a[2], a[3]); return B(*x == *y) + B(*x != *y) + " " + H(x->crypto_hash()) + " " + H(((const ElGamalCiphertext &)*y).crypto_hash()); }
CMD("keypair") { auto k = ElGamalKeyPair::fromSecret(*Qe(a[0]), a.size() > 1 ? a[1] == "1" : true); ElGamalKeyPair c(*k); return H(k->getSecretKey()) + " " + H(k->getPublicKey()) + " " + H(c.getSecretKey()) + " " + H(c.getPublicKey()) + " " + B(k->getPublicKey()->isFixedBase()); }
CMD("ctcopy") { auto x = ct(a[0], a[1]); auto c = x->clone(); ElGamalCiphertext d(*x); auto m = ElGamalCiphertext::make(*x->getPad(), *x->getData()); auto y = ct("1", "1"); *y = *x; return S(*c) + " " + S(d) + " " + S(*m) + " " + S(*y) + " " + S(*x) + " " + B(c->getPad() != x->getPad() && d.getPad() != x->getPad() && m->getPad() != x->getPad() && y->getPad() != x->getPad() && c->getData() != x->getData() && d.getData() != x->getData()); }
// ---- disjunctive proof
typedef DisjunctiveChaumPedersenProof DP;
static string S(const DP &p) { return H(p.getProofZeroPad()) + " " + H(p.getProofZeroData()) + " " + H(p.getProofOnePad()) + " " + H(p.getProofOneData()) + " " + H(p.getProofZeroChallenge()) + " " + H(p.getProofOneChallenge()) + " " + H(p.getChallenge()) + " " + H(p.getProofZeroResponse()) + " " + H(p.getProofOneResponse()); }
static unique_ptr<DP> dp(Args &a, size_t i) { return make_unique<DP>(Pe(a[i]), Pe(a[i + 1]), Pe(a[i + 2]), Pe(a[i + 3]), Qe(a[i + 4]), Qe(a[i + 5]), Qe(a[i + 6]), Qe(a[i + 7]), Qe(a[i + 8])); }
static unique_ptr<Triple> tri(const ElementModP &K, const string &e) { auto x = Qe(e); return make_unique<Triple>(x->clone(), g_pow_p(*x), pow_mod_p(K, *x)); }
static unique_ptr<Quadruple> quad(const ElementModP &K, const string &e1, const string &e2) { auto x = Qe(e1), y = Qe(e2); return make_unique<Quadruple>(x->clone(), y->clone(), g_pow_p(*x), mul_mod_p(*g_pow_p(*y), *pow_mod_p(K, *x))); }
static unique_ptr<TwoTriplesAndAQuadruple> ttq(const ElementModP &K, const string &r, const string &u, const string &v, const string &w) { return make_unique<TwoTriplesAndAQuadruple>(tri(K, r), tri(K, u), quad(K, v, w)); }
static string fin(const DP &p, const ElGamalCiphertext &c, const ElementModP &k, const ElementModQ &q) { DP &m = const_cast<DP &>(p); string s = S(p); bool b = m.isValid(c, k, q); bool b2 = m.isValid(c, k, q); return B(b) + B(b2) + " " + s + " " + S(c); }
// pad data r K q plaintext
CMD("djfresh") { auto c = ct(a[0], a[1]); auto r = Qe(a[2]); auto k = Pe(a[3]); auto q = Qe(a[4]); auto p = DP::make(*c, *r, *k, *q, U(a[5])); return fin(*p, *c, *k, *q); }
CMD("djseed") { auto c = ct(a[0], a[1]); auto r = Qe(a[2]); auto k = Pe(a[3]); auto q = Qe(a[4]); auto s = Qe(a[6]); auto p = DP::make(*c, *r, *k, *q, *s, U(a[5])); auto p2 = DP::make(*c, *r, *k, *q, *s, U(a[5])); return fin(*p, *c, *k, *q) + " " + B(S(*p) == S(*p2)); }
CMD("djpre") { auto c = ct(a[0], a[1]); auto k = Pe(a[3]); auto q = Qe(a[4]); auto p = DP::make_with_precomputed(*c, ttq(*k, a[2], a[6], a[7], a[8]), *q, U(a[5])); return fin(*p, *c, *k, *q); }
CMD("djvalid") { auto c = ct(a[0], a[1]); auto k = Pe(a[2]); auto q = Qe(a[3]); auto p = dp(a, 4); bool b = p->isValid(*c, *k, *q); return B(b) + " " + S(*p) + " " + S(*c); }
CMD("djcopy") { auto p = dp(a, 0); auto c = p->clone(); DP d(*p); string s = S(*c) + " " + S(d) + " " + S(*p); DP f(*p); f = *c; return s + " " + S(f) + " " + B(c->getChallenge() != p->getChallenge() && d.getChallenge() != p->getChallenge() && c->getProofOneData() != p->getProofOneData()); }
// ---- constant proof
typedef ConstantChaumPedersenProof CP;
static string S(const CP &p) { return H(p.getPad()) + " " + H(p.getData()) + " " + H(p.getChallenge()) + " " + H(p.getResponse()) + " " + std::to_string(p.getConstant()); }
// pad data r K seed q constant [e1 ... put into the triple queue through populate]
CMD("cpmake") { auto c = ct(a[0], a[1]); auto r = Qe(a[2]); auto k = Pe(a[3]); auto s = Qe(a[4]), q = Qe(a[5]);
    PrecomputeBufferContext::empty_queues();
    if (a.size() > 7) { PrecomputeBufferContext::init(1); PrecomputeBufferContext::populate(*k); }
    auto p = CP::make(*c, *r, *k, *s, *q, U(a[6])); PrecomputeBufferContext::empty_queues(); string t = S(*p); bool b = p->isValid(*c, *k, *q); return B(b) + " " + t + " " + S(*c); }
CMD("cpvalid") { auto c = ct(a[0], a[1]); auto k = Pe(a[2]); auto q = Qe(a[3]); CP p(Pe(a[4]), Pe(a[5]), Qe(a[6]), Qe(a[7]), U(a[8])); bool b = p.isValid(*c, *k, *q); return B(b) + " " + S(p) + " " + S(*c); }
CMD("cpcopy") { CP p(Pe(a[0]), Pe(a[1]), Qe(a[2]), Qe(a[3]), U(a[4])); CP c(p); CP d(Pe("1"), Pe("1"), Qe("1"), Qe("1"), 0); d = p; return S(c) + " " + S(d) + " " + S(p) + " " + B(c.getPad() != p.getPad() && d.getPad() != p.getPad()); }
// ---- nonces: constructor spec then operations;  hdr: "-" none, "s:<hex text>", "p:<hex>", "q:<hex>"
struct NonceObj { unique_ptr<ElementModP> p; unique_ptr<ElementModQ> q; unique_ptr<Nonces> n; };
static void mk(NonceObj &o, const string &seed, const string &h) { auto s = Qe(seed); if (h == "-") o.n = make_unique<Nonces>(*s); else if (h[0] == 's') o.n = make_unique<Nonces>(*s, NoncesHeaderType(dehex(h.substr(2)))); else if (h[0] == 'p') { o.p = Pe(h.substr(2)); o.n = make_unique<Nonces>(*s, NoncesHeaderType(o.p.get())); } else { o.q = Qe(h.substr(2)); o.n = make_unique<Nonces>(*s, NoncesHeaderType(o.q.get())); } }
CMD("nonces") { NonceObj o; mk(o, a[0], a[1]); string out;
    for (size_t i = 2; i < a.size(); i++) { auto &t = a[i]; auto c = t.find(':', 2); string x = t.substr(2, c == string::npos ? c : c - 2), y = c == string::npos ? "" : t.substr(c + 1);
        if (i > 2) out += " ";
        if (t[0] == 'g') out += H(o.n->get(U(x)));
        else if (t[0] == 'h') out += H(o.n->get(U(x), dehex(y)));
        else if (t[0] == 'n') out += H(o.n->next());
        else { auto v = o.n->get(U(x), U(y)); out += "["; for (auto &e : v) out += H(e) + ","; out += "]"; } }
    return out; }
// ---- hash: items  N | u:<n> | s:<hex> | p:/q:/P:/Q: (pointer / reference) R:/S: const refs | c:pad,data (CryptoHashable) | L<kind>:<x,y,...>
struct Pool { vector<unique_ptr<ElementModP>> p; vector<unique_ptr<ElementModQ>> q; vector<CT> c; };
static vector<string> split(const string &s, char d) { vector<string> r; size_t i = 0; if (s.empty()) return r; while (true) { size_t j = s.find(d, i); r.push_back(s.substr(i, j == string::npos ? j : j - i)); if (j == string::npos) break; i = j + 1; } return r; }
static CryptoHashableType item(const string &t, Pool &o) {
    char k = t[0]; string x = t.size() > 2 ? t.substr(2) : "";
    auto P1 = [&](const string &s) -> ElementModP * { if (s == "null") return nullptr; o.p.push_back(Pe(s)); return o.p.back().get(); };
    auto Q1 = [&](const string &s) -> ElementModQ * { if (s == "null") return nullptr; o.q.push_back(Qe(s)); return o.q.back().get(); };
    auto C1 = [&](const string &s) -> CryptoHashable * { if (s == "null") return nullptr; auto v = split(s, '/'); o.c.push_back(ct(v[0], v[1])); return o.c.back().get(); };
    switch (k) {
        case 'N': return nullptr;
        case 'u': return (uint64_t)U(x);
        case 's': return dehex(x);
        case 'b': return unhex(x);
        case 'p': return P1(x);
        case 'q': return Q1(x);
        case 'c': return C1(x);
        case 'P': return std::ref(*P1(x));
        case 'Q': return std::ref(*Q1(x));
        case 'C': return std::ref(*C1(x));
        case 'R': return std::cref(*P1(x));
        case 'S': return std::cref(*Q1(x));
        case 'D': return std::cref(*C1(x));
    }
    auto l = split(t.size() > 3 ? t.substr(3) : "", ',');
    switch (t[1]) {
        case 'u': { vector<uint64_t> v; for (auto &s : l) v.push_back(U(s)); return v; }
        case 's': { vector<string> v; for (auto &s : l) v.push_back(dehex(s == "-" ? "" : s)); return v; }
        case 'p': { vector<ElementModP *> v; for (auto &s : l) v.push_back(P1(s)); return v; }
        case 'q': { vector<ElementModQ *> v; for (auto &s : l) v.push_back(Q1(s)); return v; }
        case 'c': { vector<CryptoHashable *> v; for (auto &s : l) v.push_back(C1(s)); return v; }
        case 'P': { vector<reference_wrapper<ElementModP>> v; for (auto &s : l) v.push_back(*P1(s)); return v; }
        case 'Q': { vector<reference_wrapper<ElementModQ>> v; for (auto &s : l) v.push_back(*Q1(s)); return v; }
        case 'C': { vector<reference_wrapper<CryptoHashable>> v; for (auto &s : l) v.push_back(*C1(s)); return v; }
        case 'R': { vector<reference_wrapper<const ElementModP>> v; for (auto &s : l) v.push_back(*P1(s)); return v; }
        case 'S': { vector<reference_wrapper<const ElementModQ>> v; for (auto &s : l) v.push_back(*Q1(s)); return v; }
        default: { vector<reference_wrapper<const CryptoHashable>> v; for (auto &s : l) v.push_back(*C1(s)); return v; }
    }
}
CMD("hash") { Pool o; vector<CryptoHashableType> v; for (auto &t : a) v.push_back(item(t, o)); return H(hash_elems(v)) + " " + H(hash_elems(v)); }
CMD("hash1") { Pool o; return H(hash_elems(item(a[0], o))); }
// ---- hashed ElGamal: msg nonce K seed maxlen trunc [pre]
typedef HashedElGamalCiphertext HC;
static string hx(const vector<uint8_t> &v) { return v.empty() ? "-" : tohex(v); }
static vector<uint8_t> ux(const string &s) { return s == "-" ? vector<uint8_t>() : unhex(s); }
CMD("henc") { auto m = ux(a[0]); auto n = Qe(a[1]); auto k = Pe(a[2]); auto s = Qe(a[3]);
    PrecomputeBufferContext::empty_queues();
    if (a.size() > 6) { PrecomputeBufferContext::init(1); PrecomputeBufferContext::populate(*k); }
    unique_ptr<HC> c; try { c = hashedElgamalEncrypt(m, *n, *k, *s, (padded_data_size_t)U(a[4]), a[5] == "1"); } catch (...) { PrecomputeBufferContext::empty_queues(); throw; }
    PrecomputeBufferContext::empty_queues();
    return H(c->getPad()) + " " + hx(c->getData()) + " " + hx(c->getMac()) + " " + H(c->crypto_hash()) + " " + H(n) + " " + H(k) + " " + H(s); }
CMD("hdec") { HC c(Pe(a[0]), ux(a[1]), ux(a[2])); auto m = c.decrypt(*Qe(a[3]), *Qe(a[4]), a[5] == "1"); return hx(m) + " " + H(c.getPad()) + " " + hx(c.getData()) + " " + hx(c.getMac()); }
CMD("hccopy") { HC c(Pe(a[0]), ux(a[1]), ux(a[2])); HC d(c); auto e = c.clone(); HC f(Pe("1"), ux("00"), ux("00")); f = c; auto S = [](const HC &x) { return H(x.getPad()) + " " + hx(x.getData()) + " " + hx(x.getMac()); }; return S(d) + " " + S(*e) + " " + S(f) + " " + S(c) + " " + B(d.getPad() != c.getPad() && e->getPad() != c.getPad()); }
CMD("hceq") { HC c(Pe(a[0]), ux(a[1]), ux(a[2])), d(Pe(a[3]), ux(a[4]), ux(a[5])); return B(c == d) + B(c != d); }
// ---- precompute buffers
typedef PrecomputeBufferContext PB;
static string S(Triple &t) { return "T " + H(t.get_exp()) + " " + H(t.get_g_to_exp()) + " " + H(t.get_pubkey_to_exp()); }
static string S(Quadruple &t) { return "F " + H(t.get_exp1()) + " " + H(t.get_exp2()) + " " + H(t.get_g_to_exp1()) + " " + H(t.get_g_to_exp2_mult_by_pubkey_to_exp1()); }
static string S(TwoTriplesAndAQuadruple &t) { return S(*t.get_triple1()) + " " + S(*t.get_triple2()) + " " + S(*t.get_quad()); }
CMD("pbinit") { PB::init(U(a[0])); return std::to_string(PB::get_max_queue_size()); }
CMD("pbfill") { PB::populate(*Pe(a[0])); return std::to_string(PB::get_current_queue_size()); }
CMD("pbstop") { PB::stop_populate(); return "-"; }
CMD("pbclear") { PB::empty_queues(); return std::to_string(PB::get_current_queue_size()); }
CMD("pbsize") { return std::to_string(PB::get_current_queue_size()) + " " + std::to_string(PB::get_max_queue_size()); }
CMD("pbget") { auto t = PB::getTwoTriplesAndAQuadruple(); if (!t) return "null"; auto s = S(*t); auto c = t->clone(); TwoTriplesAndAQuadruple d(*t), e; e = *t; bool eq = S(*c) == s && S(d) == s && S(e) == s && S(*t) == s; TwoTriplesAndAQuadruple f(std::move(d)), g; g = std::move(e); return s + " " + B(eq && S(f) == s && S(g) == s); }
CMD("pbtriple") { auto t = PB::getTriple(); if (!t) return "null"; auto s = S(*t); auto c = t->clone(); Triple d(*t), e; e = *t; bool eq = S(*c) == s && S(d) == s && S(e) == s && S(*t) == s; Triple f(std::move(d)), g; g = std::move(e); return s + " " + B(eq && S(f) == s && S(g) == s); }
CMD("triple") { Triple t(*Pe(a[0])); return S(t); }
CMD("quad") { Quadruple t(*Pe(a[0])); auto s = S(t); auto c = t.clone(); Quadruple d(t), e; e = t; bool eq = S(*c) == s && S(d) == s && S(e) == s && S(t) == s; Quadruple f(std::move(d)), g; g = std::move(e); return s + " " + B(eq && S(f) == s && S(g) == s); }
