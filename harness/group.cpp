#include "common.hpp"
// every command also reports whether the operands are unchanged
CMD("addq") { auto x = Qe(a[0]), y = Qe(a[1]); auto r = add_mod_q(*x, *y); return H(r) + " " + H(x) + " " + H(y); }
CMD("subq") { auto x = Qe(a[0]), y = Qe(a[1]); auto r = sub_mod_q(*x, *y); return H(r) + " " + H(x) + " " + H(y); }
CMD("apbcq") { auto x = Qe(a[0]), y = Qe(a[1]), z = Qe(a[2]); auto r = a_plus_bc_mod_q(*x, *y, *z); return H(r) + " " + H(x) + " " + H(y) + " " + H(z); }
CMD("subfromq") { auto x = Qe(a[0]); auto r = sub_from_q(*x); return H(r) + " " + H(x); }
CMD("addqv") { vector<unique_ptr<ElementModQ>> v; vector<reference_wrapper<ElementModQ>> w; for (auto &s : a) v.push_back(Qe(s)); for (auto &e : v) w.push_back(ref(*e)); auto r = add_mod_q(w); string o = H(r); for (auto &e : v) o += " " + H(e); return o; }
CMD("addp") { auto x = Pe(a[0]), y = Pe(a[1]); auto r = add_mod_p(*x, *y); return H(r) + " " + H(x) + " " + H(y); }
CMD("mulp") { auto x = Pe(a[0]), y = Pe(a[1]); auto r = mul_mod_p(*x, *y); return H(r) + " " + H(x) + " " + H(y); }
CMD("modp") { auto x = Pe(a[0]); auto r = mod_p(*x); return H(r) + " " + H(x); }
CMD("mulpv") { vector<unique_ptr<ElementModP>> ps; vector<unique_ptr<ElementModQ>> qs; vector<ElementModPOrQ> v;
    for (auto &s : a) { if (s[0] == 'q') { qs.push_back(Qe(s.substr(2))); v.push_back(qs.back().get()); } else { ps.push_back(Pe(s.substr(2))); v.push_back(ps.back().get()); } }
    return H(mul_mod_p(v)); }
CMD("powpp") { auto x = Pe(a[0]), y = Pe(a[1]); auto r = pow_mod_p(*x, *y); return H(r) + " " + H(x) + " " + H(y); }
CMD("powpq") { auto x = Pe(a[0], a[2] == "1"); auto y = Qe(a[1]); auto r = pow_mod_p(*x, *y); return H(r) + " " + H(x) + " " + H(y); }
CMD("gpowq") { return H(g_pow_p(*Qe(a[0]))); }
CMD("gpowp") { return H(g_pow_p(*Pe(a[0]))); }
CMD("consts") { return H(P()) + " " + H(Q()) + " " + H(G()) + " " + H(R()) + " " + H(ZERO_MOD_P()) + " " + H(ONE_MOD_P()) + " " + H(TWO_MOD_P()) + " " + H(ZERO_MOD_Q()) + " " + H(ONE_MOD_Q()) + " " + H(TWO_MOD_Q()); }
// comparisons, conversions
CMD("cmpq") { auto x = Qe(a[0]), y = Qe(a[1]); return B(*x == *y) + B(*x != *y) + B(*x < *y); }
CMD("cmpp") { auto x = Pe(a[0]), y = Pe(a[1]); return B(*x == *y) + B(*x != *y) + B(*x < *y); }
CMD("infoq") { auto x = Qe(a[0]); auto c = x->clone(); ElementModQ d(*x); return B(x->isInBounds()) + " " + x->toHex() + " " + tohex(x->toBytes()) + " " + H(x->toElementModP()) + " " + H(c) + " " + H(d) + " " + H(x); }
CMD("infop") { auto x = Pe(a[0], a.size() > 1); auto c = x->clone(); ElementModP d(*x); string h1 = x->toHex(), h2 = x->toHex(); return B(x->isInBounds()) + " " + h1 + " " + tohex(x->toBytes()) + " " + h2 + " " + H(c) + " " + H(d) + " " + H(x) + " " + B(c->isFixedBase()) + B(d.isFixedBase()) + B(x->isFixedBase()); }
CMD("residue") { return B(Pe(a[0])->isValidResidue()); }
CMD("mkq") { uint64_t l[MAX_Q_LEN]; limbs(a[0], l); return H(make_unique<ElementModQ>(l, a[1] == "1")); }
CMD("mkp") { uint64_t l[MAX_P_LEN]; limbs(a[0], l); return H(make_unique<ElementModP>(l, a[1] == "1")); }
CMD("mkqv") { vector<uint64_t> v; for (size_t i = 1; i < a.size(); i++) v.push_back(U(a[i])); return H(make_unique<ElementModQ>(v, a[0] == "1")); }
CMD("mkpv") { vector<uint64_t> v; for (size_t i = 1; i < a.size(); i++) v.push_back(U(a[i])); return H(make_unique<ElementModP>(v, a[0] == "1")); }
CMD("fromhexq") { return H(ElementModQ::fromHex(dehex(a[0]), a[1] == "1")); }
CMD("fromhexp") { return H(ElementModP::fromHex(dehex(a[0]), a[1] == "1")); }
CMD("fromuq") { return H(ElementModQ::fromUint64(U(a[0]), a[1] == "1")); }
CMD("fromup") { return H(ElementModP::fromUint64(U(a[0]), a[1] == "1")); }
CMD("bytesq") { return H(bytes_to_q(unhex(a[0] == "-" ? "" : a[0]), a[1] == "1")); }
CMD("bytesp") { return H(bytes_to_p(unhex(a[0] == "-" ? "" : a[0]), a[1] == "1")); }
CMD("randq") { return H(rand_q()); }
CMD("randp") { return H(rand_p()); }
