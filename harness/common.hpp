// Command interpreter over the real library.  One command per line; answers start with "@@".
#pragma once
#include <electionguard/ballot.hpp>
#include <electionguard/ballot_code.hpp>
#include <electionguard/ballot_compact.hpp>
#include <electionguard/chaum_pedersen.hpp>
#include <electionguard/constants.h>
#include <electionguard/election.hpp>
#include <electionguard/elgamal.hpp>
#include <electionguard/encrypt.hpp>
#include <electionguard/group.hpp>
#include <electionguard/hash.hpp>
#include <electionguard/manifest.hpp>
#include <electionguard/precompute_buffers.hpp>
#include <electionguard/nonces.hpp>
#include <functional>
#include <map>
#include <string>
#include <vector>
#include <array>
#include <memory>
#include <cstring>
using namespace electionguard;
using std::string; using std::vector; using std::unique_ptr; using std::make_unique; using std::ref; using std::reference_wrapper;
typedef vector<string> Args;
typedef std::function<string(Args &)> Fn;
std::map<string, Fn> &registry();
struct Reg { Reg(const char *n, Fn f) { registry()[n] = f; } };
#define CAT2(a,b) a##b
#define CAT(a,b) CAT2(a,b)
#define CMD(name) static string CAT(cmd_, __LINE__)(Args &); static Reg CAT(reg_, __LINE__)(name, CAT(cmd_, __LINE__)); static string CAT(cmd_, __LINE__)(Args &a)
// independent hex <-> limbs
inline vector<uint8_t> unhex(const string &s) { vector<uint8_t> r; auto v = [](char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }; for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back(v(s[i]) * 16 + v(s[i + 1])); return r; }
inline string tohex(const uint8_t *p, size_t n) { static const char *d = "0123456789abcdef"; string r; for (size_t i = 0; i < n; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; } return r; }
inline string tohex(const vector<uint8_t> &v) { return tohex(v.data(), v.size()); }
inline string dehex(const string &s) { auto v = unhex(s); return string(v.begin(), v.end()); }
inline string enhex(const string &s) { return tohex((const uint8_t *)s.data(), s.size()); }
template <size_t N> void limbs(string s, uint64_t (&o)[N]) { if (s.size() % 2) s = "0" + s; auto b = unhex(s); memset(o, 0, sizeof o); for (size_t i = 0; i < b.size() && i < N * 8; i++) { size_t k = b.size() - 1 - i; o[i / 8] |= (uint64_t)b[k] << (8 * (i % 8)); } }
inline string limbhex(const uint64_t *p, size_t n) { char t[20]; string r; for (size_t i = n; i-- > 0;) { snprintf(t, sizeof t, "%016lx", (unsigned long)p[i]); r += t; } size_t k = r.find_first_not_of('0'); return k == string::npos ? "0" : r.substr(k); }
inline unique_ptr<ElementModQ> Qe(const string &s) { uint64_t a[MAX_Q_LEN]; limbs(s, a); return make_unique<ElementModQ>(a, true); }
inline unique_ptr<ElementModP> Pe(const string &s, bool fixed = false) { uint64_t a[MAX_P_LEN]; limbs(s, a); return make_unique<ElementModP>(a, true, fixed); }
inline string H(const ElementModQ &e) { return limbhex(e.get(), MAX_Q_LEN); }
inline string H(const ElementModP &e) { return limbhex(e.get(), MAX_P_LEN); }
inline string H(const ElementModQ *e) { return e ? H(*e) : "null"; }
inline string H(const ElementModP *e) { return e ? H(*e) : "null"; }
inline string H(const unique_ptr<ElementModQ> &e) { return H(e.get()); }
inline string H(const unique_ptr<ElementModP> &e) { return H(e.get()); }
inline uint64_t U(const string &s) { return std::stoull(s, nullptr, 0); }
inline string B(bool b) { return b ? "1" : "0"; }
