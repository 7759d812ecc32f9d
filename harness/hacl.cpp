// The multi-limb routines themselves, on raw words.
#include "common.hpp"
extern "C" {
#include "Hacl_Bignum256.h"
#include "Hacl_Bignum4096.h"
#include "Hacl_GenericField64.h"
}
static void put(uint64_t *o, size_t n, const string &s0) {
    string s = s0.size() % 2 ? "0" + s0 : s0;
    auto b = unhex(s);
    memset(o, 0, n * 8);
    for (size_t i = 0; i < b.size() && i < n * 8; i++) { size_t k = b.size() - 1 - i; o[i / 8] |= (uint64_t)b[k] << (8 * (i % 8)); }
}
struct Api {
    size_t n;
    uint64_t (*add)(uint64_t *, uint64_t *, uint64_t *), (*sub)(uint64_t *, uint64_t *, uint64_t *), (*lt)(uint64_t *, uint64_t *), (*eq)(uint64_t *, uint64_t *);
    void (*mul)(uint64_t *, uint64_t *, uint64_t *), (*sqr)(uint64_t *, uint64_t *);
    void (*addmod)(uint64_t *, uint64_t *, uint64_t *, uint64_t *);
    uint64_t *(*from)(uint32_t, uint8_t *);
    void (*to)(uint64_t *, uint8_t *);
    bool (*mod)(uint64_t *, uint64_t *, uint64_t *);
    void (*modp)(Hacl_Bignum_MontArithmetic_bn_mont_ctx_u64 *, uint64_t *, uint64_t *);
    Hacl_Bignum_MontArithmetic_bn_mont_ctx_u64 *(*ctx)(uint64_t *);
    void (*exp)(Hacl_Bignum_MontArithmetic_bn_mont_ctx_u64 *, uint64_t *, uint32_t, uint64_t *, uint64_t *);
};
#define API(w, k) Api{k, Hacl_Bignum##w##_add, Hacl_Bignum##w##_sub, Hacl_Bignum##w##_lt_mask, Hacl_Bignum##w##_eq_mask, Hacl_Bignum##w##_mul, \
    Hacl_Bignum##w##_sqr, Hacl_Bignum##w##_add_mod, Hacl_Bignum##w##_new_bn_from_bytes_be, Hacl_Bignum##w##_bn_to_bytes_be, Hacl_Bignum##w##_mod, \
    Hacl_Bignum##w##_mod_precomp, Hacl_Bignum##w##_mont_ctx_init, Hacl_Bignum##w##_mod_exp_consttime_precomp}
static const Api A256 = API(256, 4), A4096 = API(4096, 64);
static Hacl_Bignum_MontArithmetic_bn_mont_ctx_u64 *ctxOf(const Api &A) {
    static std::map<size_t, Hacl_Bignum_MontArithmetic_bn_mont_ctx_u64 *> m;
    auto &k = m[A.n];
    if (!k) k = A.ctx(A.n == 4 ? const_cast<uint64_t *>(Q().get()) : const_cast<uint64_t *>(P().get()));
    return k;
}
// hacl WIDTH OP ALIAS A [B]: result words (poisoned beforehand, guard words behind), then the operands after the call
CMD("hacl") {
    const Api &A = a[0] == "256" ? A256 : A4096;
    const string &op = a[1], &al = a[2];
    size_t n = A.n;
    vector<uint64_t> x(2 * n + 2, 0xA5A5A5A5A5A5A5A5ull), y(2 * n + 2, 0xA5A5A5A5A5A5A5A5ull), r(2 * n + 2, 0x5A5A5A5A5A5A5A5Aull);
    bool wide = op == "mod" || op == "modpre";
    put(x.data(), wide ? 2 * n : n, a[3]);
    put(y.data(), n, a.size() > 4 ? a[4] : "0");
    uint64_t *px = x.data(), *py = al == "ab" || al == "abr" ? px : y.data(), *pr = al == "ra" || al == "abr" ? px : al == "rb" ? y.data() : r.data();
    string ret = "0";
    size_t len = n;
    if (op == "add") ret = limbhex(std::array<uint64_t, 1>{A.add(px, py, pr)}.data(), 1);
    else if (op == "sub") ret = limbhex(std::array<uint64_t, 1>{A.sub(px, py, pr)}.data(), 1);
    else if (op == "lt") { ret = limbhex(std::array<uint64_t, 1>{A.lt(px, py)}.data(), 1); len = 0; }
    else if (op == "eq") { ret = limbhex(std::array<uint64_t, 1>{A.eq(px, py)}.data(), 1); len = 0; }
    else if (op == "mul") { A.mul(px, py, pr); len = 2 * n; }
    else if (op == "sqr") { A.sqr(px, pr); len = 2 * n; }
    else if (op == "addmod") A.addmod(n == 4 ? const_cast<uint64_t *>(Q().get()) : const_cast<uint64_t *>(P().get()), px, py, pr);
    else if (op == "mod") ret = B(A.mod(n == 4 ? const_cast<uint64_t *>(Q().get()) : const_cast<uint64_t *>(P().get()), px, pr));
    else if (op == "modpre") A.modp(ctxOf(A), px, pr);
    else if (op == "exp") A.exp(ctxOf(A), px, (uint32_t)U(a[5]), py, pr);
    else if (op == "tofield") Hacl_GenericField64_to_field(ctxOf(A), px, pr);
    else if (op == "fromfield") Hacl_GenericField64_from_field(ctxOf(A), px, pr);
    else if (op == "fieldmul") Hacl_GenericField64_mul(ctxOf(A), px, py, pr);
    else throw std::runtime_error("op");
    bool guard = x[2 * n] == 0xA5A5A5A5A5A5A5A5ull && y[2 * n] == 0xA5A5A5A5A5A5A5A5ull && y[n] == 0xA5A5A5A5A5A5A5A5ull && (wide || x[n] == 0xA5A5A5A5A5A5A5A5ull) &&
                 (pr != r.data() || r[len] == 0x5A5A5A5A5A5A5A5Aull);
    return ret + " " + (len ? limbhex(pr, len) : "0") + " " + limbhex(px, wide ? 2 * n : n) + " " + limbhex(py, n) + " " + B(guard);
}
CMD("haclfrom") {  // WIDTH bytes
    const Api &A = a[0] == "256" ? A256 : A4096;
    auto b = unhex(a[1]);
    uint64_t *p = A.from((uint32_t)b.size(), b.data());
    if (!p) return "null";
    string s = limbhex(p, (b.size() + 7) / 8);
    free(p);
    return s + " " + tohex(b);
}
CMD("haclto") {
    const Api &A = a[0] == "256" ? A256 : A4096;
    vector<uint64_t> x(A.n);
    put(x.data(), A.n, a[1]);
    vector<uint8_t> o(8 * A.n + 8, 0x5A);
    A.to(x.data(), o.data());
    return tohex(o) + " " + limbhex(x.data(), A.n);
}
