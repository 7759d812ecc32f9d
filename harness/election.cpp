#include "common.hpp"
CMD("ctx") {
    bool hexed = a[0] == "1", cfg = a[1] == "1", ext = a[2] == "1"; uint64_t n = U(a[3]), k = U(a[4]);
    std::unordered_map<string, string> x{{"a", "1"}, {"key two", "x|y"}};
    auto K = Pe(a[5]); auto c = Qe(a[6]), m = Qe(a[7]);
    auto C = [&] { return make_unique<ContextConfiguration>(a[8] == "1", U(a[9])); };
    typedef CiphertextElectionContext X; unique_ptr<X> r;
    if (hexed) { string kh = K->toHex(), ch = c->toHex(), mh = m->toHex();
        if (cfg && ext) r = X::make(n, k, kh, ch, mh, C(), x); else if (cfg) r = X::make(n, k, kh, ch, mh, C()); else if (ext) r = X::make(n, k, kh, ch, mh, x); else r = X::make(n, k, kh, ch, mh); }
    else if (cfg && ext) r = X::make(n, k, move(K), move(c), move(m), C(), x); else if (cfg) r = X::make(n, k, move(K), move(c), move(m), C()); else if (ext) r = X::make(n, k, move(K), move(c), move(m), x); else r = X::make(n, k, move(K), move(c), move(m));
    auto d = r->getExtendedData(); string xs = std::to_string(d.size()); if (d.count("a")) xs += ":" + d["a"] + ":" + d["key two"];
    return std::to_string(r->getNumberOfGuardians()) + " " + std::to_string(r->getQuorum()) + " " + H(r->getElGamalPublicKey()) + " " + H(r->getCommitmentHash()) + " " + H(r->getManifestHash()) + " " + H(r->getCryptoBaseHash()) + " " + H(r->getCryptoExtendedBaseHash()) + " " + B(r->getConfiguration()->getAllowOverVotes()) + " " + std::to_string(r->getConfiguration()->getMaxNumberOfBallots()) + " " + enhex(xs);
}
