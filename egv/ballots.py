"""builders and contracts for ballots (layer 2), shared by C09-C11, C15, C16, C21"""
from common import *
import l2
import star

DP_FIELDS = ('getProofZeroPad', 'getProofZeroData', 'getProofOnePad', 'getProofOneData', 'getProofZeroChallenge', 'getProofOneChallenge', 'getChallenge', 'getProofZeroResponse', 'getProofOneResponse')
CP_FIELDS = ('getPad', 'getData', 'getChallenge', 'getResponse')
ENCRYPT_TUS = ['src/electionguard/encrypt.cpp', 'src/electionguard/manifest.cpp', 'src/electionguard/election.cpp', 'src/electionguard/ballot_compact.cpp']
BALLOT_TUS = ['src/electionguard/ballot.cpp', 'src/electionguard/ballot_code.cpp', 'src/electionguard/elgamal.cpp', 'src/electionguard/chaum_pedersen.cpp',
              'src/electionguard/nonces.cpp', 'src/electionguard/precompute_buffers.cpp']
UQ, UP_ = 'std::unique_ptr<ElementModQ>', 'std::unique_ptr<ElementModP>'

def S(name):
    """an arbitrary string"""
    return SymStr(('var', name))

class B(L2):
    def UO(self, loc):
        return Cell(UPtr(Ptr(loc) if loc is not None else NULL))
    def V(self, locs):
        """vector of unique_ptr"""
        if isinstance(locs, star.StarList):
            return Cell(Vec(star.mapped(locs, self.UO)))
        return Cell(Vec([self.UO(l) for l in locs]))
    def dproof(self, tag):
        f = [patom(tag + n, order_q=False) for n in ('a0', 'b0', 'a1', 'b1')] + [qatom(tag + n) for n in ('c0', 'c1', 'c', 'v0', 'v1')]
        return self.make('DisjunctiveChaumPedersenProof', [self.U(t) for t in f], [UP_] * 4 + [UQ] * 5)
    def cproof(self, tag, const=1):
        return self.make('ConstantChaumPedersenProof', [self.U(patom(tag + 'a')), self.U(patom(tag + 'b')), self.U(qatom(tag + 'c')), self.U(qatom(tag + 'v')), Cell(const)], [UP_, UP_, UQ, UQ, 'uint64_t'])
    def psel(self, oid, vote, ph=False, wi=''):
        return self.make('PlaintextBallotSelection', [Cell(oid), Cell(vote), Cell(ph), Cell(wi)], ['std::string', 'uint64_t', 'bool', 'std::string'])
    def pcontest(self, oid, sels):
        return self.make('PlaintextBallotContest', [Cell(oid), self.V(sels)], ['const std::string &', 'std::vector<std::unique_ptr<PlaintextBallotSelection>>'])
    def pballot(self, oid, style, contests):
        return self.make('PlaintextBallot', [Cell(oid), Cell(style), self.V(contests)], ['const std::string &', 'const std::string &', 'std::vector<std::unique_ptr<PlaintextBallotContest>>'])
    def csel(self, oid, seq, dh, ct, ph=False, nonce=None, ch=None, proof=None, ext=None):
        return self.make('CiphertextBallotSelection', [Cell(oid), Cell(seq), self.E(dh), self.UO(self.ct(*ct)), Cell(ph), self.U(nonce), self.U(ch), self.UO(proof), self.UO(self.ct(*ext) if ext else None)],
                         ['const std::string &', 'uint64_t', 'const ElementModQ &', 'std::unique_ptr<ElGamalCiphertext>', 'bool', UQ, UQ, 'std::unique_ptr<DisjunctiveChaumPedersenProof>', 'std::unique_ptr<ElGamalCiphertext>'])
    def hashed(self, tag):
        eng = self.eng
        mk = lambda v, n: Cell(Buf(eng, 8, n, v))
        d, m = z3.Int(tag + 'data'), z3.Int(tag + 'mac')
        eng.fact(z3.And(d >= 0, d < 2**64, m >= 0, m < 2**256))
        return self.make('HashedElGamalCiphertext', [self.U(patom(tag + 'pad')), mk(d, 8), mk(m, 32)], [UP_, 'std::vector<uint8_t>', 'std::vector<uint8_t>'])
    def ccontest(self, oid, seq, dh, sels, nonce=None, acc=None, ch=None, proof=None, hashed=None):
        return self.make('CiphertextBallotContest', [Cell(oid), Cell(seq), self.E(dh), self.V(sels), self.U(nonce), self.UO(self.ct(*acc)), self.U(ch), self.UO(proof), self.UO(hashed)],
                         ['const std::string &', 'uint64_t', 'const ElementModQ &', 'std::vector<std::unique_ptr<CiphertextBallotSelection>>', UQ, 'std::unique_ptr<ElGamalCiphertext>', UQ, 'std::unique_ptr<ConstantChaumPedersenProof>', 'std::unique_ptr<HashedElGamalCiphertext>'])
    def cballot(self, oid, style, mh, seed, contests, code, ts, nonce, ch):
        return self.make('CiphertextBallot', [Cell(oid), Cell(style), self.E(mh), self.U(seed), self.V(contests), self.U(code), Cell(ts), self.U(nonce), self.U(ch)],
                         ['const std::string &', 'const std::string &', 'const ElementModQ &', UQ, 'std::vector<std::unique_ptr<CiphertextBallotContest>>', UQ, 'uint64_t', UQ, UQ])
    # ---- manifest
    def sdesc(self, oid, cand, seq):
        return self.make('SelectionDescription', [Cell(oid), Cell(cand), Cell(seq)], ['const std::string &', 'const std::string &', 'const uint64_t'])
    def cdesc(self, oid, district, seq, elected, name, sels, allowed=None, var=1, cls='ContestDescription', extra=()):
        if allowed is None:
            a = [Cell(oid), Cell(district), Cell(seq), Cell(var), Cell(elected), Cell(name), self.V(sels)]
            t = ['const std::string &', 'const std::string &', 'const uint64_t', 'const VoteVariationType', 'const uint64_t', 'const std::string &', 'std::vector<std::unique_ptr<SelectionDescription>>']
        else:
            a = [Cell(oid), Cell(district), Cell(seq), Cell(var), Cell(elected), Cell(allowed), Cell(name), self.UO(None), self.UO(None), self.V(sels)]
            t = ['const std::string &', 'const std::string &', 'const uint64_t', 'const VoteVariationType', 'const uint64_t', 'const uint64_t', 'const std::string &', 'std::unique_ptr<InternationalizedText>', 'std::unique_ptr<InternationalizedText>', 'std::vector<std::unique_ptr<SelectionDescription>>']
        for phs in extra:
            a.append(self.V(phs))
            t.append('std::vector<std::unique_ptr<SelectionDescription>>')
        return self.make(cls, a, t)
    def cdescp(self, oid, district, seq, elected, name, sels, phs, allowed=None, var=1):
        return self.cdesc(oid, district, seq, elected, name, sels, allowed, var, 'ContestDescriptionWithPlaceholders', (phs,))
    def gpu(self, oid, name='unit', typ=15):
        return self.make('GeopoliticalUnit', [Cell(oid), Cell(name), Cell(typ)], ['const std::string &', 'const std::string &', 'const ReportingUnitType'])
    def party(self, oid):
        return self.make('Party', [Cell(oid)], ['const std::string &'])
    def cand(self, oid, party='', writein=False):
        return self.make('Candidate', [Cell(oid), Cell(party), Cell(writein)], ['const std::string &', 'const std::string &', 'bool'])
    def style(self, oid, gps):
        return self.make('BallotStyle', [Cell(oid), Cell(Vec(gps if isinstance(gps, star.StarList) else [Cell(g) for g in gps]))], ['const std::string &', 'std::vector<std::string>'])
    def imanifest(self, contests, styles, mh, gps=(), cands=()):
        return self.make('InternalManifest', [self.V(gps), self.V(cands), self.V(contests), self.V(styles), self.E(mh)],
                         ['std::vector<std::unique_ptr<GeopoliticalUnit>>', 'std::vector<std::unique_ptr<Candidate>>', 'std::vector<std::unique_ptr<ContestDescriptionWithPlaceholders>>', 'std::vector<std::unique_ptr<BallotStyle>>', 'const ElementModQ &'])
    def context(self, K, mh, c=None):
        f = [f for f in self.prog.funcs[NS + 'CiphertextElectionContext::make'] if f.body is not None and 'string &' not in f.type and 'ContextConfiguration' not in f.type and 'unordered_map' not in f.type]
        return Cell(self.obj(self.eng.call_function(f[0], None, [Cell(5), Cell(3), self.U(K), self.U(c if c is not None else qatom('commitment')), self.U(mh)])))
    def device(self, d='dev'):
        return self.make('EncryptionDevice', [Cell(11), Cell(12), Cell(13), Cell(S('location'))], ['const uint64_t', 'const uint64_t', 'const uint64_t', 'const std::string &'])
    # ---- views
    def refs(self, vec):
        v = vec.get() if hasattr(vec, 'get') else vec
        return [self.obj(c.get()) for c in v.items]
    def ctkey(self, c):
        return (self.g(c, 'getPad'), self.g(c, 'getData')) if self.obj(c) is not None else None
    def dkey(self, p):
        p = self.obj(p)
        return None if p is None else tuple(self.g(p, n) for n in DP_FIELDS)
    def ckey(self, p):
        p = self.obj(p)
        return None if p is None else tuple(self.g(p, n) for n in CP_FIELDS) + (self.get(p, 'getConstant'),)

def ctH(ct):
    return l2.hash_term((('hexP', ct[0]), ('hexP', ct[1])))
def strnode(s):
    return s if isinstance(s, str) else ('str', s.node)
def selH(oid, seed, ct):
    return l2.hash_term((strnode(oid), ('hexQ', seed), ('hexQ', ctH(ct))))
def listH(oid, seed, hs):
    return l2.hash_term((strnode(oid), ('hexQ', seed)) + tuple(('hexQ', x) for x in hs))
def many(eng, name, loc, key=None, order='stored', upper=None):
    """any number of members, of which loc is that at an arbitrary index (key: its sequence order)"""
    root = star.Root(eng, name, key=key, order=order, upper=upper)
    return star.StarList([(loc, root)]), root
def listH_any(oid, seed, root, x, order='ascending'):
    """the hash over the hashes x of any number of members"""
    return l2.hash_term((strnode(oid), ('hexQ', seed), ('star', root.base, order, ('hexQ', x))))
def nonempty(eng, *strs):
    for s in strs:
        eng.assume(l2.neg(eng.str_compare('==', s, '')))

def proof_contracts(h):
    """the proof verifiers as the predicates established by C06 and C08"""
    eng = h.eng
    def dv(eng, this, a, f):
        o = h.obj(this)
        return l2.bool_atom('dvalid', h.dkey(o), h.ctkey(a[0]), h.el(a[1]), h.el(a[2]))
    def cv(eng, this, a, f):
        o = h.obj(this)
        k = h.ckey(o)
        return l2.bool_atom('cvalid', k[:4] + (str(k[4]),), h.ctkey(a[0]), h.el(a[1]), h.el(a[2]))
    eng.contracts[NS + 'DisjunctiveChaumPedersenProof::isValid'] = dv
    eng.contracts[NS + 'ConstantChaumPedersenProof::isValid'] = cv
def dvalid(h, proof, ct, K, q):
    return l2.bool_atom('dvalid', h.dkey(proof), ct, K, q)
def cvalid(h, proof, ct, K, q):
    k = h.ckey(proof)
    return l2.bool_atom('cvalid', k[:4] + (str(k[4]),), ct, K, q)

def clock(eng):
    """the system clock: any time"""
    n = [0]
    def now(eng, this, a, f):
        v = eng.fresh('time')
        eng.fact(z3.And(v >= 0, v < 2**63))
        return v
    eng.contracts[NS + 'getSystemTimestamp'] = now
