"""write harness/facade_gen.cpp: per entry point of props/C23_contract.json, a comparison of the C interface with the operation the contract names.
Derived from the contract and the declarations; re-run after the contract changes."""
import sys, json, re
sys.path[:0] = ['/verif/egv', '/verif/props', '/verif']
import C23
K = json.load(open('/verif/props/C23_contract.json'))
hand = set(re.findall(r'^FT\((\w+)\)', open('/verif/harness/facade.cpp').read(), re.M))
decl, rets = {}, {}
for f in C23.FILES:
    for n, d in C23.unit(f).entries.items():
        if 'previousDecl' not in d:
            K.pop(n, None)     # not the function the header declares: C++ linkage, out of reach of a C program
            continue
        rets[n] = d['type']['qualType'].split('(')[0].strip()
        decl[n] = [(p.get('name'), p['type']['qualType']) for p in d.get('inner', ()) if p.get('kind') == 'ParmVarDecl']
CLS = {}
for n, v in K.items():
    if n.endswith('_free') and v['success'] and v['success'][0]['effects'] and v['success'][0]['effects'][0][1] == 'delete':
        CLS[decl[n][0][1].split()[0]] = v['success'][0]['effects'][0][2][1]
HEAVY = set('Manifest InternalManifest CiphertextBallot CiphertextBallotContest CiphertextBallotSelection SubmittedBallot CompactPlaintextBallot CompactCiphertextBallot CiphertextElectionContext EncryptionDevice EncryptionMediator PlaintextBallot ElGamalKeyPair'.split())
ENUM = {'eg_vote_variation_type_t': 'VoteVariationType', 'eg_election_type_t': 'ElectionType', 'eg_reporting_unit_type_t': 'ReportingUnitType', 'eg_ballot_box_state_t': 'BallotBoxState'}
SCOPE = {'getBallotCode': 'BallotCode::', 'getHashForDevice': 'BallotCode::'}
class No(Exception):
    pass
def klass(t):
    b = t.replace('const ', '').split()[0]
    if b not in CLS:
        raise No('class of %s' % t)
    return CLS[b]
def short(c):
    return {'CiphertextElectionContext': 'Context', 'ContestDescriptionWithPlaceholders': 'CDP'}.get(c, c)
def gen(n):
    ps = decl[n]
    v = K[n]
    x = (v['success'] or v['value'])[0]
    outs = {int(i) for i in x.get('out', {})}
    sigs = [x['out'][str(i)] for i in sorted(outs)] if outs else [x.get('ret')]
    lines = []
    if x['effects']:
        e = x['effects'][0]
        if len(x['effects']) != 1 or e[1] not in ('delete', 'delete[]', 'free'):
            raise No('effects')
        t = ps[0][1]
        if e[1] == 'delete':
            c = short(klass(t))
            lines += ['auto p = mk<%s>(k).release();' % c, 'status(false, %s((%s)p));' % (n, t)]
        elif e[1] == 'free':
            lines += ['status(false, %s((%s)malloc(8)));' % (n, t)]
        else:
            lines += ['status(false, %s((%s)new uint8_t[8]));' % (n, t)]
        lines += ['if (%s(nullptr) == ELECTIONGUARD_STATUS_SUCCESS) FAIL("success on a null handle");' % n]
        return lines
    # arrays and their counts
    arrays, counts = {}, {}
    def scan(s):
        if isinstance(s, list):
            if s[:1] == ['each'] and s[1][0] == 'upto' and s[1][1][0] == 'p' and s[2][0] == 'added' and s[2][1][0] == 'at' and s[2][1][1][0] == 'p':
                arrays[s[2][1][1][1]] = s[1][1][1]
                counts[s[1][1][1]] = s[2][1][1][1]
            if s[:1] == ['range']:
                arrays[s[1][1]] = s[2][1]
                counts[s[2][1]] = s[1][1]
            for y in s:
                scan(y)
    scan(sigs)
    decls, call = [], []
    loop = None
    for i, (nm, t) in enumerate(ps):
        u = t.replace('const ', '').strip()
        if i in outs:
            b = t[:-1].strip() if t.endswith('*') else None
            decls.append('%s o%d{};' % (b.replace('const char *', 'const char *'), i))
            call.append('&o%d' % i)
        elif i in counts:
            call.append('v%d.size()' % counts[i])
        elif i in arrays:
            if u == 'char **':
                decls += ['vector<string> w%d; for (int i = 0; i < (k == 5 ? 45 : k * 3); i++) w%d.push_back(sample(k, 50 + i));' % (i, i), 'vector<const char *> v%d; for (auto &s : w%d) v%d.push_back(s.c_str());' % (i, i, i)]
                call.append('(%s)v%d.data()' % (t, i))
            elif u == 'uint8_t *':
                decls.append('vector<uint8_t> v%d = BYTES;' % i)
                call.append('(%s)v%d.data()' % (t, i))
            else:
                c = short(klass(t))
                decls += ['vector<%s *> v%d, d%d; for (int i = 0; i < (k == 5 ? 45 : k * 2); i++) { v%d.push_back(mk<%s>(k + i).release()); d%d.push_back(mk<%s>(k + i).release()); }' % (c, i, i, i, c, i, c)]
                call.append('(%s)v%d.data()' % (t, i))
        elif u == 'char *':
            decls.append('string s%d = %s;' % (i, 'TEXT' if 'from_json' in n else 'HEX' if 'from_hex' in n else 'sample(k, %d)' % (60 + i) if not n.startswith('eg_internal_manifest_get_ballot_style') else 'k == 1 ? "none" : "style"'))
            call.append('(%s)s%d.c_str()' % (t, i))
        elif u in ('uint64_t', 'int'):
            if 'at_index' in n:
                decls.append('uint64_t n%d = idx;' % i)
                loop = i
            else:
                decls.append('uint64_t n%d = %s;' % (i, 'k & 1' if nm in ('in_plaintext', 'in_vote') else '%d + k' % (3 + i)))
            call.append('n%d' % i)
        elif u == 'bool':
            decls.append('bool n%d = (k >> %d) & 1;' % (i, i % 2))
            call.append('n%d' % i)
        elif u in ENUM:
            decls.append('%s n%d = (%s)(1 + k %% 3);' % (ENUM[u], i, ENUM[u]))
            call.append('(%s)n%d' % (u, i))
        elif u.startswith('eg_') and u.endswith('*') and not u.endswith('**'):
            c = short(klass(t))
            if klass(t) in HEAVY:
                decls.append('auto a%d = &ob<%s>(k %% 4), b%d = a%d;' % (i, c, i, i))
            else:
                kk = {'in_nonce': 'k, k + 2', 'in_seed': 'k, 5'}.get(nm, 'k, k + %d' % i if i else 'k, k')
                decls.append('auto a%d = arg<%s>(%s).release(), b%d = arg<%s>(%s).release();' % (i, c, kk, i, c, kk))
            call.append('(%s)a%d' % (t, i))
        else:
            raise No('parameter %s' % t)
    def ex(s, root=False):
        k = s[0]
        if k == 'p':
            i = s[1]
            nm, t = ps[i]
            u = t.replace('const ', '').strip()
            if u == 'char *':
                return 's%d' % i
            if u in ('uint64_t', 'int', 'bool') or u in ENUM:
                if nm in ('in_start_date', 'in_end_date'):
                    return 'std::chrono::system_clock::time_point(std::chrono::milliseconds(n%d))' % i
                return 'n%d' % i
            return 'A<%s>{b%d}' % (short(klass(t)), i)
        if k in ('true', 'narrow'):
            return ex(s[-1])
        if k == 'not':
            return '!%s' % ex(s[1])
        if k == 'unit':
            return ex(s[2])
        if k == 'const':
            return {'null': 'nullptr'}.get(s[1], s[1])
        if k == 'size':
            return '%s.size()' % ex(s[1])
        if k == 'at':
            return '%s.at(%s)' % (ex(s[1]), ex(s[2]))
        if k == 'field':
            return 'b%d->%s' % (s[2][1], s[1])
        if k == 'range':
            t = ps[s[1][1]][1]
            return 'v%d' % s[1][1] if 'uint8' in t else 'w%d' % s[1][1]
        if k == 'each':
            i = s[2][1][1][1]
            t = ps[i][1]
            return 'w%d' % i if 'char' in t else 'V<%s>{d%d}' % (short(klass(t)), i)
        if k == 'call':
            a = s[2:]
            c, _, m = s[1].rpartition('::')
            if c and c == m:
                e = 'new %s(%s)' % (c, ', '.join(ex(y) for y in a))
                return 'unique_ptr<%s>(%s)' % (c, e) if root else 'A<%s>{%s}' % (c, e if len(a) != 1 or a[0][0] != 'p' else 'b%d' % a[0][1])
            if m in SCOPE and c in ('', 'ElementModQ', 'BallotCode'):
                c = SCOPE[m][:-2]
            elif c and a and a[0][0] == 'p' and ps[a[0][1]][1].startswith('eg_') and klass(ps[a[0][1]][1]) == c:
                return 'b%d->%s(%s)' % (a[0][1], m, ', '.join(ex(y) for y in a[1:]))
            return '%s%s(%s)' % (c + '::' if c else '', m, ', '.join(ex(y) for y in a))
        raise No('term %s' % k)
    fn = '%s(%s)' % (n, ', '.join(call))
    body = []
    if v['success']:
        oi = sorted(outs)
        # the value first: moved-from arguments are separate copies
        main = x['out'][str(oi[0])]
        e = ex(main, True)
        t0 = ps[oi[0]][1]
        u0 = t0.replace('const ', '').strip()
        if len(oi) == 2:
            if x['out'][str(oi[1])][0] != 'size of copy':
                raise No('second output')
            if u0 == 'char **':
                cmp = 'sameJ(o%d, o%d, %s);' % (oi[0], oi[1], e)
            else:
                cmp = 'sameB(o%d, o%d, %s);' % (oi[0], oi[1], e)
            body += ['status(false, %s);' % fn, cmp]
        elif u0 == 'char **':
            body += ['string e; TRY(e = %s); status(threw, %s); if (!threw) sameS(o%d, e);' % (e, fn, oi[0])]
        elif u0 in ('uint64_t *', 'bool *', 'int *'):
            body += ['uint64_t e = 0; TRY(e = %s); status(threw, %s); if (!threw) sameN(o%d, e);' % (e, fn, oi[0])]
        else:
            c = short(klass(u0))
            body += ['bool threw = false; try { %s = %s; (void)e; status(false, %s); same<%s>(o%d, e); } catch (const std::exception &) { threw = true; } if (threw) status(true, %s);' % ('auto e' if main[0] == 'at' else 'auto &&e', e, fn, c, oi[0], fn)]
    else:
        r = x['ret']
        if r[0] == '/':
            raise No('date')
        body += ['sameN((uint64_t)%s, (uint64_t)%s);' % (fn, ex(r))]
    lines = decls + body
    if loop is not None:
        sz = ex(x['out'][str(sorted(outs)[0])][1]).replace('A<', 'A<')
        b0 = decls[0]
        return [b0, 'for (uint64_t z = %s.size(), j = 0; j < z + 5; j++) { uint64_t idx = j < z + 3 ? j : (1ull << 32) + j - z - 3;' % ex(x['out'][str(sorted(outs)[0])][1])] + lines[1:] + ['}']
    txt = '\n    '.join(lines)
    if 'BYTES' in txt or 'TEXT' in txt:
        m = sigs[0][1]
        c = short(m.split('::')[0])
        how = m.split('::')[1].replace('from', 'to')
        ty = 'string' if how == 'toJson' else 'vector<uint8_t>'
        return ['%s good = ob<%s>(k).%s();' % (ty, c, how), 'for (int c = 0; c < 3; c++) {', '%s in = good; if (c == 1) in.resize(in.size() / 2); if (c == 2) in.clear();' % ty,
                txt.replace('BYTES', 'in').replace('TEXT', 'in'), '}']
    if 'HEX' in txt:
        return ['static const char *hx[] = {"1A", "", "ZZ", "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF"};', txt.replace('HEX', 'hx[k % 4]')]
    return lines
out = ['// generated by tools/mkfacadeharness.py from props/C23_contract.json', '#include "facade.hpp"']
skipped = []
only = set(sys.argv[1:])
SKIP = set('''eg_encryption_device_to_json eg_constant_to_json eg_intertnationalized_text_crypto_hash'''.split())
for n in sorted(K):
    if n in hand or n in SKIP:
        continue
    try:
        txt = re.sub(r'\b%s\(' % n, 'real_%s(' % n, '\n    '.join(gen(n)))
        # declared from the definition: some headers declare other parameter types
        out.append('extern "C" %s real_%s(%s) __asm__("%s");' % (rets[n], n, ', '.join(t for _, t in decl[n]), n))
        out.append('FT(%s) {\n    %s\n}' % (n, txt))
    except (No, KeyError, IndexError) as e:
        skipped.append((n, str(e)))
open('/verif/harness/facade_gen.cpp', 'w').write('\n'.join(out) + '\n')
print((len(out) - 2) // 2, 'generated', len(hand), 'by hand; not covered:')
for s in skipped:
    print(' ', *s)
