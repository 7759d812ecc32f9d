"""Compile the library from the current working tree of /repo into a scratch directory, and link harnesses to it."""
import os, re, subprocess, concurrent.futures as cf
REPO = os.environ.get('EGV_REPO', '/repo')
DEFS = ['-DLOG_DEBUG', '-DEXPORT_INTERNALS', '-DHACL_CAN_COMPILE_VEC128', '-DHACL_CAN_COMPILE_VEC256', '-DUSE_STANDARD_PRIMES',
        '-DELECTIONGUARD_BUILD_SHARED']
def incs():
    r = REPO
    out = ['-I%s/include' % r, '-I%s/src' % r, '-I%s/src/electionguard' % r, '-I%s/src/karamel' % r]
    for d in ('/opt/vp/cmake', '/opt/vp/deps'):
        pass
    return out

def sources():
    """source list of the library as its own CMakeLists names it, plus any further .cpp/.c beside them"""
    txt = open(REPO + '/src/CMakeLists.txt').read()
    out = []
    for m in re.findall(r'\$\{PROJECT_SOURCE_DIR\}/(\S+\.(?:cpp|c))\b', txt):
        p = os.path.join(REPO, m)
        if os.path.exists(p) and p not in out:
            out.append(p)
    return out

class BuildError(Exception):
    pass

def _cc(args):
    p = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    if p.returncode:
        raise BuildError(' '.join(args[-4:]) + '\n' + p.stdout[-3000:])

HARN = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness')

def build(out, opt='-O1', extra=(), jobs=8, hsrc=()):
    os.makedirs(out, exist_ok=True)
    objs, cmds = [], []
    for s in sources():
        o = os.path.join(out, s[len(REPO) + 1:].replace('/', '_') + '.o')
        objs.append(o)
        c = s.endswith('.c')
        # the HACL C sources dominate run time: always optimised
        cmd = (['gcc'] if c else ['g++', '-std=c++17']) + [('-O2' if c and not extra else opt), '-w', '-fPIC'] + list(extra) + DEFS + incs() + ['-c', s, '-o', o]
        cmds.append((os.path.getsize(s), cmd))
    hobjs = []
    for s in hsrc:
        o = os.path.join(out, 'harness_' + os.path.basename(s) + '.o')
        hobjs.append(o)
        cmds.append((1 << 30, ['g++', '-std=c++17', '-O0', '-w'] + list(extra) + DEFS + incs() + ['-I' + HARN, '-c', s, '-o', o]))
    cmds.sort(key=lambda x: -x[0])
    with cf.ThreadPoolExecutor(jobs) as ex:
        list(ex.map(lambda c: _cc(c[1]), cmds))
    lib = os.path.join(out, 'libeg.a')
    _cc(['ar', 'rcs', lib] + objs)
    return (lib, hobjs) if hsrc else lib

def link(src, lib, exe, opt='-O1', extra=()):
    _cc(['g++', '-std=c++17', opt, '-w'] + list(extra) + DEFS + incs() + ["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness")] + (src if isinstance(src, list) else [src]) + ['-o', exe, lib, '-lfmt', '-lpthread'])
    return exe

if __name__ == '__main__':
    import sys, time
    t = time.time()
    print(build(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else '-O1', sys.argv[3:]), time.time() - t)
