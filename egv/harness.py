"""Driver for the concrete harness: the library built from /repo's current tree, commanded over a pipe."""
import os, subprocess, threading, tempfile, shutil, select, time
import libbuild
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)

class Crash(Exception):
    pass

class Harness:
    def __init__(self, exe):
        self.exe = exe
        self.p = None
        self.count = 0
        self.distinct = set()
        self.samples = []
    def start(self):
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0)
        self.buf = b''
    def line(self, timeout):
        end = time.time() + timeout
        while b'\n' not in self.buf:
            left = end - time.time()
            if left <= 0:
                self.kill()
                raise Crash('no answer within %d s' % timeout)
            r, _, _ = select.select([self.p.stdout], [], [], left)
            if r:
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    rc = self.p.wait()
                    self.p = None
                    raise Crash('process ended with status %s' % rc)
                self.buf += d
        l, self.buf = self.buf.split(b'\n', 1)
        return l.decode('latin1')
    def kill(self):
        if self.p is not None:
            self.p.kill()
            self.p.wait()
            self.p = None
    def cmd(self, *args, timeout=120):
        """one command; returns the list of answer tokens; throws are ['throw', type]"""
        if self.p is None or self.p.poll() is not None:
            self.start()
        s = ' '.join(str(a) for a in args)
        self.count += 1
        self.distinct.add(hash(s))
        if len(self.samples) < 4 and self.count % 7 == 1:
            self.samples.append(s[:300])
        try:
            data = (s + '\n').encode()
            self.p.stdin.write(data)
            while True:
                l = self.line(timeout)
                if l.startswith('@@'):
                    return l[2:].split(' ')
        except BrokenPipeError:
            rc = self.p.wait()
            self.p = None
            raise Crash('process ended with status %s' % rc)

def batch(h, jobs, n=6):
    """run commands on n processes; returns [(job, answer)]; a crash is the answer ['crash', text]"""
    import concurrent.futures as cf, queue
    pool = queue.Queue()
    hs = [h] + [Harness(h.exe) for _ in range(n - 1)]
    for x in hs:
        pool.put(x)
    def some(js):
        # neighbouring jobs go to one process: state kept between calls shows
        x = pool.get()
        out = []
        try:
            for j in js:
                try:
                    out.append(x.cmd(*j))
                except Crash as e:
                    out.append(['crash', str(e)])
        finally:
            pool.put(x)
        return out
    size = max(1, min(6, len(jobs) // (3 * n)))
    blocks = [jobs[i:i + size] for i in range(0, len(jobs), size)]
    try:
        with cf.ThreadPoolExecutor(n) as ex:
            out = [a for b in ex.map(some, blocks) for a in b]     # complete before the caller goes on: h is one of the processes
    finally:
        for x in hs[1:]:
            h.count += x.count
            h.distinct |= x.distinct
            x.kill()
    return list(zip(jobs, out))

def walk(rng, start, hi, n):
    """n lists of operands, each differing from the one before in a single bit of a single operand (hi: largest values):
    results remembered under a part of the operands show"""
    x = list(start)
    for _ in range(n):
        yield list(x)
        i = rng.randrange(len(x))
        y = x[i] ^ (1 << rng.randrange(hi[i].bit_length()))
        if y <= hi[i]:
            if rng.random() < .2:
                yield list(x)
            x[i] = y

_fn = None
def _call(x):
    return _fn(x)
def pmap(fn, items, n=8):
    """fn over items in forked processes (reference computations are slow)"""
    import multiprocessing as mp
    global _fn
    _fn = fn
    with mp.get_context('fork').Pool(n) as p:
        return p.map(_call, items, chunksize=1)

class Builder:
    """builds in the background"""
    def __init__(self, scratch, sources, jobs=8, extra=()):
        self.scratch = scratch
        self.sources = sources
        self.extra = extra
        self.err = None
        self.exe = None
        self.t = threading.Thread(target=self.run, args=(jobs,), daemon=True)
        self.t.start()
    def run(self, jobs):
        try:
            objs = []
            lib, hobjs = libbuild.build(os.path.join(self.scratch, 'lib'), '-O1', extra=self.extra, jobs=jobs, hsrc=[os.path.join(VERIF, 'harness', s) for s in self.sources])
            self.exe = libbuild.link(hobjs, lib, os.path.join(self.scratch, 'harness'), extra=self.extra)
        except libbuild.BuildError as e:
            self.err = str(e)
        except Exception as e:
            self.err = '%s: %s' % (type(e).__name__, e)
    def wait(self):
        self.t.join()
        return self.exe
