"""Loads clang's JSON AST of the real /repo sources (re-extracted on every run)."""
import json, os, subprocess, sys, re
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('EGV_REPO', '/repo')
FLAGS = ['-std=c++17', '-DLOG_DEBUG', '-DEXPORT_INTERNALS', '-DUSE_STANDARD_PRIMES',
         '-DELECTIONGUARD_BUILD_SHARED', '-Dhacl=hacl_electionguard']

def include_dirs():
    inc = [REPO + '/include', REPO + '/src', REPO + '/src/electionguard', REPO + '/src/karamel',
           REPO + '/src/karamel/internal']
    return ['-I' + i for i in inc]

def dep_includes():
    """third-party headers vendored by the offline build (nlohmann, spdlog, date)"""
    import glob
    out = []
    for pat in ('/opt/vp/**/nlohmann/json.hpp', '/opt/vp/**/spdlog/spdlog.h', '/opt/vp/**/date/date.h',
                '/root/**/nlohmann/json.hpp'):
        pass
    return out

class ExtractionError(Exception):
    pass

def run_clang(path, filt='lection', extra=()):
    cmd = ['clang++'] + FLAGS + include_dirs() + list(extra) + ['-fsyntax-only', '-w', '-Xclang', '-ast-dump=json',
           '-Xclang', '-ast-dump-filter=' + filt, path]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode != 0:
        raise ExtractionError('clang failed on %s: %s' % (path, r.stderr.decode()[-500:]))
    s = r.stdout.decode('utf-8', 'replace')
    dec = json.JSONDecoder()
    i = 0
    docs = []
    n = len(s)
    while True:
        i = s.find('{', i)
        if i < 0:
            break
        o, i = dec.raw_decode(s, i)
        docs.append(o)
    return docs

class Func:
    __slots__ = ('qn', 'name', 'node', 'tu', 'params', 'type', 'cls', 'body', 'static', 'virtual', 'mangled', 'kind',
                 'inits', 'ret', 'defaulted', 'deleted', 'tmpl')
    def __repr__(self):
        return 'Func(%s: %s)' % (self.qn, self.type)

class Class:
    __slots__ = ('qn', 'node', 'tu', 'fields', 'bases', 'methods', 'ctors', 'is_union')
    def __repr__(self):
        return 'Class(%s)' % self.qn

FUNC_KINDS = ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl')

class TU:
    def __init__(self, path, prog):
        self.path = path
        self.prog = prog
        self.byid = {}        # id -> node
        self.funcs_byid = {}  # id -> Func
        self.class_byid = {}
        self.qn_byid = {}
        self.vars = {}        # qualname -> VarDecl
        self.lambda_ops = {}

    def load(self, docs):
        for d in docs:
            self.index(d, '', None)
        # second pass for out-of-line definitions
        for f in list(self.funcs_byid.values()):
            if f.cls is None:
                pid = f.node.get('parentDeclContextId')
                if pid and pid in self.qn_byid and pid in self.class_byid:
                    f.cls = self.class_byid[pid].qn
                    f.qn = f.cls + '::' + f.name

    def unshadow(self):
        """a field that hides a field of a base class gets a name of its own"""
        byname = {c.qn: c for c in self.class_byid.values() if c.fields}
        def up(c, seen):
            out = set()
            for b in c.bases:
                for d in (b, 'electionguard::' + b):
                    d = byname.get(d)
                    if d is not None and d.qn not in seen:
                        out |= {f.get('name', '').split('@')[0] for f in d.fields} | up(d, seen | {d.qn})
            return out
        for c in byname.values():
            hid = up(c, {c.qn})
            for f in c.fields:
                if f.get('name') in hid:
                    f['name'] = f['name'] + '@' + c.qn

    def index(self, n, ctx, cls):
        k = n.get('kind')
        if not k:
            return
        nid = n.get('id')
        if nid:
            self.byid[nid] = n
        if k == 'NamespaceDecl':
            q = ctx + n.get('name', '(anon)') + '::'
            for c in n.get('inner', ()):
                self.index(c, q, None)
            return
        if k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl', 'ClassTemplatePartialSpecializationDecl'):
            self.index_class(n, ctx, cls)
            return
        if k in FUNC_KINDS:
            self.index_func(n, ctx, cls)
            return
        if k == 'VarDecl' and cls is None:
            self.vars.setdefault(ctx + n.get('name', ''), n)
        if k == 'VarDecl' and cls is not None:
            self.vars.setdefault(cls.qn + '::' + n.get('name', ''), n)
        if k == 'EnumDecl':
            v = -1
            for c in n.get('inner', ()):
                if c['kind'] == 'EnumConstantDecl':
                    val = None
                    for cc in c.get('inner', ()):
                        val = find_value(cc)
                    v = val if val is not None else v + 1
                    c['enumValue'] = v
                    self.byid[c['id']] = c
            return
        if k in ('ClassTemplateDecl', 'FunctionTemplateDecl', 'LinkageSpecDecl', 'ExportDecl'):
            for c in n.get('inner', ()):
                self.index(c, ctx, cls)
            return
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                self.index(c, ctx, cls)

    def index_class(self, n, ctx, outer):
        name = n.get('name') or ('(lambda)' if n.get('definitionData', {}).get('isLambda') else '(anon)')
        pid = n.get('parentDeclContextId')
        base = ctx
        if outer is not None:
            base = outer.qn + '::'
        elif pid and pid in self.class_byid:
            base = self.class_byid[pid].qn + '::'
        if n['kind'] != 'CXXRecordDecl':
            args = [a.get('type', {}).get('qualType') or str(a.get('value')) for a in n.get('inner', ())
                    if a.get('kind') == 'TemplateArgument']
            name = name + '<' + ', '.join(args) + '>'
        qn = base + name
        if name in ('(lambda)', '(anon)'):
            qn += n['id']
        c = Class()
        c.qn, c.node, c.tu = qn, n, self
        c.fields, c.bases, c.methods, c.ctors = [], [], [], []
        c.is_union = n.get('tagUsed') == 'union'
        for b in n.get('bases', ()):
            c.bases.append(b['type'].get('desugaredQualType', b['type']['qualType']))
        self.class_byid[n['id']] = c
        self.qn_byid[n['id']] = qn
        prev = n.get('previousDecl')
        for ch in n.get('inner', ()):
            ck = ch.get('kind')
            if ck == 'FieldDecl':
                self.byid[ch['id']] = ch
                c.fields.append(ch)
                for x in ch.get('inner', ()):
                    self.index(x, qn + '::', None)
            elif ck in ('CXXRecordDecl',):
                if ch.get('isImplicit'):
                    self.byid[ch['id']] = ch
                    self.class_byid[ch['id']] = c
                    continue
                self.index(ch, qn + '::', c)
            else:
                self.index(ch, qn + '::', c)
        if n.get('completeDefinition'):
            self.prog.add_class(c)

    def index_func(self, n, ctx, cls):
        f = Func()
        f.tu = self
        f.node = n
        f.kind = n['kind']
        f.name = n.get('name', '')
        f.cls = cls.qn if cls else None
        f.qn = (cls.qn + '::' if cls else ctx) + f.name
        f.type = n.get('type', {}).get('qualType', '')
        f.mangled = n.get('mangledName', '')
        f.static = n.get('storageClass') == 'static'
        f.virtual = n.get('virtual', False)
        f.params = [c for c in n.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        f.inits = [c for c in n.get('inner', ()) if c.get('kind') == 'CXXCtorInitializer']
        f.body = None
        f.defaulted = n.get('explicitlyDefaulted')
        f.deleted = n.get('explicitlyDeleted')
        for c in n.get('inner', ()):
            if c.get('kind') in ('CompoundStmt', 'CXXTryStmt'):
                f.body = c
        if n['id'] in self.funcs_byid and f.body is None and self.funcs_byid[n['id']].node.get('inner'):
            return          # a later mention by reference only
        self.funcs_byid[n['id']] = f
        if n.get('previousDecl') and n['previousDecl'] in self.funcs_byid:
            p = self.funcs_byid[n['previousDecl']]
            f.static = f.static or p.static
            f.virtual = f.virtual or p.virtual
            if f.cls is None:
                f.cls = p.cls
                f.qn = p.qn
            if f.body and p.body is None:
                # default arguments live on the earlier declaration
                for a, b in zip(f.params, p.params):
                    if not has_expr(a) and has_expr(b):
                        a['defaultFrom'] = b
        elif f.cls is None:
            pid = n.get('parentDeclContextId')
            if pid in self.class_byid:
                f.cls = self.class_byid[pid].qn
                f.qn = f.cls + '::' + f.name
        if cls is not None:
            cls.methods.append(f)
            if f.kind == 'CXXConstructorDecl':
                cls.ctors.append(f)
        for c in n.get('inner', ()):
            self.index(c, f.qn + '::', None)
        self.prog.add_func(f)

def has_expr(p):
    return any(isinstance(c, dict) and c.get('kind', '').endswith('Expr') or c.get('kind', '').endswith('Literal')
               for c in p.get('inner', ()))

def find_value(n):
    if 'value' in n:
        try:
            return int(n['value'])
        except ValueError:
            return None
    for c in n.get('inner', ()):
        v = find_value(c)
        if v is not None:
            return v
    return None

class Program:
    def __init__(self):
        self.tus = {}
        self.funcs = {}       # qualname -> list of Func (with and without bodies)
        self.defs = {}        # mangled -> Func with body
        self.classes = {}     # qualname -> Class
        self.globals = {}
        self.enums = {}     # name -> (tu, VarDecl)

    def add_func(self, f):
        self.funcs.setdefault(f.qn, []).append(f)
        if f.body is not None or f.defaulted:
            self.defs.setdefault(f.mangled, f) if f.mangled else None

    def add_class(self, c):
        if c.qn not in self.classes:
            self.classes[c.qn] = c

    def load(self, paths, arrays=True):
        def job(p):
            full = p if p.startswith('/') else os.path.join(REPO, p)
            return run_clang(full)
        jobs = list(paths)
        with ThreadPoolExecutor(8) as ex:
            futs = [ex.submit(run_clang, os.path.join(REPO, 'src/electionguard/group.cpp'), flt) for flt in ('_ARRAY', 'MAX_', 'LUT_', 'DEFAULT_')] if arrays else []
            res = list(ex.map(job, jobs))
        for p, docs in zip(jobs, res):
            tu = TU(p, self)
            tu.load(docs)
            self.tus[p] = tu
        for fut in futs:
            tu = TU('constants', self)
            for d in fut.result():
                tu.index(d, '', None)
            for q, n in tu.vars.items():
                self.globals.setdefault(q, (tu, n))
            for n in tu.byid.values():
                if n.get('kind') == 'EnumConstantDecl' and 'enumValue' in n:
                    self.enums[n['name']] = n['enumValue']
        for tu in self.tus.values():
            for n in tu.byid.values():
                if n.get('kind') == 'EnumConstantDecl' and 'enumValue' in n:
                    self.enums.setdefault(n['name'], n['enumValue'])
            tu.unshadow()
        # finalise qualified names computed late
        self.funcs = {}
        self.defs = {}
        for tu in self.tus.values():
            for f in tu.funcs_byid.values():
                self.funcs.setdefault(f.qn, []).append(f)
                if f.body is not None or f.defaulted:
                    key = f.mangled or f.qn
                    if key not in self.defs or (self.defs[key].body is None and f.body is not None):
                        self.defs[key] = f
        return self
