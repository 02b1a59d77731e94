"""Symbolic executor / VC generator over the clang AST of the code in /repo.

State-merging execution: every statement is executed once per loop-summary, branches are merged with
ite; a repo function with a contract is replaced by the contract at call sites, other repo functions are
inlined; external (libc / libstdc++ / OpenSSL) functions are the trusted contracts in externals.py."""
import re, sys
from terms import *
from values import *
import solver

INT_TYPES = {
    'int': (32, True), 'unsigned int': (32, False), 'long': (64, True), 'unsigned long': (64, False),
    'long long': (64, True), 'unsigned long long': (64, False), 'short': (16, True), 'unsigned short': (16, False),
    'char': (8, True), 'signed char': (8, True), 'unsigned char': (8, False), 'bool': (1, False),
    'uint8_t': (8, False), 'uint16_t': (16, False), 'uint32_t': (32, False), 'uint64_t': (64, False), 'size_t': (64, False),
    'int8_t': (8, True), 'int16_t': (16, True), 'int32_t': (32, True), 'int64_t': (64, True), 'std::size_t': (64, False),
    'std::uint64_t': (64, False), '__uint128_t': (128, False), 'unsigned __int128': (128, False), 'BN_ULONG': (64, False), 'ssize_t': (64, True),
}

def qt(node):
    t = node.get('type') or {}
    return t.get('desugaredQualType') or t.get('qualType') or ''

_tc = {}
def norm_type(t):
    r = _tc.get(t)
    if r is not None: return r
    s = t.strip()
    s = re.sub(r'\b(const|volatile|struct|class|enum|typename)\b', ' ', s)
    s = re.sub(r'\b(static|inline|__restrict|restrict)\b', ' ', s)
    s = s.replace('std::__cxx11::', 'std::')
    s = re.sub(r'\s+', ' ', s).strip()
    s = re.sub(r'\s*&&?$', '', s).strip()
    s = s.replace('std::basic_string<char>', 'std::string')
    s = re.sub(r'std::basic_string<char, std::char_traits<char>(, std::allocator<char> ?)?>', 'std::string', s)
    s = re.sub(r'\bbasic_string<char, char_traits<char>, allocator<char>>', 'std::string', s)
    s = re.sub(r', std::allocator<[^<>]*(<[^<>]*>)?[^<>]*>', '', s)
    s = s.replace(' *', '*').replace(' >', '>')
    s = re.sub(r'__attribute__\(\(__vector_size__\(2 ?\* sizeof\(long long\)\)\)\) long long', '__m128i', s)
    if s == 'block': s = '__m128i'
    _tc[t] = s
    return s

def is_ref(t): return t.rstrip().endswith('&')
def is_int(t): return t in INT_TYPES
def is_ptr(t): return t.endswith('*')
def is_byte(t): return t in ('char', 'unsigned char', 'uint8_t', 'signed char', 'int8_t', 'std::byte')
def targs(t):
    """template args of norm type"""
    i = t.find('<')
    if i < 0: return []
    j = t.rfind('>')
    s = t[i + 1:j]
    out = []; d = 0; cur = ''
    for ch in s:
        if ch == '<' or ch == '(': d += 1
        if ch == '>' or ch == ')': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return [norm_type(x) for x in out]

class Abort(Exception): pass

class Program:
    def __init__(self, decls):
        self.funcs = {}       # id -> decl with body
        self.decl_def = {}    # id -> definition decl
        self.by_name = {}     # qualified name -> [decl]
        self.records = {}     # qualified -> decl
        self.fields = {}      # id -> (name)
        self.globals = {}     # id -> (qual, decl)
        self.global_by_name = {}
        self.enums = {}
        self.qual = {}        # id -> qualified name
        self.typedefs = {}
        self.first = {}
        self.rec_of_method = {}
        self.vars = {}
        for d in decls: self._walk(d, '')
        # definitions reachable through previousDecl
        changed = True
        self.link = {}
        for id_, d in list(self.alldecls.items()):
            pv = d.get('previousDecl')
            if pv: self.link.setdefault(pv, id_)
    alldecls = None
    def _walk(self, d, ns):
        if self.alldecls is None: self.alldecls = {}
        k = d.get('kind')
        name = d.get('name', '')
        if k == 'NamespaceDecl':
            n2 = ns + name + '::' if name else ns
            for c in d.get('inner', ()): self._walk(c, n2)
        elif k in ('LinkageSpecDecl', 'ExternCContextDecl'):
            for c in d.get('inner', ()): self._walk(c, ns)
        elif k in ('CXXRecordDecl', 'ClassTemplateSpecializationDecl'):
            q = ns + name
            if k == 'ClassTemplateSpecializationDecl':
                ta = []
                for c in d.get('inner', ()):
                    if c.get('kind') == 'TemplateArgument':
                        if 'type' in c: ta.append(norm_type(c['type'].get('desugaredQualType') or c['type'].get('qualType')))
                        elif 'value' in c: ta.append(str(c['value']))
                q = q + '<' + ', '.join(ta) + '>'
            if d.get('completeDefinition'):
                self.records[q] = d
                self.qual[d['id']] = q
                for c in d.get('inner', ()):
                    self._walk(c, q + '::')
                    if c.get('kind') in ('CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
                        self.rec_of_method[c['id']] = q
        elif k in ('FunctionTemplateDecl',):
            for c in d.get('inner', ()): self._walk(c, ns)
        elif k == 'ClassTemplateDecl':
            for c in d.get('inner', ()):
                if c.get('kind') == 'ClassTemplateSpecializationDecl': self._walk(c, ns)
        elif k == 'FriendDecl':
            for c in d.get('inner', ()): self._walk(c, '')
        elif k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            self.alldecls[d['id']] = d
            self.qual[d['id']] = ns + name
            pid = d.get('parentDeclContextId')
            if k != 'FunctionDecl' and pid and pid in self.qual:
                self.qual[d['id']] = self.qual[pid] + '::' + name
                self.rec_of_method[d['id']] = self.qual[pid]
            body = [c for c in d.get('inner', ()) if c.get('kind') == 'CompoundStmt']
            if body or any(c.get('kind') == 'CXXCtorInitializer' for c in d.get('inner', ())):
                self.funcs[d['id']] = d
                self.by_name.setdefault(self.qual[d['id']], []).append(d)
        elif k == 'FieldDecl':
            self.fields[d['id']] = name
        elif k == 'VarDecl':
            self.globals[d['id']] = (ns + name, d)
            self.global_by_name[ns + name] = d
        elif k == 'EnumDecl':
            v = -1
            for c in d.get('inner', ()):
                if c.get('kind') == 'EnumConstantDecl':
                    v += 1
                    x = _find_value(c)
                    if x is not None: v = x
                    self.enums[c['id']] = v
        elif k in ('TypedefDecl', 'TypeAliasDecl'):
            self.typedefs[ns + name] = norm_type((d['type'].get('desugaredQualType') or d['type'].get('qualType')))
    def definition(self, id_):
        seen = set()
        cur = id_
        if cur in self.funcs: return self.funcs[cur]
        while cur in self.link and cur not in seen:
            seen.add(cur)
            cur = self.link[cur]
            if cur in self.funcs: return self.funcs[cur]
        # go backwards
        d = self.alldecls.get(id_)
        while d is not None and d.get('previousDecl'):
            pid = d['previousDecl']
            if pid in self.funcs: return self.funcs[pid]
            d = self.alldecls.get(pid)
        # mangled name lookup
        d = self.alldecls.get(id_)
        if d is not None and d.get('mangledName'):
            for f in self.funcs.values():
                if f.get('mangledName') == d['mangledName']: return f
        return None

def _find_value(c):
    if c.get('kind') in ('ConstantExpr', 'IntegerLiteral') and 'value' in c:
        return int(c['value'])
    for x in c.get('inner', ()):
        v = _find_value(x)
        if v is not None: return v
    return None

class State:
    __slots__ = ('mem', 'pc', 'alive')
    def __init__(self, mem=None, pc=()):
        self.mem = mem if mem is not None else {}
        self.pc = pc; self.alive = True
    def copy(self):
        s = State(dict(self.mem), self.pc); s.alive = self.alive
        return s

class Frame:
    def __init__(self, fn):
        self.fn = fn; self.env = {}; self.this = None
        self.returns = []; self.loops = []

class LoopCtx:
    def __init__(self): self.breaks = []; self.conts = []

CONTRACTS = {}      # qualified name -> function(ex, call) returning value or NotImplemented
EXTERN = {}         # external function name -> function(ex, args(list of nodes), node)
METHODS = []        # (predicate, fn) for std methods

class Exec:
    loop_rule = None
    def __init__(self, prog, abstract=('BigInt', 'ECPoint'), unroll=64):
        self.prog = prog
        self.st = State()
        self.frames = []
        self.ncell = 0
        self.log = None
        self.abstract = set(abstract)
        self.gcell = {}
        self.loopk = []
        self.obls = []          # (name, pc, goal, where)
        self.aborts = []
        self.contracts_used = set()
        self.inlined = set()
        self.skip_contract = set()
        self.unroll = unroll
        self.externs_used = set()
        self.loop_notes = []
        self.races = []
        self.fresh_ctx = 0
        self.assumed = set()
        self.trace = []
        self.omp_depth = 0; self.omp_nodes = []
        self.max_steps = 3000000
        self.steps = 0
        self.chan = None
        self.splits = 0
        self.iochoices = None
        self.ctypes = {}     # declared type of a cell
        self.callstack = []
        self.global_over = {}
        self.extra = {}
        self.havoc_reads = False
        self.loop_summaries = 0
        self.activate()
    def activate(self):
        DECIDE[0] = lambda c: solver.decide_pc(self.st.pc, c); ASSUME[0] = self.assume

    # ---------------------------------------------------------------- memory
    def new_cell(self, v, hint='c'):
        self.ncell += 1
        c = '%s#%d' % (hint, self.ncell)
        self.st.mem[c] = v
        return c
    def load(self, lv):
        cell, path = lv
        if cell not in self.st.mem: raise Unsupported('load of unknown cell %s' % cell)
        v = self.st.mem[cell]
        for k, a in path: v = self.sel(v, k, a)
        return v
    def sel(self, v, k, a):
        if k == 'f':
            if isinstance(v, Struct):
                if a in v.f: return v.f[a]
                raise Unsupported('no field %s in %s' % (a, v.cls))
            if v is UNDEF: raise Unsupported('field %s of undefined value' % a)
            raise Unsupported('field %s of %s' % (a, type(v).__name__))
        if k == 'i':
            if isinstance(v, Vec): return vget(v, a)
            if isinstance(v, Bytes): return byte_at(v, a)
            if P(a).is_zero(): return v
            raise Unsupported('index of %s' % type(v).__name__)
        if k == 'bn': return v
        if k == 'blk8':   # byte view of 128-bit block
            raise Unsupported('byte view of block')
        if k == 'map':
            from externals import map_lookup
            return map_lookup(self, v, a)
        raise Unsupported('path ' + k)
    def store(self, lv, val):
        cell, path = lv
        if self.log is not None: self.log.append(lv)
        self.st.mem[cell] = self.upd(self.st.mem.get(cell, UNDEF), path, val)
    def upd(self, v, path, val):
        if not path: return val
        k, a = path[0]
        if k == 'f':
            if not isinstance(v, Struct): raise Unsupported('store field %s into %s' % (a, type(v).__name__))
            return v.set(a, self.upd(v.f.get(a, UNDEF), path[1:], val))
        if k == 'i':
            if isinstance(v, Vec):
                x = val if len(path) == 1 else self.upd(vget(v, a), path[1:], val)
                return vset(v, a, x)
            if isinstance(v, Bytes):
                if len(path) == 1:
                    pa = P(a)
                    if isinstance(val, (Poly, B)):
                        n = v.length()
                        if pa.is_const() and n.is_const() and n.const() <= 64:
                            return bsplice(v, pa, byte_of(to_int(val)))
                        return vset(bytes_to_vec(v), a, to_int(val))
            if P(a).is_zero(): return self.upd(v, path[1:], val)
            raise Unsupported('indexed store into %s' % type(v).__name__)
        if k == 'bn': return self.upd(v, path[1:], val)
        if k == 'bnp':   # the object takes over a freshly allocated number / point
            if not isinstance(val, Ptr) or val.cell.split('#')[0] not in ('bn', 'pt'): raise Unsupported('object takes over storage it does not own')
            return self.load(val.lv())
        if k == 'map':
            from externals import map_store
            return map_store(self, v, a, val)
        raise Unsupported('path ' + k)

    def assume(self, b):
        if b is TRUE: return
        if b is FALSE:
            self.st.alive = False
            self.st.pc = self.st.pc + (FALSE,)
            return
        if b.op == 'and':
            for x in b.args: self.assume(x)
            return
        if b not in self.st.pc: self.st.pc = self.st.pc + (b,)
    def oblige(self, name, goal, where=None):
        self.obls.append((name, self.st.pc, goal, where))
    def decide(self, c): return solver.decide_pc(self.st.pc, c)

    # ---------------------------------------------------------------- branching
    def branch(self, cond, fa, fb):
        """execute fa under cond, fb under not cond, merge; returns merged value"""
        cond = to_bool(cond)
        d = self.decide(cond)
        if d is True:
            return fa()
        if d is False:
            return fb()
        base = self.st
        self.splits += 1
        s1 = base.copy(); self.st = s1; self.assume(cond)
        v1 = fa() if self.st.alive else None
        s1 = self.st
        s2 = base.copy(); self.st = s2; self.assume(bnot(cond))
        v2 = fb() if self.st.alive else None
        s2 = self.st
        self.splits -= 1
        if not s1.alive:
            self.st = s2; return v2
        if not s2.alive:
            self.st = s1; return v1
        self.st = self.merge(cond, s1, s2, base)
        if v1 is None and v2 is None: return None
        return vite(cond, v1, v2) if not (isinstance(v1, Ref) and v1 == v2) else v1
    def merge(self, cond, a, b, base):
        mem = {}
        for c in a.mem:
            if c in b.mem:
                x, y = a.mem[c], b.mem[c]
                if x is y: mem[c] = x
                else:
                    try: mem[c] = vite(cond, x, y)
                    except MergeFail as e:
                        if c in base.mem: raise MergeFail('%s (cell %s)' % (e, c))
                        mem[c] = UNDEF
            else: mem[c] = a.mem[c]
        for c in b.mem:
            if c not in mem: mem[c] = b.mem[c]
        k = 0
        while k < len(a.pc) and k < len(b.pc) and a.pc[k] is b.pc[k]: k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        common = [x for x in ra if x in rb]
        pc = a.pc[:k] + tuple(common)
        o = bor(band(*ra), band(*rb))
        # drop exhaustive split
        ra2 = [x for x in ra if x is not cond and x not in common and not (cond.op == 'and' and x in cond.args)]
        nb = bnot(cond)
        rb2 = [x for x in rb if x is not nb and x not in common and not (nb.op == 'and' and x in nb.args)]
        if ra2 or rb2:
            o = band(bimp(cond, band(*ra2)), bimp(nb, band(*rb2)))
            if o is not TRUE: pc = pc + (o,)
        s = State(mem, pc)
        return s

    # ---------------------------------------------------------------- types / default values
    def rec(self, t):
        t = norm_type(t)
        seen = 0
        while t in self.prog.typedefs and seen < 5:
            t = self.prog.typedefs[t]; seen += 1
        r = self.prog.records.get(t)
        if r is not None: return t, r
        # unqualified: unique suffix match
        c = [q for q in self.prog.records if q.endswith('::' + t)]
        if len(c) == 1: return c[0], self.prog.records[c[0]]
        if self.frames:
            # namespace of current function
            fq = self.prog.qual.get(self.frames[-1].fn['id'], '') if self.frames[-1].fn else ''
            parts = fq.split('::')
            for k in range(len(parts) - 1, 0, -1):
                q = '::'.join(parts[:k]) + '::' + t
                if q in self.prog.records: return q, self.prog.records[q]
        return None, None
    def rtype(self, t):
        t = norm_type(t)
        seen = 0
        while t in self.prog.typedefs and seen < 5:
            t = self.prog.typedefs[t]; seen += 1
        return t
    def default(self, t, zero=True):
        """default-initialised (class types) or indeterminate value of type t; zero=True value-initialises scalars"""
        t = self.rtype(t)
        m = re.match(r'(.*?)\[(\d+)\](.*)$', t)
        if m:
            et = m.group(1).strip() + m.group(3)
            n = int(m.group(2))
            if is_byte(et): return Bytes((bytes(n),)) if zero else seg(app('undef', P(n)), n)
            return Vec(P(n), None, self.default(et, zero))
        if t == 'bool': return FALSE if zero else UNDEF
        if is_int(t): return P(0) if zero else UNDEF
        if t in ('double', 'float', 'long double'): return P(0) if zero else UNDEF
        if is_ptr(t): return NULL if zero else UNDEF
        if t == '__m128i': return R0 if zero else UNDEF
        if t == 'BigInt' and t in self.abstract: return P(0)
        if t == 'ECPoint' and t in self.abstract: return G(P(0))
        if t == 'std::string': return EMPTY
        if t.startswith('std::vector<'): 
            return Vec(P(0), None, UNDEF)
        if t.startswith('std::array<'):
            a = targs(t)
            return Vec(P(int(a[1])), None, self.default(a[0], zero))
        if t.startswith('std::tuple<') or t.startswith('std::pair<'):
            a = targs(t)
            return Struct('tuple', {str(i): self.default(x, zero) for i, x in enumerate(a)})
        if t.startswith('std::unordered_set<') or t.startswith('std::set<'): return SetV('set')
        if t.startswith('std::unordered_map<') or t.startswith('std::map<') or t.startswith('std::unordered_multimap<'): return SetV('map')
        if 'fstream' in t or 'ifstream' in t or 'ofstream' in t or 'basic_ofstream' in t: return Stream()
        if t.startswith('std::basic_stringstream') or t.startswith('std::basic_ostringstream'): return Opaque('sstream')
        if t.startswith('std::chrono') or t.startswith('std::mutex') or t.startswith('std::atomic') and False: return Opaque(t)
        q, r = self.rec(t)
        if r is not None:
            f = {}
            if r.get('bases'):
                for b in r['bases']:
                    bv = self.default(b['type'].get('desugaredQualType') or b['type'].get('qualType'), zero)
                    if isinstance(bv, Struct): f.update(bv.f)
            for c in r.get('inner', ()):
                if c.get('kind') == 'FieldDecl':
                    ct = norm_type(qt(c))
                    f[c['name']] = self.default(ct, zero)
            return Struct(q, f)
        if t.startswith('std::'): return Opaque(t)
        if t in ('time_t', 'FILE', '_IO_FILE') or t.startswith('struct ') or t == 'void': return Opaque(t)
        if t.startswith('enum'): return P(0)
        return UNDEF if not zero else Opaque(t)
    def construct_default(self, t):
        """run the default constructor of class type t (or default value)"""
        t = self.rtype(t)
        q, r = self.rec(t)
        if r is None or t in self.abstract: return self.default(t, zero=False)
        v = self.default(t, zero=False)
        # user-provided default ctor or implicit with member inits
        ctor = self.find_ctor(q, r, 'void ()')
        if ctor is not None:
            cell = self.new_cell(v, 'obj')
            self.run_ctor(ctor, (cell, ()), [])
            return self.st.mem[cell]
        f = dict(v.f)
        for c in r.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                ct = norm_type(qt(c))
                init = [x for x in c.get('inner', ()) if 'Attr' not in x.get('kind', '')]
                if c.get('hasInClassInitializer') and init: f[c['name']] = self.rv(init[-1])
                elif self.rec(ct)[1] is not None: f[c['name']] = self.construct_default(ct)
        return Struct(q, f)
    def find_ctor(self, q, r, ctype):
        for c in r.get('inner', ()):
            cs = [c] if c.get('kind') == 'CXXConstructorDecl' else [x for x in c.get('inner', ()) if x.get('kind') == 'CXXConstructorDecl'] if c.get('kind') == 'FunctionTemplateDecl' else []
            for c in cs:
                if qt0(c) == ctype or norm_sig(qt0(c)) == norm_sig(ctype):
                    d = self.prog.definition(c['id'])
                    if d is not None: return d
                    return None
        return None
    def run_ctor(self, ctor, lv, args):
        q = self.prog.rec_of_method.get(ctor['id'])
        return self.call_decl(ctor, args, this=lv)

    # ---------------------------------------------------------------- calls
    def call_decl(self, fn, args, this=None, inline=False):
        """args: list of ('v', value) or ('l', lvalue)"""
        q = self.prog.qual.get(fn['id'], fn.get('name'))
        sig = qt0(fn)
        if not inline:
            for key in (q + ' ' + sig, q):
                c = CONTRACTS.get(key)
                if c is not None and key not in self.skip_contract and q not in self.skip_contract:
                    r = c(self, Call(self, fn, args, this))
                    if r is not NotImplemented:
                        self.contracts_used.add(q)
                        return r
        if len(self.callstack) > 60: raise Unsupported('recursion depth in ' + q)
        if self.callstack.count(fn['id']) > 12: raise Unsupported('unbounded recursion in ' + q)
        self.inlined.add(q)
        fr = Frame(fn)
        fr.this = this
        params = [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        for i, p in enumerate(params):
            if i < len(args): kind, x = args[i]
            else:
                init = [c for c in p.get('inner', ()) if 'Attr' not in c.get('kind', '')]
                if not init: raise Unsupported('missing arg %d of %s' % (i, q))
                kind, x = 'v', self.rv(init[0])
            t = qt0(p)
            if is_ref(t):
                if kind == 'l': fr.env[p['id']] = x
                else:
                    fr.env[p['id']] = (self.new_cell(x, p.get('name', 'p')), ()); self.ctypes[fr.env[p['id']][0]] = norm_type(qt(p))
            else:
                v = self.load(x) if kind == 'l' else x
                fr.env[p['id']] = (self.new_cell(self.convert_param(v, norm_type(qt(p))), p.get('name', 'p')), ()); self.ctypes[fr.env[p['id']][0]] = norm_type(qt(p))
        self.frames.append(fr); self.callstack.append(fn['id'])
        try:
            entry_pc = self.st.pc
            for c in fn.get('inner', ()):
                if c.get('kind') == 'CXXCtorInitializer' and self.st.alive: self.ctor_init(c, this)
            body = [c for c in fn.get('inner', ()) if c.get('kind') == 'CompoundStmt']
            if body and self.st.alive: self.stmt(body[-1])
            outs = list(fr.returns)
            if self.st.alive: outs.append((None, self.st))
            if not outs:
                self.st.alive = False
                return None
            return self.join_returns(outs, entry_pc)
        finally:
            self.frames.pop(); self.callstack.pop()
    def join_returns(self, outs, entry_pc):
        if len(outs) == 1:
            self.st = outs[0][1]; self.st.alive = True
            return outs[0][0]
        # fold from last
        n = len(entry_pc)
        val, st = outs[-1]
        for v, s in reversed(outs[:-1]):
            # prefix-stable: pcs extend entry pc
            suf = [x for x in s.pc if x not in entry_pc]
            cond = band(*suf)
            # remove facts common to both
            suf2 = [x for x in st.pc if x not in entry_pc]
            com = [x for x in suf if x in suf2]
            cond = band(*[x for x in suf if x not in com])
            base = State({}, entry_pc)
            merged = self.merge(cond, s, st, base)
            rest = [x for x in suf2 if x not in com]
            # keep disjunction of path conditions
            merged.pc = entry_pc + tuple(com)
            dis = bor(cond, band(*rest))
            if dis is not TRUE: merged.pc = merged.pc + (dis,)
            if v is None and val is None: pass
            elif v is None or val is None: val = v if val is None else val
            else: val = vite(cond, v, val)
            st = merged
        self.st = st; st.alive = True
        return val
    def convert_param(self, v, t):
        t = self.rtype(t)
        if t == 'bool' and isinstance(v, Poly): return to_bool(v)
        return v
    def ctor_init(self, c, this):
        any_ = c.get('anyInit')
        inner = c.get('inner', ())
        if any_ is None:
            # base or delegating initialiser
            if not inner: return
            e = inner[0]
            while e.get('kind') in ('ExprWithCleanups', 'CXXBindTemporaryExpr'): e = e['inner'][0]
            if e.get('kind') == 'CXXConstructExpr':
                t = norm_type(qt(e))
                q, r = self.rec(t)
                if r is None: return
                ctor = self.find_ctor(q, r, e['ctorType']['qualType'])
                if ctor is not None:
                    self.run_ctor(ctor, this, self.eval_args(ctor, e.get('inner', ())))
                elif e.get('inner'):
                    pass
                return
            raise Unsupported('base initialiser')
        lv = (this[0], this[1] + (('f', any_['name']),))
        if inner:
            x = inner[0]
            if x.get('kind') == 'CXXDefaultInitExpr': 
                init = self.field_init(any_['id'])
                if init is not None: self.store(lv, self.coerce(self.rv(init), any_['type']))
                return
            if x.get('kind') == 'ArrayInitLoopExpr': raise Unsupported('array copy initialiser')
            self.store(lv, self.coerce(self.rv(x), any_['type']))
    def field_init(self, fid):
        for r in self.prog.records.values():
            for c in r.get('inner', ()):
                if c.get('id') == fid:
                    ii = [x for x in c.get('inner', ()) if 'Attr' not in x.get('kind', '')]
                    return ii[-1] if ii else None
        return None
    def coerce(self, v, ty):
        t = self.rtype(ty.get('desugaredQualType') or ty.get('qualType'))
        if t == 'bool' and isinstance(v, Poly): return to_bool(v)
        return v

    # ---------------------------------------------------------------- statements
    def stmt(self, n):
        if not self.st.alive: return
        self.steps += 1
        if self.steps > self.max_steps: raise Unsupported('step budget exhausted')
        k = n['kind']
        f = getattr(self, 's_' + k, None)
        if f is not None:
            f(n); return
        self.rv_or_lv(n)
    def rv_or_lv(self, n):
        """evaluate expression for side effects"""
        if n.get('valueCategory') in ('lvalue', 'xvalue') and n['kind'] not in ('CXXOperatorCallExpr', 'CallExpr', 'CXXMemberCallExpr'):
            try:
                self.lv(n)
                return
            except Unsupported:
                raise
        if n['kind'] in ('CXXOperatorCallExpr', 'CallExpr', 'CXXMemberCallExpr'):
            self.call(n); return
        self.rv(n)
    def s_CompoundStmt(self, n):
        for c in n.get('inner', ()):
            if not self.st.alive: return
            self.stmt(c)
    def s_NullStmt(self, n): pass
    def s_ExprWithCleanups(self, n): self.stmt(n['inner'][0])
    def s_AttributedStmt(self, n): self.stmt(n['inner'][-1])
    def s_CXXTryStmt(self, n):
        self.stmt(n['inner'][0])
    def s_DeclStmt(self, n):
        for d in n.get('inner', ()):
            if d['kind'] == 'VarDecl': self.vardecl(d)
            elif d['kind'] in ('TypedefDecl', 'TypeAliasDecl', 'UsingDirectiveDecl', 'UsingDecl', 'CXXRecordDecl', 'StaticAssertDecl', 'EmptyDecl', 'EnumDecl'): 
                if d['kind'] == 'CXXRecordDecl': pass
            elif d['kind'] == 'DecompositionDecl': self.decomp(d)
            else: raise Unsupported('decl ' + d['kind'])
    def decomp(self, d):
        init = [c for c in d.get('inner', ()) if c['kind'] != 'BindingDecl']
        v = self.rv(init[0])
        cell = self.new_cell(v, 'sb')
        bs = [c for c in d.get('inner', ()) if c['kind'] == 'BindingDecl']
        keys = list(v.f.keys())
        for b, k in zip(bs, keys): self.frames[-1].env[b['id']] = (cell, (('f', k),))
    def vardecl(self, d):
        t = qt(d); env = self.frames[-1].env
        init = [c for c in d.get('inner', ()) if 'Attr' not in c.get('kind', '')]
        if is_ref(qt0(d)) or is_ref(t):
            if not init: raise Unsupported('reference without initialiser')
            env[d['id']] = self.lv(init[0]); return
        nt = self.rtype(t)
        if init:
            x = init[0]
            v = self.rv(x)
            if nt == 'bool' and isinstance(v, Poly): v = to_bool(v)
            if isinstance(v, _RefT): v = self.load(v.l)
        else:
            v = self.default_local(nt, d)
        if d.get('storageClass') == 'static' and v is UNDEF: v = self.default(nt, True)
        if not self.st.alive: return
        env[d['id']] = (self.new_cell(v, d.get('name', 'v')), ()); self.ctypes[env[d['id']][0]] = norm_type(qt(d))
    def default_local(self, nt, d):
        # variable-length array?
        m = re.match(r'(.*?)\[(.*)\]$', nt)
        if m and not m.group(2).isdigit():
            n = self.vla_len(m.group(2))
            et = m.group(1).strip()
            if is_byte(et): return seg(app('undef', n), n) if not (n.is_const() and n.const() == 0) else EMPTY
            return Vec(n, None, self.construct_default(et) if self.rec(et)[1] is not None else self.default(et, False))
        q, r = self.rec(nt)
        if r is not None and nt not in self.abstract: return self.construct_default(nt)
        return self.default(nt, zero=False)
    def vla_len(self, text):
        """length of a variable-length array: clang's JSON gives the bound as text only"""
        fr = self.frames[-1]; text = text.replace('this->', '')
        def value(name):
            if fr.this is not None and name in getattr(self.load(fr.this), 'f', {}): return to_int(self.load(fr.this).f[name])
            for d in iter_nodes(fr.fn):
                if d.get('name') == name and d.get('id') in fr.env: return to_int(self.load(fr.env[d['id']]))
            for q, d in self.prog.global_by_name.items():
                if q.split('::')[-1] == name: return to_int(self.load(self.global_lv(d['id'])))
            raise Unsupported('VLA bound ' + text)
        toks = re.findall(r'[A-Za-z_]\w*|\d+|[-+*()]', text)
        if ''.join(toks) != re.sub(r'\s+', '', text): raise Unsupported('VLA bound ' + text)
        env = {}; out = []
        for t in toks:
            if re.match(r'[A-Za-z_]', t): env['v_' + t] = value(t); out.append('v_' + t)
            elif t.isdigit(): out.append('P(%s)' % t)
            else: out.append(t)
        return P(eval(''.join(out), {'P': P}, env))
    def s_ReturnStmt(self, n):
        fr = self.frames[-1]
        inner = n.get('inner', ())
        v = None
        if inner:
            rt = ret_type(fr.fn)
            if is_ref(rt): v = Ref(self.lv(inner[0]))
            else:
                v = self.rv(inner[0])
                if norm_type(rt) == 'bool' and isinstance(v, Poly): v = to_bool(v)
        if not self.st.alive: return
        s = self.st.copy()
        fr.returns.append((v, s))
        self.st.alive = False
    def s_BreakStmt(self, n):
        self.frames[-1].loops[-1].breaks.append(self.st.copy()); self.st.alive = False
    def s_ContinueStmt(self, n):
        self.frames[-1].loops[-1].conts.append(self.st.copy()); self.st.alive = False
    def s_IfStmt(self, n):
        inner = list(n['inner'])
        if n.get('hasInit'): self.stmt(inner.pop(0))
        if n.get('hasVar'): self.stmt(inner.pop(0))
        cond = to_bool(self.rv(inner[0]))
        if not self.st.alive: return
        then = inner[1]; els = inner[2] if len(inner) > 2 else None
        self.branch(cond, lambda: self.stmt(then), lambda: self.stmt(els) if els is not None else None)
    def s_SwitchStmt(self, n):
        v = self.rv(n['inner'][0])
        body = n['inner'][-1]
        # flatten
        items = []
        def flat(x):
            if x['kind'] == 'CaseStmt':
                val = _find_value(x['inner'][0])
                items.append(('case', val)); flat(x['inner'][-1])
            elif x['kind'] == 'DefaultStmt':
                items.append(('default', None)); flat(x['inner'][-1])
            else: items.append(('s', x))
        for c in body.get('inner', ()): flat(c)
        fr = self.frames[-1]
        labels = [(i, k, val) for i, (k, val) in enumerate(items) if k in ('case', 'default')]
        base = self.st
        outs = []
        neg = []
        order = [l for l in labels if l[1] == 'case'] + [l for l in labels if l[1] == 'default']
        hasdef = any(l[1] == 'default' for l in labels)
        for i, k, val in order + ([] if hasdef else [(len(items), 'default', None)]):
            cond = eq(v, P(val)) if k == 'case' else band(*[bnot(x) for x in neg])
            if k == 'case': neg.append(cond)
            self.st = base.copy()
            if self.decide(cond) is False: continue
            self.assume(cond)
            lc = LoopCtx(); fr.loops.append(lc)
            for kk, x in items[i:]:
                if kk == 's' and self.st.alive: self.stmt(x)
            fr.loops.pop()
            if lc.conts: raise Unsupported('continue in switch')
            for s in lc.breaks: outs.append((cond, s))
            if self.st.alive: outs.append((cond, self.st))
        if not outs:
            self.st = base; self.st.alive = False; return
        r = outs[-1][1]
        for cond, s in reversed(outs[:-1]):
            r = self.merge(cond, s, r, base)
        self.st = r; self.st.alive = True
    # loops ------------------------------------------------------------
    def s_ForStmt(self, n):
        init, cv, cond, inc, body = (list(n['inner']) + [{}] * 5)[:5]
        if init and init.get('kind'): self.stmt(init)
        self.loop(n, cond if cond.get('kind') else None, inc if inc.get('kind') else None, body)
    def s_WhileStmt(self, n):
        self.loop(n, n['inner'][0], None, n['inner'][-1])
    def s_DoStmt(self, n):
        # body; while(cond) body
        body, cond = n['inner'][0], n['inner'][1]
        self.iter_body(body, None)
        if self.st.alive: self.loop(n, cond, None, body)
    def s_CXXForRangeStmt(self, n):
        inner = [c for c in n['inner'] if c.get('kind')]
        rng = inner[0]
        if rng['kind'] != 'DeclStmt': rng = inner[1]
        # find range initialiser expression and loop variable
        rexpr = rng['inner'][0]['inner'][0]
        body = inner[-1]
        lvdecl = inner[-2]['inner'][0]
        try: clv = self.lv(rexpr)
        except Unsupported:
            clv = (self.new_cell(self.rv(rexpr), 'range'), ())
        v = self.load(clv)
        if isinstance(v, Struct) and v.cls == 'initlist': pass
        if not isinstance(v, (Vec, Bytes)): raise Unsupported('range-for over %s' % type(v).__name__)
        env = self.frames[-1].env
        kc = self.new_cell(P(0), 'rangeidx')
        isref = is_ref(qt0(lvdecl)) or is_ref(qt(lvdecl))
        nlen = v.length()
        def cond(): return lt(self.st.mem[kc], nlen)
        def pre():
            i = self.st.mem[kc]
            el = (clv[0], clv[1] + (('i', i),))
            if isref: env[lvdecl['id']] = el
            else: env[lvdecl['id']] = (self.new_cell(self.load(el), lvdecl.get('name', 'x')), ())
        def inc(): self.store((kc, ()), self.st.mem[kc] + 1)
        self.loop(n, cond, inc, body, pre)
    def iter_body(self, body, inc, pre=None):
        """one iteration; returns list of break states; current state = after iteration (or dead)"""
        fr = self.frames[-1]
        lc = LoopCtx(); fr.loops.append(lc)
        base = self.st.copy()
        if pre: pre()
        self.stmt(body)
        fr.loops.pop()
        outs = lc.conts + ([self.st] if self.st.alive else [])
        if outs:
            r = outs[-1]
            for s in reversed(outs[:-1]):
                suf = [x for x in s.pc if x not in base.pc]
                suf2 = [x for x in r.pc if x not in base.pc]
                com = [x for x in suf if x in suf2]
                r = self.merge(band(*[x for x in suf if x not in com]), s, r, base)
            self.st = r; self.st.alive = True
            if inc is not None:
                if callable(inc): inc()
                else: self.rv_or_lv(inc)
        else:
            self.st.alive = False
        return lc.breaks
    def loop(self, n, cond, inc, body, pre=None, omp=None):
        exits = []
        it = 0
        def evc():
            if cond is None: return TRUE
            if callable(cond): return cond()
            return to_bool(self.rv(cond))
        start = self.st.copy()
        tried_big = False
        while self.st.alive:
            saved = self.st.copy()
            c = evc()
            if not self.st.alive: break
            if c is FALSE: exits.append(self.st); break
            if c is not TRUE:
                self.st = saved.copy()
                err = self.summarise(n, evc, inc, body, pre, omp)
                if err is None:
                    exits.append(self.st); break
                self.st = saved.copy()
                if self.loop_rule is not None and self.loop_rule(self, n, evc, inc, body, pre):     # a user-supplied loop invariant
                    exits.append(self.st); break
                self.st = saved.copy()
                c = evc()
                d = self.decide(c)
                if d is False: exits.append(self.st); break
                if d is None: raise Unsupported('loop at %s: %s' % (where(n), err))
            it += 1
            if it > self.unroll:
                if not exits and not tried_big:
                    tried_big = True
                    self.st = start.copy()
                    err = self.summarise(n, evc, inc, body, pre, omp)
                    if err is None:
                        exits.append(self.st); break
                raise Unsupported('unroll limit at %s' % where(n))
            br = self.iter_body(body, inc, pre)
            exits += br
        exits = [e for e in exits if e.alive or True]
        if not exits:
            self.st.alive = False; return
        r = exits[-1]
        for s in reversed(exits[:-1]):
            suf = [x for x in s.pc if x not in saved.pc] or list(s.pc)
            suf2 = list(r.pc)
            com = [x for x in s.pc if x in suf2]
            cnd = band(*[x for x in s.pc if x not in com])
            r = self.merge(cnd, s, r, saved)
            rest = [x for x in suf2 if x not in com]
            r.pc = tuple(com) + ((bor(cnd, band(*rest)),) if bor(cnd, band(*rest)) is not TRUE else ())
        self.st = r; self.st.alive = True
    def s_OMPParallelForDirective(self, n):
        fs = find_first(n, ('ForStmt', 'CXXForRangeStmt'))
        if fs is None: raise Unsupported('omp for without loop')
        from loops import check_omp
        check_omp(self, n, fs)
        self.omp_depth += 1; self.omp_nodes.append(fs)
        try: self.stmt(fs)
        finally: self.omp_depth -= 1; self.omp_nodes.pop()
    s_OMPForDirective = s_OMPParallelForDirective
    def s_OMPParallelForSimdDirective(self, n): return self.s_OMPParallelForDirective(n)
    def s_OMPAtomicDirective(self, n):
        cs = find_first(n, ('CapturedDecl',))
        self.stmt(captured_body(n))
    s_OMPCriticalDirective = s_OMPAtomicDirective
    def s_OMPParallelDirective(self, n): self.stmt(captured_body(n))
    def s_OMPSectionsDirective(self, n): self.stmt(captured_body(n))
    def s_OMPParallelSectionsDirective(self, n): self.stmt(captured_body(n))
    def s_OMPSectionDirective(self, n): self.stmt(captured_body(n))
    def s_OMPSingleDirective(self, n): self.stmt(captured_body(n))
    def summarise(self, n, evc, inc, body, pre, omp):
        from loops import summarise
        return summarise(self, n, evc, inc, body, pre, omp)

    # ---------------------------------------------------------------- lvalues
    def lv(self, n):
        k = n['kind']
        f = getattr(self, 'l_' + k, None)
        if f is None:
            if n.get('valueCategory') == 'prvalue':
                return (self.new_cell(self.rv(n), 'tmp'), ())
            raise Unsupported('lvalue ' + k + ' at ' + where(n))
        return f(n)
    def l_ParenExpr(self, n): return self.lv(n['inner'][0])
    l_ExprWithCleanups = l_ParenExpr
    l_ConstantExpr = l_ParenExpr
    def l_MaterializeTemporaryExpr(self, n):
        x = n['inner'][0]
        if x.get('valueCategory') in ('lvalue', 'xvalue'): return self.lv(x)
        if 'Bit_reference' in qt(x):
            while x['kind'] in ('ExprWithCleanups', 'CXXBindTemporaryExpr', 'ParenExpr', 'ImplicitCastExpr'): x = x['inner'][0]
            if x['kind'] in ('CXXOperatorCallExpr', 'CXXMemberCallExpr', 'CallExpr'): return self.l_CallExpr(x)
        return (self.new_cell(self.rv(x), 'tmp'), ())
    def l_DeclRefExpr(self, n):
        return self.var_lv(n['referencedDecl'], n)
    def var_lv(self, rd, n):
        id_ = rd['id']
        for fr in (self.frames[-1:] if self.frames else []):
            if id_ in fr.env: return fr.env[id_]
        # lambda captures: search outward
        for fr in reversed(self.frames[:-1]):
            if id_ in fr.env and getattr(self.frames[-1], 'captures', False): return fr.env[id_]
        if id_ in self.prog.globals or id_ in self.gcell: return self.global_lv(id_)
        nm = rd.get('name', '')
        if nm in ('cout', 'cerr', 'endl', 'stdout', 'stderr', 'stdin'):
            return (self.new_cell(Opaque(nm), nm), ())
        if rd['kind'] == 'EnumConstantDecl': return (self.new_cell(P(self.prog.enums.get(id_, 0)), 'enum'), ())
        # redeclared global
        for gid, (q, d) in self.prog.globals.items():
            if d.get('name') == nm: return self.global_lv(gid)
        raise Unsupported('variable %s not found at %s' % (nm, where(n)))
    def global_lv(self, gid):
        if gid in self.gcell: 
            c = self.gcell[gid]
            if c not in self.st.mem: self.st.mem[c] = self.global_init[c]
            g = self.st.mem[c]
            if isinstance(g, Ptr) and g.cell not in self.st.mem and g.cell in self.global_init: self.st.mem[g.cell] = self.global_init[g.cell]
            return (c, ())
        q, d = self.prog.globals[gid]
        # one cell per name
        c = 'glob:' + q
        if c not in self.st.mem:
            v = self.global_value(q, d)
            if isinstance(v, Ref): self.gcell[gid] = v.l[0]; return v.l
            self.st.mem[c] = v
            self.global_init = getattr(self, 'global_init', {})
            self.global_init[c] = v
            if isinstance(v, Ptr) and v.cell in self.st.mem: self.global_init[v.cell] = self.st.mem[v.cell]
        self.gcell[gid] = c
        return (c, ())
    def global_value(self, q, d):
        if q in self.global_over:
            v = self.global_over[q]
            return v(self) if callable(v) else v
        from externals import GLOBALS
        if q in GLOBALS:
            v = GLOBALS[q]
            return v(self) if callable(v) else v
        init = [c for c in d.get('inner', ()) if 'Attr' not in c.get('kind', '')]
        t = self.rtype(qt(d))
        if init:
            fr = Frame(None); fr.fn = {'id': None, 'inner': []}
            self.frames.append(fr)
            try: v = self.rv(init[0])
            finally: self.frames.pop()
            return v
        # tentative definition: look for another declaration with initialiser
        for gid, (q2, d2) in self.prog.globals.items():
            if q2 == q and d2 is not d and any('Attr' not in c.get('kind', '') for c in d2.get('inner', ())):
                return self.global_value(q2, d2)
        return self.default(t, True)
    def l_CXXThisExpr(self, n): raise Unsupported('this as lvalue')
    def l_MemberExpr(self, n):
        x = n['inner'][0]
        name = n['name']
        mid = n.get('referencedMemberDecl')
        if n.get('isArrow'):
            p = self.rv(x)
            if not isinstance(p, Ptr): raise Unsupported('-> on %r at %s' % (type(p).__name__, where(n)))
            base = p.lv()
        else:
            base = self.lv(x)
        if mid in self.prog.globals: return self.global_lv(mid)
        return self.member(base, name)
    def member(self, base, name):
        v = None
        try: v = self.load(base)
        except Unsupported: pass
        if name == 'bn_ptr' and isinstance(v, Poly): return (base[0], base[1] + (('bnp', None),))
        if name == 'point_ptr' and isinstance(v, G): return (base[0], base[1] + (('bnp', None),))
        if isinstance(v, Struct) and v.cls == 'tuple':
            if name == 'first': name = '0'
            if name == 'second': name = '1'
        return (base[0], base[1] + (('f', name),))
    def l_ArraySubscriptExpr(self, n):
        b = self.rv(n['inner'][0]); i = self.rv(n['inner'][1])
        if isinstance(i, Ptr): b, i = i, b
        return self.deref(b, to_int(i), n)
    def deref(self, p, off, n):
        if isinstance(p, Vec) or isinstance(p, Bytes):
            return (self.new_cell(p, 'arr'), (('i', P(off)),))
        if not isinstance(p, Ptr): raise Unsupported('dereference of %s at %s' % (type(p).__name__, where(n)))
        if p.path and p.path[-1][0] == 'i': q = p.moved(off); return q.lv()
        if P(off).is_zero(): return p.lv()
        return (p.cell, p.path + (('i', P(off)),))
    def l_UnaryOperator(self, n):
        op = n['opcode']; x = n['inner'][0]
        if op == '*':
            p = self.rv(x)
            return self.deref(p, P(0), n)
        if op in ('++', '--') and not n.get('isPostfix'):
            lv = self.lv(x)
            self.store(lv, self.incdec(self.load(lv), op, qt(x)))
            return lv
        if op == '__extension__': return self.lv(x)
        raise Unsupported('lvalue unary ' + op)
    def incdec(self, v, op, t):
        d = 1 if op == '++' else -1
        if isinstance(v, Ptr): return v.moved(d)
        r = to_int(v) + d
        t = self.rtype(t)
        if r.is_const() and t in INT_TYPES: r = wrap_const(r, t)
        return r
    def l_BinaryOperator(self, n):
        op = n['opcode']
        if op == '=':
            rhs = n['inner'][1]
            v = self.rv(rhs)
            lv = self.lv(n['inner'][0])
            t = self.rtype(qt(n['inner'][0]))
            if t == 'bool' and isinstance(v, Poly): v = to_bool(v)
            if not self.st.alive: return lv
            self.store(lv, v)
            return lv
        if op == ',':
            self.rv_or_lv(n['inner'][0]); return self.lv(n['inner'][1])
        raise Unsupported('lvalue binop ' + op)
    def l_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        rhs = self.rv(n['inner'][1])
        lv = self.lv(n['inner'][0])
        v = self.load(lv)
        from externals import binop
        t = self.rtype(qt(n['inner'][0]))
        ct = (n.get('computeLHSType') or {})
        ct = self.rtype(ct.get('desugaredQualType') or ct.get('qualType') or t)
        r = binop(self, op, v, rhs, ct, n)
        if t in INT_TYPES and t != 'bool' and isinstance(r, (Poly, B)): r = self.int_cast(to_int(r), ct, t)
        self.store(lv, r)
        return lv
    def l_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        if n.get('valueCategory') == 'prvalue':
            return (self.new_cell(self.rv(n), 'tmp'), ())
        return self.lv(n['inner'][0])
    l_CXXStaticCastExpr = l_ImplicitCastExpr
    l_CXXConstCastExpr = l_ImplicitCastExpr
    l_CXXFunctionalCastExpr = l_ImplicitCastExpr
    l_CStyleCastExpr = l_ImplicitCastExpr
    l_CXXReinterpretCastExpr = l_ImplicitCastExpr
    def l_CXXBindTemporaryExpr(self, n): return (self.new_cell(self.rv(n), 'tmp'), ())
    def l_ConditionalOperator(self, n):
        c = to_bool(self.rv(n['inner'][0]))
        d = self.decide(c)
        if d is True: return self.lv(n['inner'][1])
        if d is False: return self.lv(n['inner'][2])
        v = self.branch(c, lambda: self.load(self.lv(n['inner'][1])), lambda: self.load(self.lv(n['inner'][2])))
        return (self.new_cell(v, 'tmp'), ())
    def l_StringLiteral(self, n): return (self.new_cell(self.rv(n), 'str'), ())
    def l_CallExpr(self, n):
        r = self.call(n)
        if isinstance(r, Ref): return r.l
        return (self.new_cell(r, 'tmp'), ())
    l_CXXMemberCallExpr = l_CallExpr
    l_CXXOperatorCallExpr = l_CallExpr
    def l_OpaqueValueExpr(self, n): return self.lv(n['inner'][0])
    def l_CXXDefaultArgExpr(self, n): return (self.new_cell(self.rv(n), 'tmp'), ())
    def l_InitListExpr(self, n): return (self.new_cell(self.rv(n), 'tmp'), ())
    def l_PredefinedExpr(self, n): return (self.new_cell(EMPTY, 'tmp'), ())
    def l_CompoundLiteralExpr(self, n): return (self.new_cell(self.rv(n['inner'][0]), 'tmp'), ())

    # ---------------------------------------------------------------- rvalues
    def rv(self, n):
        k = n['kind']
        f = getattr(self, 'r_' + k, None)
        if f is None:
            if hasattr(self, 'l_' + k): 
                return self.load_any(self.lv(n))
            raise Unsupported('rvalue ' + k + ' at ' + where(n))
        return f(n)
    def load_any(self, lv):
        if lv[1] and lv[1][-1][0] == 'bnp':
            return Ptr(lv[0], lv[1][:-1] + (('bn', None),))
        return self.load(lv)
    def r_ParenExpr(self, n): return self.rv(n['inner'][0])
    r_ExprWithCleanups = r_ParenExpr
    r_CXXBindTemporaryExpr = r_ParenExpr
    r_ConstantExpr = r_ParenExpr
    r_SubstNonTypeTemplateParmExpr = r_ParenExpr
    def r_MaterializeTemporaryExpr(self, n): return self.rv(n['inner'][0])
    def r_CXXStdInitializerListExpr(self, n): return self.rv(n['inner'][0])
    def r_OpaqueValueExpr(self, n): return self.rv(n['inner'][0])
    def r_IntegerLiteral(self, n): return P(int(n['value']))
    def r_CharacterLiteral(self, n): return P(int(n['value']))
    def r_FloatingLiteral(self, n):
        from fractions import Fraction
        f = Fraction(n['value'])
        if f.denominator == 1: return P(int(f))
        return P(app('float', str(n['value'])))
    def r_CXXBoolLiteralExpr(self, n): return bconst(n['value'])
    def r_CXXNullPtrLiteralExpr(self, n): return NULL
    r_GNUNullExpr = r_CXXNullPtrLiteralExpr
    def r_StringLiteral(self, n):
        import ast
        s = n['value']
        try: b = ast.literal_eval(s if s.startswith('"') else s[s.index('"'):]).encode('latin1', 'replace')
        except Exception: b = s.strip('"').encode()
        return Bytes((b,))
    def r_ImplicitValueInitExpr(self, n): return self.default(qt(n), True)
    def r_CXXScalarValueInitExpr(self, n): return self.default(qt(n), True)
    def r_CXXThisExpr(self, n):
        t = self.frames[-1].this
        if t is None: raise Unsupported('no this')
        return Ptr(t[0], t[1])
    def r_UnaryExprOrTypeTraitExpr(self, n):
        if n['name'] != 'sizeof': raise Unsupported(n['name'])
        at = n.get('argType')
        if at: t = at.get('desugaredQualType') or at.get('qualType')
        else: t = qt(n['inner'][0])
        return P(self.sizeof(t))
    def sizeof(self, t):
        t = self.rtype(t)
        m = re.match(r'(.*?)\[(\d+)\](.*)$', t)
        if m: return int(m.group(2)) * self.sizeof(m.group(1) + m.group(3))
        if t in INT_TYPES: return max(1, INT_TYPES[t][0] // 8)
        if is_ptr(t): return 8
        if t == '__m128i': return 16
        if t in ('double',): return 8
        if t in ('float',): return 4
        q, r = self.rec(t)
        if r is not None:
            fs = [self.sizeof(qt(c)) for c in r.get('inner', ()) if c.get('kind') == 'FieldDecl']
            al = [min(16, s) for s in fs] or [1]
            tot = 0
            for s in fs:
                a = s if s in (1, 2, 4, 8, 16) else (16 if s % 16 == 0 else 8 if s % 8 == 0 else 4 if s % 4 == 0 else 1)
                tot = (tot + a - 1) // a * a + s
            a = max([s if s in (1, 2, 4, 8, 16) else 1 for s in fs] or [1])
            return (tot + a - 1) // a * a
        raise Unsupported('sizeof ' + t)
    def r_DeclRefExpr(self, n):
        rd = n['referencedDecl']
        if rd['kind'] == 'EnumConstantDecl': return P(self.prog.enums.get(rd['id'], 0))
        if rd['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return Opaque('fn:' + rd.get('name', ''))
        return self.load_any(self.lv(n))
    def r_MemberExpr(self, n):
        return self.load_any(self.lv(n))
    def r_ArraySubscriptExpr(self, n): return self.load_any(self.lv(n))
    def r_InitListExpr(self, n):
        t = self.rtype(qt(n))
        xs = list(n.get('inner', ()))
        filler = n.get('array_filler')
        if filler is not None and not xs:
            xs = [x for x in filler if x.get('kind') != 'ImplicitValueInitExpr']
        q, r = self.rec(t)
        if r is not None and t not in self.abstract:
            v = self.default(t, True)
            fs = [c['name'] for c in r['inner'] if c.get('kind') == 'FieldDecl']
            f = dict(v.f)
            for name, x in zip(fs, xs): f[name] = self.rv(x)
            return Struct(q, f)
        m = re.match(r'(.*?)\[(\d*)\](.*)$', t)
        if m:
            vals = [self.rv(x) for x in xs]
            et = m.group(1).strip() + m.group(3)
            nn = int(m.group(2)) if m.group(2) else len(vals)
            vals = [v for v in vals][:nn]
            while len(vals) < nn and nn <= 4096: vals.append(self.default(et, True))
            if is_byte(et):
                b = EMPTY
                for v in vals: b = b + byte_of(to_int(v))
                return b
            return Vec.of_list(vals)
        if len(xs) == 1: return self.rv(xs[0])
        if not xs: return self.default(t, True)
        return Vec.of_list([self.rv(x) for x in xs])
    def r_CXXConstructExpr(self, n):
        from externals import construct
        return construct(self, n)
    r_CXXTemporaryObjectExpr = r_CXXConstructExpr
    r_CXXUnresolvedConstructExpr = r_CXXConstructExpr
    def r_CXXDefaultArgExpr(self, n):
        if n.get('inner'): return self.rv(n['inner'][0])
        raise Unsupported('default argument')
    def r_CXXDefaultInitExpr(self, n): raise Unsupported('default init')
    def r_LambdaExpr(self, n): return Struct('lambda', {'node': _Box(n), 'frame': _Box(self.frames[-1])})
    def r_ConditionalOperator(self, n):
        c = to_bool(self.rv(n['inner'][0]))
        return self.branch(c, lambda: self.rv(n['inner'][1]), lambda: self.rv(n['inner'][2]))
    def r_UnaryOperator(self, n):
        op = n['opcode']; x = n['inner'][0]
        if op == '&':
            if x['kind'] == 'DeclRefExpr' and x['referencedDecl']['kind'] in ('FunctionDecl', 'CXXMethodDecl'): return Opaque('fn')
            lv = self.lv(x)
            return Ptr(lv[0], lv[1])
        if op in ('++', '--'):
            lv = self.lv(x)
            v = self.load(lv)
            nv = self.incdec(v, op, qt(x))
            self.store(lv, nv)
            return v if n.get('isPostfix') else nv
        if op == '*': return self.load_any(self.lv(n))
        v = self.rv(x)
        if op == '!': return bnot(to_bool(v))
        if op == '-':
            t = self.rtype(qt(n))
            r = -to_int(v)
            return wrap_const(r, t)
        if op == '+': return v
        if op == '~':
            from externals import bitnot
            return bitnot(self, v, self.rtype(qt(n)))
        if op == '__extension__': return v
        raise Unsupported('unary ' + op)
    def r_BinaryOperator(self, n):
        from externals import binop
        op = n['opcode']
        a, b = n['inner']
        if op in ('=', ): return self.load_any(self.lv(n))
        if op == ',':
            self.rv_or_lv(a); return self.rv(b)
        if op == '&&':
            c = to_bool(self.rv(a))
            if c is FALSE: return FALSE
            return self.shortcircuit(c, lambda: to_bool(self.rv(b)), lambda: FALSE)
        if op == '||':
            c = to_bool(self.rv(a))
            if c is TRUE: return TRUE
            return self.shortcircuit(c, lambda: TRUE, lambda: to_bool(self.rv(b)))
        x = self.rv(a); y = self.rv(b)
        return binop(self, op, x, y, self.rtype(qt(n)), n)
    def shortcircuit(self, c, fa, fb): return self.branch(c, fa, fb)
    def r_CompoundAssignOperator(self, n): return self.load(self.lv(n))
    def r_ImplicitCastExpr(self, n):
        ck = n.get('castKind'); x = n['inner'][0]
        if ck == 'LValueToRValue': return self.load_any(self.lv(x))
        if ck == 'ArrayToPointerDecay':
            lv = self.lv(x)
            return Ptr(lv[0], lv[1] + (('i', P(0)),))
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr'): return Opaque('fn')
        if ck == 'NullToPointer': return NULL
        v = self.rv(x)
        if ck in ('NoOp', 'ConstructorConversion', 'UserDefinedConversion', 'DerivedToBase', 'UncheckedDerivedToBase', 'AtomicToNonAtomic', 'NonAtomicToAtomic'): 
            return v
        t = self.rtype(qt(n)); s = self.rtype(qt(x))
        if ck in ('IntegralToBoolean', 'PointerToBoolean'): return to_bool(v)
        if ck == 'IntegralCast':
            return self.int_cast(to_int(v) if not isinstance(v, B) or t != 'bool' else v, s, t)
        if ck == 'BitCast':
            return self.ptr_cast(v, s, t)
        if ck == 'IntegralToFloating': return to_int(v)
        if ck == 'FloatingToIntegral': 
            from externals import float_to_int
            return float_to_int(self, v)
        if ck == 'FloatingCast': return v
        if ck == 'ToVoid': return None
        if ck == 'VectorSplat': return v
        raise Unsupported('cast ' + str(ck))
    r_CXXStaticCastExpr = r_ImplicitCastExpr
    r_CXXConstCastExpr = r_ImplicitCastExpr
    r_CStyleCastExpr = r_ImplicitCastExpr
    r_CXXReinterpretCastExpr = r_ImplicitCastExpr
    r_CXXFunctionalCastExpr = r_ImplicitCastExpr
    def ptr_cast(self, v, s, t):
        if isinstance(v, Ptr):
            tt = t[:-1] if t.endswith('*') else t
            return Ptr(v.cell, v.path, tt)
        return v
    def int_cast(self, v, s, t):
        """integer conversion from type s to t"""
        if isinstance(v, B): return v if t == 'bool' else to_int(v)
        if t not in INT_TYPES: return v
        w, sg = INT_TYPES[t]
        if t == 'bool': return to_bool(v)
        if v.is_const(): return wrap_const(v, t)
        ws, ss = INT_TYPES.get(s, (64, True))
        if w > ws or (w == ws): 
            return v          # widening / same width: value assumed in range of both (listed assumption)
        from externals import in_range
        if in_range(self, v, w, sg): return v
        if w >= 32: 
            self.assumed.add('values converted to a %d-bit integer type fit in it' % w)
            return v
        return wrap_int(v, w, sg)
    # calls --------------------------------------------------------------
    def eval_args(self, fn, nodes):
        params = [c for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        out = []
        for i, a in enumerate(nodes):
            if a['kind'] == 'CXXDefaultArgExpr':
                if i < len(params):
                    init = [c for c in params[i].get('inner', ()) if 'Attr' not in c.get('kind', '')]
                    if not init:
                        init = self.default_arg_from_other_decl(fn, i)
                    out.append(('v', self.rv(init[0])))
                continue
            if i < len(params) and is_ref(qt0(params[i])): out.append(('l', self.lv(a)))
            else: out.append(('v', self.rv(a)))
        return out
    def default_arg_from_other_decl(self, fn, i):
        d = fn
        while d is not None:
            ps = [c for c in d.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
            init = [c for c in ps[i].get('inner', ()) if 'Attr' not in c.get('kind', '')]
            if init: return init
            d = self.prog.alldecls.get(d.get('previousDecl'))
        raise Unsupported('default argument')
    def r_CallExpr(self, n):
        r = self.call(n)
        if isinstance(r, Ref): return self.load(r.l)
        return r
    r_CXXMemberCallExpr = r_CallExpr
    r_CXXOperatorCallExpr = r_CallExpr
    def r_UserDefinedLiteral(self, n): return self.r_CallExpr(n)
    def call(self, n):
        if not self.st.alive: return None
        from externals import dispatch
        return dispatch(self, n)
    def r_CXXNewExpr(self, n):
        from externals import newexpr
        return newexpr(self, n)
    def r_CXXDeleteExpr(self, n): self.rv(n['inner'][0]); return None
    def r_CXXThrowExpr(self, n):
        self.aborts.append((self.st.pc, 'throw', where(n))); self.st.alive = False; return None
    def r_ArrayInitLoopExpr(self, n): raise Unsupported('ArrayInitLoopExpr')

_RefT = Ref
class _Box:
    depth = 0
    def __init__(self, x): self.x = x
    def __hash__(self): return id(self.x)
    def __eq__(self, o): return isinstance(o, _Box) and self.x is o.x

class Call:
    """argument access for contracts"""
    def __init__(self, ex, fn, args, this):
        self.ex = ex; self.fn = fn; self.args = args; self.this = this
        self.q = ex.prog.qual.get(fn['id'])
    def __len__(self): return len(self.args)
    def val(self, i):
        if i >= len(self.args):
            p = [c for c in self.fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl'][i]
            init = [c for c in p.get('inner', ()) if 'Attr' not in c.get('kind', '')] or self.ex.default_arg_from_other_decl(self.fn, i)
            return self.ex.rv(init[0])
        k, x = self.args[i]
        return self.ex.load(x) if k == 'l' else x
    def lv(self, i):
        k, x = self.args[i]
        if k == 'l': return x
        return (self.ex.new_cell(x, 'arg'), ())
    def me(self): return self.ex.load(self.this)
    def setme(self, v): self.ex.store(self.this, v)

def qt0(node):
    return (node.get('type') or {}).get('qualType', '')
def norm_sig(s): return re.sub(r'\s+', '', norm_type(s.replace('noexcept(false)', '').replace('noexcept', '')))
def ret_type(fn):
    t = qt0(fn)
    i = t.find('(')
    # "T (args)": handle function returning plain types
    d = 0
    for j, ch in enumerate(t):
        if ch == '<': d += 1
        if ch == '>': d -= 1
        if ch == '(' and d == 0:
            return t[:j].strip()
    return t
def where(n):
    a = n.get('_at')
    return '%s:%s' % (a[0], a[1]) if a else '?'
def wrap_int(v, w, sg):
    v = P(v); w_ = w.const() if isinstance(w, Poly) else w; a = v.atom()
    def k(x):
        x = x.const() % (1 << w_); return P(x - (1 << w_) if sg and x >> (w_ - 1) else x)
    if v.is_const(): return k(v)
    if a is not None and a.name == 'ite' and a.args[1].is_const() and a.args[2].is_const(): return ite(a.args[0], k(a.args[1]), k(a.args[2]))
    if a is not None and a.name == 'r2i' and not sg:
        from externals import r2i_width
        if r2i_width(a.args[0]) <= w_: return v
    return P(app('wrap', v, w, sg))
REBUILD['wrap'] = wrap_int
def wrap_const(p, t):
    if p.is_const() and t in INT_TYPES:
        w, s = INT_TYPES[t]
        v = p.const() % (1 << w)
        if s and v >= 1 << (w - 1): v -= 1 << w
        return P(v)
    return p
def iter_nodes(n):
    yield n
    for c in n.get('inner', ()):
        if isinstance(c, dict): yield from iter_nodes(c)
def find_first(n, kinds):
    for c in n.get('inner', ()):
        if c.get('kind') in kinds: return c
        r = find_first(c, kinds)
        if r is not None: return r
    return None
def captured_body(n):
    cd = find_first(n, ('CapturedDecl',))
    if cd is not None:
        return [c for c in cd['inner'] if c.get('kind') not in ('ImplicitParamDecl',) and 'Attr' not in c.get('kind', '')][0]
    return n['inner'][-1]
