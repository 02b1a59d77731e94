"""Frame (ownership) conditions of data-parallel regions, generated from the clang AST.

For every OpenMP loop the read and write footprint of one iteration is collected: every access path base.field[index]...
of a variable that the iterations share. Calls enter through the frame their signature allows (non-const references and
pointers may be written, everything else is only read) and through the global variables their bodies (transitively) write.
Obligation for each write and each access to the same variable: for all distinct iterations i, j the two paths differ,
discharged by z3 for all values of the loop bounds and of every variable in the index expressions."""
import z3, re
from interp import where, find_first
ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
SKIP = {'ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr', 'CStyleCastExpr', 'CXXStaticCastExpr', 'CXXReinterpretCastExpr', 'CXXConstCastExpr', 'CXXFunctionalCastExpr', 'ConstantExpr', 'SubstNonTypeTemplateParmExpr'}
def strip(n):
    while n.get('kind') in SKIP and n.get('inner'): n = n['inner'][-1]
    return n
def qt(n): t = n.get('type') or {}; return t.get('desugaredQualType') or t.get('qualType') or ''
def kids(n): return [c for c in n.get('inner', ()) if isinstance(c, dict) and c.get('kind')]
def walk(n):
    yield n
    for c in kids(n): yield from walk(c)
def params(t):
    """parameter types of a function type"""
    i = t.find('(')
    d = 0; i = None
    # the parameter list is the last top-level parenthesised group
    e = t.rstrip()
    e = re.sub(r'\s*(const|noexcept|&|&&)\s*$', '', e); e = re.sub(r'\s*(const|noexcept)\s*$', '', e)
    if not e.endswith(')'): return None
    k = len(e) - 1
    for k in range(len(e) - 1, -1, -1):
        if e[k] == ')': d += 1
        elif e[k] == '(':
            d -= 1
            if d == 0: break
    s = e[k + 1:-1]; out = []; d = 0; cur = ''
    for ch in s:
        if ch in '<([': d += 1
        if ch in '>)]': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def may_write(t):
    t = t.strip()
    if t.endswith('&&'): return False
    if t.endswith('&'): return not re.match(r'^const\b', t) and not t.endswith('const &')
    if t.endswith('*') or t.endswith('*__restrict'): return not re.match(r'^const\b', t)
    return False
class Acc:
    def __init__(s, base, name, path, mode, node, const=None, guarded=False, soft=False): s.base, s.name, s.path, s.mode, s.node, s.const, s.guarded, s.soft, s.rmw = base, name, path, mode, node, const, guarded, soft, False
class Frames:
    def __init__(self, prog):
        self.p = prog; self.gw = {}; self.fr = {}
    def callee(self, n):
        k = n['kind']
        c = kids(n)
        if not c: return None, None
        f = strip(c[0])
        if f.get('kind') == 'DeclRefExpr': rd = f.get('referencedDecl') or {}; return rd.get('id'), qt(rd) or qt(f)
        if f.get('kind') == 'MemberExpr': return f.get('referencedMemberDecl'), (qt(self.p.alldecls[f['referencedMemberDecl']]) if f.get('referencedMemberDecl') in (self.p.alldecls or {}) else None)
        return None, None
    def definition(self, i):
        p = self.p
        for _ in range(4):
            if i in p.funcs: return p.funcs[i]
            if i in p.link: i = p.link[i]
            else: break
        return p.funcs.get(i)
    def frame(self, fid):
        """what a call writes through its parameters: {parameter number or 'this': 'all' | 'part' | 'sync'}; None if there is no body"""
        d = self.definition(fid)
        if d is None: return None
        i = d['id']
        if i in self.fr: return self.fr[i]
        self.fr[i] = None        # recursion: fall back on the signature
        r = Region(self, d, None); r.body(d)
        ps = [c['id'] for c in kids(d) if c['kind'] == 'ParmVarDecl']; out = {}
        for a in r.acc:
            if a.mode != 'W': continue
            k = 'this' if a.base == 'this' else ps.index(a.base) if a.base in ps else None
            if k is None: continue
            v = 'sync' if a.guarded else 'part' if any(x[0] in 'ip?r' for x in a.path) or a.soft else 'all'
            if k == 'this' and v == 'all' and a.path: v = 'fields'
            o = out.get(k); rank = ['sync', 'part', 'fields', 'all']
            if o is None or rank.index(v) > rank.index(o): out[k] = v
        self.fr[i] = out
        return out
    # ---- global variables written by a function body
    def global_writes(self, fid, seen=None):
        """[(variable, index text or None, where)] of non-thread-private globals a call may write"""
        d = self.definition(fid)
        if d is None: return []
        i = d['id']
        if i in self.gw: return self.gw[i]
        self.gw[i] = []          # recursion
        r = Region(self, d, None)
        r.body(d)
        out = []
        for a in r.acc:
            if a.mode != 'W' or a.guarded: continue
            g = self.p.globals.get(a.base)
            if g is None and not r.static.get(a.base): continue
            if g is not None and g[1].get('tls'): continue
            if a.path and a.path[0][0] == 'i' and r.is_tid(a.path[0][1]): continue
            if r.decl_const.get(a.base): continue
            out.append((a.name, where(a.node), qual(self.p, d)))
        for f, guarded in r.calls:
            if not guarded: out += self.global_writes(f)
        out = list(dict.fromkeys(out))
        self.gw[i] = out
        return out
    # ---- per-thread globals (indexed by the thread number) are only exclusive while regions are not nested
    def reach(self, i, memo, hit):
        d = self.definition(i)
        if d is None: return None
        i = d['id']
        if i in memo: return memo[i]
        memo[i] = None
        r = hit(d)
        if r is None:
            for n in walk(d):
                if n.get('kind') in ('CallExpr', 'CXXOperatorCallExpr'): f = strip(kids(n)[0]).get('referencedDecl', {}).get('id') if kids(n) else None
                elif n.get('kind') == 'CXXMemberCallExpr': f = strip(kids(n)[0]).get('referencedMemberDecl')
                else: continue
                if f: r = self.reach(f, memo, hit)
                if r is not None: break
        memo[i] = r
        return r
    def uses_tid(self, i):
        self.m1 = getattr(self, 'm1', {})
        def hit(d):
            g = False
            for n in walk(d):
                if n.get('kind') == 'ArraySubscriptExpr':
                    b = strip(kids(n)[0]); g = b.get('referencedDecl', {}).get('id') in self.p.globals
                    if g:
                        x = Region(self, d, None); x.body(d)
                        if x.is_tid(kids(n)[1]): return '%s[thread] in %s' % (b['referencedDecl'].get('name'), qual(self.p, d))
            return None
        return self.reach(i, self.m1, hit)
    def nested(self, i):
        """a parallel region, reached by calling i, in whose body per-thread globals are used"""
        self.m2 = getattr(self, 'm2', {})
        def hit(d):
            for n in walk(d):
                if n.get('kind', '').startswith('OMPParallel') and n['kind'].endswith('Directive'):
                    for m in walk(n):
                        f = None
                        if m.get('kind') in ('CallExpr', 'CXXOperatorCallExpr'): f = strip(kids(m)[0]).get('referencedDecl', {}).get('id') if kids(m) else None
                        elif m.get('kind') == 'CXXMemberCallExpr': f = strip(kids(m)[0]).get('referencedMemberDecl')
                        u = self.uses_tid(f) if f else None
                        if u: return '%s (parallel region at %s) uses %s' % (qual(self.p, d), where(n), u)
            return None
        return self.reach(i, self.m2, hit)
def qual(p, d): return p.qual.get(d['id'], d.get('name', '?'))
class Region:
    """accesses of a statement tree; lv: the loop variable whose iterations run in parallel"""
    def __init__(self, F, fn, lv):
        self.F, self.p, self.fn, self.lv = F, F.p, fn, lv
        self.acc = []; self.calls = []; self.private = set(); self.alias = {}; self.init = {}; self.static = {}; self.decl_const = {}; self.bounds = {}; self.guard = 0; self.params_ = set(); self.perm = set()
    def is_tid(self, e):
        e = strip(e)
        if e.get('kind') == 'DeclRefExpr':
            i = e.get('referencedDecl', {}).get('id'); x = self.init.get(i)
            return x is not None and self.is_tid(x)
        if e.get('kind') == 'CallExpr':
            f = strip(kids(e)[0]); return f.get('referencedDecl', {}).get('name') == 'omp_get_thread_num'
        return False
    def body(self, n):
        k = n.get('kind')
        if k is None: return
        if k in ('OMPAtomicDirective', 'OMPCriticalDirective'):
            self.guard += 1
            for c in kids(n): self.body(c)
            self.guard -= 1; return
        if k.startswith('OMP') or k == 'CapturedStmt':
            cd = [c for c in kids(n) if c['kind'] in ('CapturedDecl', 'CapturedStmt') or c['kind'].startswith('OMP') and c['kind'].endswith('Directive')]
            if cd:
                for c in cd: self.body(c)
                return
            if k.endswith('Clause'): return
        if k == 'CapturedDecl' or k == 'DeclStmt' or k == 'CompoundStmt':
            for c in kids(n): self.body(c)
            return
        if k == 'ImplicitParamDecl' or 'Attr' in k or k == 'RecordDecl' or k == 'CXXRecordDecl': return
        if k == 'VarDecl':
            i = n['id']; t = qt(n); ini = [c for c in kids(n) if 'Attr' not in c['kind']]
            if n.get('tls'): self.private.add(i)
            elif n.get('storageClass') == 'static': self.static[i] = True; self.decl_const[i] = t.startswith('const ')
            else: self.private.add(i)
            if ini:
                self.init[i] = ini[-1]
                if t.endswith('&') or t.endswith('*') or '*' in t.split('<')[0]: self.alias[i] = ini[-1]
                self.expr(ini[-1], 'R')
            return
        if k == 'ForStmt':
            self.forbounds(n)
        if k == 'CXXForRangeStmt':
            pass
        if k == 'LambdaExpr':
            for c in kids(n):
                if c.get('kind') == 'CompoundStmt': self.body(c)
            return
        if k in ('FunctionDecl', 'CXXMethodDecl', 'CXXConstructorDecl', 'CXXDestructorDecl', 'CXXConversionDecl'):
            for c in kids(n):
                if c['kind'] == 'ParmVarDecl':
                    self.private.add(c['id'])
                    if may_write(qt(c)): self.params_.add(c['id'])
                elif c['kind'] in ('CompoundStmt', 'CXXCtorInitializer'): self.body(c)
            return
        if k.endswith('Expr') or k.endswith('Operator') or k.endswith('Literal') or k in ('CXXThisExpr',): self.expr(n, 'R'); return
        for c in kids(n): self.body(c)
    def forbounds(self, n):
        inner = n.get('inner', [])
        if len(inner) >= 5 and inner[0].get('kind') == 'DeclStmt':
            vs = [c for c in kids(inner[0]) if c['kind'] == 'VarDecl']
            if len(vs) == 1: self.bounds[vs[0]['id']] = (kids(vs[0])[-1] if kids(vs[0]) else None, inner[2] if inner[2].get('kind') else None, inner[3])
    def add(self, base, name, path, mode, node, const=None, soft=False):
        if base in self.private and base not in self.alias and base not in self.params_: return
        self.acc.append(Acc(base, name, path, mode, node, const, self.guard > 0, soft))
    def resolve(self, e):
        """(base id, name, path) of an lvalue or pointer expression, or None"""
        e = strip(e); k = e.get('kind')
        if k == 'DeclRefExpr':
            rd = e.get('referencedDecl', {}); i = rd.get('id')
            if rd.get('kind') in ('FunctionDecl', 'CXXMethodDecl', 'EnumConstantDecl', 'NonTypeTemplateParmDecl'): return None
            if i in self.alias:
                r = self.resolve(self.alias[i])
                if r is not None: return r
                return (i, rd.get('name'), []) if i not in self.private else None
            return (i, rd.get('name'), [])
        if k == 'CXXThisExpr': return ('this', 'this', [])
        if k == 'MemberExpr':
            c = kids(e)
            if not c: return None
            r = self.resolve(c[0])
            return r and (r[0], r[1], r[2] + [('f', e.get('name'))])
        if k == 'ArraySubscriptExpr':
            c = kids(e); r = self.resolve(c[0])
            return r and (r[0], r[1], self.shift(r[2], c[1]))
        if k == 'CXXOperatorCallExpr':
            c = kids(e); f = strip(c[0]).get('referencedDecl', {}).get('name')
            if f == 'operator[]' and len(c) == 3:
                r = self.resolve(c[1]); return r and (r[0], r[1], r[2] + [('i', c[2])])
            if f == 'operator*' and len(c) == 2 or f == 'operator->': return self.resolve(c[1])
            return None
        if k == 'CXXMemberCallExpr':
            m = strip(kids(e)[0])
            if m.get('kind') == 'MemberExpr' and m.get('name') in ('data', 'begin', 'at', 'c_str', 'back', 'front', 'end'):
                r = self.resolve(kids(m)[0])
                if r is None: return None
                if m['name'] == 'at' and len(kids(e)) > 1: return (r[0], r[1], r[2] + [('i', kids(e)[1])])
                if m['name'] in ('data', 'begin', 'c_str'): return (r[0], r[1], r[2] + [('p', None)])
                return r
            return None
        if k == 'UnaryOperator' and e.get('opcode') in ('*', '&'):
            r = self.resolve(kids(e)[0])
            if r is None: return None
            if e['opcode'] == '&': return r
            if r[2] and r[2][-1][0] == 'p': return (r[0], r[1], r[2][:-1] + [('i', r[2][-1][1])])
            return r
        if k == 'BinaryOperator' and e.get('opcode') in ('+', '-'):
            c = kids(e)
            for a, b in ((c[0], c[1]), (c[1], c[0])):
                if '*' in qt(a) or '[' in qt(a) or '__normal_iterator' in qt(a):
                    r = self.resolve(a)
                    if r is None: return None
                    if e['opcode'] == '+':
                        if r[2] and r[2][-1][0] == 'p' and r[2][-1][1] is None: return (r[0], r[1], r[2][:-1] + [('p', b)])
                        if not r[2] or r[2][-1][0] in ('f', 'i'): return (r[0], r[1], r[2] + [('p', b)])
                    return (r[0], r[1], r[2] + [('?', None)])
        return None
    def shift(self, path, ix):
        if path and path[-1][0] == 'p':
            if path[-1][1] is None: return path[:-1] + [('i', ix)]
            return path[:-1] + [('i', ('+', path[-1][1], ix))]
        return path + [('i', ix)]
    def mark(self, e, mode, const=None, soft=False, rng=None):
        """record an access to the designated object and evaluate the index expressions it contains"""
        r = self.resolve(e)
        if r is None: self.expr(e, 'R' if mode == 'R' else 'X'); return
        pa = r[2]
        if rng is not None:
            if pa and pa[-1][0] == 'p': pa = pa[:-1] + [('r', pa[-1][1], rng)]
            elif not pa: pa = [('r', None, rng)]
        self.add(r[0], r[1], pa, mode, e, const, soft)
        self.sub(e)
    def sub(self, e):
        e = strip(e); k = e.get('kind'); c = kids(e)
        if k == 'ArraySubscriptExpr': self.sub(c[0]); self.expr(c[1], 'R')
        elif k == 'MemberExpr' and c: self.sub(c[0])
        elif k == 'CXXOperatorCallExpr':
            if len(c) > 1: self.sub(c[1])
            if len(c) > 2: self.expr(c[2], 'R')
        elif k == 'CXXMemberCallExpr':
            m = strip(c[0]);
            if kids(m): self.sub(kids(m)[0])
            for x in c[1:]: self.expr(x, 'R')
        elif k == 'UnaryOperator': self.sub(c[0])
        elif k == 'BinaryOperator':
            for x in c: (self.sub if self.resolve(x) is not None else lambda y: self.expr(y, 'R'))(x)
    def expr(self, n, mode):
        n0 = n; n = strip(n); k = n.get('kind')
        if k is None: return
        c = kids(n)
        if k == 'LambdaExpr':
            for x in c:
                if x.get('kind') == 'CompoundStmt': self.body(x)
            return
        if k in ('BinaryOperator', 'CompoundAssignOperator') and n.get('opcode') in ASSIGN:
            cst = lit(c[1]) if n['opcode'] == '=' else None
            k0 = len(self.acc); self.mark(c[0], 'W', cst)
            if n['opcode'] != '=':
                if len(self.acc) > k0: self.acc[k0].rmw = True
                self.mark(c[0], 'R')
            self.expr(c[1], 'R'); return
        if k == 'UnaryOperator' and n.get('opcode') in ('++', '--'): self.mark(c[0], 'W'); self.mark(c[0], 'R'); return
        if k in ('DeclRefExpr', 'MemberExpr', 'ArraySubscriptExpr'):
            r = self.resolve(n)
            if r is not None: self.add(r[0], r[1], r[2], 'R', n); self.sub(n)
            else:
                for x in c: self.expr(x, mode)
            return
        if k == 'CXXOperatorCallExpr':
            f = strip(c[0]); rd = f.get('referencedDecl', {}); nm = rd.get('name', ''); op = nm[8:]
            if nm == 'operator[]' and len(c) == 3:
                r = self.resolve(n)
                if r is not None: self.add(r[0], r[1], r[2], 'R', n); self.sub(n); return
            if rd.get('id'): self.calls.append((rd['id'], self.guard > 0))
            if op in ASSIGN or op in ('++', '--'):
                self.mark(c[1], 'W')
                if op != '=': self.mark(c[1], 'R')
                for x in c[2:]: self.expr(x, 'R')
                return
            self.args(c[1:], params(qt(rd)) if rd.get('kind') == 'FunctionDecl' else [None] * 9, rd, self.F.frame(rd['id']) if rd.get('kind') == 'FunctionDecl' else None); return
        if k == 'CXXMemberCallExpr':
            m = strip(c[0]); did = m.get('referencedMemberDecl'); d = self.p.alldecls.get(did) if did else None
            if did: self.calls.append((did, self.guard > 0))
            t = qt(d) if d else ''
            nm = m.get('name')
            const = t.rstrip().endswith('const') if d else nm in ('size', 'empty', 'data', 'find', 'end', 'begin', 'count', 'c_str', 'length', 'at', 'back', 'front')
            fr = self.F.frame(did) if did else None
            if kids(m):
                if fr is None: self.mark(kids(m)[0], 'R' if const else 'W')
                else:
                    w = fr.get('this')
                    if w in ('all', 'part', 'fields'): self.mark(kids(m)[0], 'W', None, w == 'part')
                    if w == 'sync':
                        self.guard += 1; self.mark(kids(m)[0], 'W'); self.guard -= 1
                    elif not w: self.mark(kids(m)[0], 'R')
            self.args(c[1:], params(t) if d else [None] * 20, d or {}, fr); return
        if k == 'CallExpr':
            did, t = self.F.callee(n)
            if did: self.calls.append((did, self.guard > 0))
            nm = strip(c[0]).get('referencedDecl', {}).get('name') if c else None
            self.args(c[1:], params(t) if t else None, {'name': nm}, self.F.frame(did) if did else None); return
        if k in ('CXXConstructExpr', 'CXXTemporaryObjectExpr', 'InitListExpr'):
            for x in c: self.expr(x, 'R')
            return
        for x in c: self.expr(x, mode)
    def args(self, args, ps, d, fr=None):
        for i, a in enumerate(args):
            t = ps[i] if ps and i < len(ps) else None
            if t is not None and may_write(t) and (fr is None or i in fr):
                w = fr[i] if fr else 'all'; ptr = not t.strip().endswith('&')
                rng = args[i + 1] if d.get('name') in RANGES and ptr and i + 1 < len(args) else None
                if w == 'sync':
                    self.guard += 1; self.mark(a, 'W'); self.guard -= 1
                else: self.mark(a, 'W', None, (w == 'part' or ptr) and rng is None, rng)
            else:
                r = self.resolve(a)
                if r is not None: self.add(r[0], r[1], r[2], 'R', a); self.sub(a)
                else: self.expr(a, 'R')
RANGES = {'FastECBEnc', 'FastECBDec', 'ECBEnc', 'ECBDec'}      # (pointer, count): write exactly that many elements (P04)
def lit(n):
    n = strip(n)
    return n.get('value') if n.get('kind') in ('CXXBoolLiteralExpr', 'IntegerLiteral') else None
# ---- disjointness
class Tr:
    """index expressions as integer terms; tag distinguishes the two iterations"""
    def __init__(self, reg, tag, lv, lvt): self.r, self.tag, self.lv, self.lvt, self.cs, self.uf, self.seen, self.arr, self.apps, self.fr = reg, tag, lv, lvt, [], False, set(), {}, [], False
    def ax(self):
        """permutations are injective"""
        x, y = z3.Ints('px py'); out = []
        for i in self.r.perm: f = z3.Function('f_%s' % i, z3.IntSort(), z3.IntSort()); out.append(z3.ForAll([x, y], z3.Implies(f(x) == f(y), x == y)))
        return out
    def fresh(self, n): self.uf = self.fr = True; return z3.Int('u%s_%s' % (self.tag, n))
    def __call__(self, e):
        if isinstance(e, tuple): return self(e[1]) + self(e[2])
        e = strip(e); k = e.get('kind'); c = kids(e)
        if k == 'IntegerLiteral': return z3.IntVal(int(e['value']))
        if k == 'DeclRefExpr':
            i = e['referencedDecl']['id']
            if i == self.lv: return self.lvt
            if i in self.r.private:
                v = z3.Int('l%s_%s' % (self.tag, i))
                if i in self.r.bounds and i not in self.seen:
                    self.seen.add(i); lo, cond, inc = self.r.bounds[i]
                    if lo is not None: self.cs.append(v >= self(lo))
                    cd = strip(cond) if cond else {}
                    if cd.get('kind') == 'BinaryOperator' and cd.get('opcode') in ('<', '<=', '!='):
                        x = kids(cd)
                        if strip(x[0]).get('referencedDecl', {}).get('id') == i: h = self(x[1]); self.cs.append(v < h if cd['opcode'] != '<=' else v <= h)
                elif i in self.r.init and i not in self.r.bounds and not any(a.base == i and a.mode == 'W' for a in self.r.acc): return self(self.r.init[i])
                elif i not in self.r.bounds: self.uf = True
                return v
            return z3.Int('s_%s' % i)
        if k == 'BinaryOperator' and e.get('opcode') in ('+', '-', '*', '/', '<<', '>>', '%'):
            o = e['opcode']; a, b = self(c[0]), self(c[1])
            if o == '+': return a + b
            if o == '-': return a - b
            if o == '*': return a * b
            if z3.is_int_value(b):
                n = b.as_long()
                if o == '/' and n > 0: return a / n
                if o == '%' and n > 0: return a % n
                if o == '<<' and 0 <= n < 40: return a * (1 << n)
                if o == '>>' and 0 <= n < 40: return a / (1 << n)
            return self.fresh(str(e.get('id')))
        if k == 'MemberExpr':
            r = self.r.resolve(e)
            if r and r[0] not in self.r.private and all(x[0] == 'f' for x in r[2]): return z3.Int('m_%s_%s' % (r[0], '.'.join(x[1] for x in r[2])))
        if k == 'CXXMemberCallExpr':
            m = strip(c[0]); r = self.r.resolve(kids(m)[0]) if kids(m) else None
            if m.get('name') in ('size', 'length') and r and not r[2]: return z3.Int('n_%s' % r[0])
        if k in ('CXXOperatorCallExpr', 'ArraySubscriptExpr'):
            r = self.r.resolve(e)
            if r and r[0] not in self.r.private and len(r[2]) == 1 and r[2][0][0] == 'i':
                self.uf = True; f = z3.Function('f_%s' % r[0], z3.IntSort(), z3.IntSort()); self.arr[r[1]] = f; u = self(r[2][0][1]); self.apps.append((f, u)); return f(u)
        return self.fresh(str(e.get('id')))
def tids(reg, e): return not isinstance(e, tuple) and e is not None and reg.is_tid(e)
def disjoint(reg, lv, lo, step, a, b):
    """True: paths of a in iteration i and b in iteration j never meet for i != j; False: they may meet (purely arithmetic model); None: undecided"""
    i, j = z3.Ints('it_i it_j'); verdict = False
    common = []
    for x, y in zip(a.path, b.path):
        if x[0] == 'f' and y[0] == 'f':
            if x[1] != y[1]: return True, None
            continue
        if x[0] in 'ipr' and y[0] in 'ipr': common.append((x, y))
        if x[0] != y[0] or '?' in (x[0], y[0]): break
    if len(a.path) == 0 or len(b.path) == 0 or not common:
        pt = lambda q: any(s[0] in 'p?' for s in q.path)
        return (None if pt(a) or pt(b) or a.soft or b.soft else False), 'no index separates the iterations'
    und = False
    for x, y in common:
        if x[0] == 'p' or y[0] == 'p' or x[1] is None or y[1] is None or a.soft and x is a.path[-1] and x[0] != 'r':
            if not (x[0] == 'i' and y[0] == 'i' and x[1] is not None and y[1] is not None): und = True; continue
        if tids(reg, x[1]) and tids(reg, y[1]): return True, None
        T1, T2 = Tr(reg, 'a', lv, i), Tr(reg, 'b', lv, j); ea, eb = T1(x[1]), T2(y[1]); s = z3.Solver(); s.set('timeout', 3000)
        hyp = [i != j] + T1.cs + T2.cs
        if lo is not None:
            T0 = Tr(reg, 'o', None, None); l0 = T0(lo); hyp += [i >= l0, j >= l0]
            if step is not None:
                st = T0(step); a_, b_ = z3.Ints('ia ib'); hyp += [st > 0, a_ >= 0, b_ >= 0, i == l0 + a_ * st, j == l0 + b_ * st, z3.Or(a_ >= b_ + 1, b_ >= a_ + 1)]
                # a later start is at least one step further
                hyp += [z3.Implies(a_ >= b_ + 1, i >= j + st), z3.Implies(b_ >= a_ + 1, j >= i + st)]
        la = T1(x[2]) if x[0] == 'r' else z3.IntVal(1); lb = T2(y[2]) if y[0] == 'r' else z3.IntVal(1)
        hyp += T1.ax(); hyp += [q for q in T1.cs + T2.cs if not any(q.eq(h) for h in hyp)]
        s.add(*hyp); s.add(ea < eb + lb, eb < ea + la); r = s.check()
        if r == z3.unsat: return True, None
        if r == z3.sat and (T1.arr or T2.arr):
            ap = T1.apps + T2.apps
            s.add(*[z3.Implies(f(u) == f(w), u == w) for n, (f, u) in enumerate(ap) for g, w in ap[:n] if f.eq(g)]); q = s.check()
            if q == z3.unsat: return True, 'given %s is injective' % ', '.join(sorted(set(T1.arr) | set(T2.arr)))
            # cells picked by values computed in the iteration itself are updated in place without protection
            if q == z3.sat and a.rmw and b.rmw and not (T1.fr or T2.fr) and any(w.mode == 'W' and w.name in T1.arr for w in reg.acc): return False, 'cells picked by computed values are updated in place'
        if r == z3.unknown or T1.uf or T2.uf: und = True
    return (None if und else False), 'the index does not separate the iterations'
def clause_private(n):
    out = set()
    for c in kids(n):
        if c['kind'] in ('OMPPrivateClause', 'OMPFirstprivateClause', 'OMPLastprivateClause', 'OMPReductionClause', 'OMPLinearClause'):
            for x in walk(c):
                if x.get('kind') == 'DeclRefExpr': out.add(x.get('referencedDecl', {}).get('id'))
    return out
def loops(prog):
    """[(function, directive, for statement)] of every parallel loop"""
    out = []; seen = set()
    for d in prog.funcs.values():
        for n in walk(d):
            if n.get('kind') in ('OMPParallelForDirective', 'OMPForDirective', 'OMPParallelForSimdDirective'):
                fs = find_first(n, ('ForStmt', 'CXXForRangeStmt'))
                if fs is None: continue
                out.append((d, n, fs))
    return out
def in_flag_block(body, node, reg):
    """the write happens in the block that sets a flag ending the search"""
    for n in walk(body):
        if n.get('kind') != 'CompoundStmt': continue
        for c in kids(n):
            if any(x is node for x in walk(c)) and strip(c).get('kind') != 'CompoundStmt':
                for d in kids(n):
                    e = strip(d)
                    if e.get('kind') == 'BinaryOperator' and e.get('opcode') == '=' and lit(kids(e)[1]) is not None and 'bool' in qt(kids(e)[0]):
                        i = strip(kids(e)[0]).get('referencedDecl', {}).get('id')
                        if i not in reg.private and strip(c).get('kind') not in ('IfStmt', 'ForStmt'): return True
    return False
def check_loop(F, fn, dirn, fs):
    """[(obligation, verdict, detail)]"""
    p = F.p; lv = lo = step = None; inner = fs.get('inner', [])
    reg = Region(F, fn, None)
    # what the enclosing function declares before the loop (aliases, thread ids)
    for x in walk(fn):
        if x.get('kind') == 'VarDecl':
            ini = [c for c in kids(x) if 'Attr' not in c['kind']]
            if ini and any(y.get('kind') == 'DeclRefExpr' and y.get('referencedDecl', {}).get('name') == 'GenRandomPermutation' for y in walk(ini[-1])): reg.perm.add(x['id'])
            if ini and reg.is_tid(ini[-1]): reg.init[x['id']] = ini[-1]
            if ini and x.get('storageClass') != 'static' and (qt(x).endswith('&') or '*' in qt(x).split('<')[0]) and not re.search(r'\bnew\b', ini[-1].get('kind', '')): reg.alias[x['id']] = ini[-1]
    if fs['kind'] == 'ForStmt' and inner and inner[0].get('kind') == 'DeclStmt':
        v = [c for c in kids(inner[0]) if c['kind'] == 'VarDecl'][0]; lv = v['id']; lo = kids(v)[-1] if kids(v) else None
        inc = strip(inner[3]) if len(inner) > 3 and inner[3].get('kind') else {}
        if inc.get('kind') == 'CompoundAssignOperator' and inc.get('opcode') == '+=': step = kids(inc)[1]
    elif fs['kind'] == 'ForStmt' and len(inner) > 3:
        ini = strip(inner[0]) if inner[0].get('kind') else {}
        if ini.get('kind') == 'BinaryOperator' and ini.get('opcode') == '=': lv = strip(kids(ini)[0]).get('referencedDecl', {}).get('id'); lo = kids(ini)[1]
        inc = strip(inner[3]) if inner[3].get('kind') else {}
        if inc.get('kind') == 'CompoundAssignOperator' and inc.get('opcode') == '+=': step = kids(inc)[1]
    reg.private |= clause_private(dirn)
    for x in walk(fn):
        if x.get('kind') == 'OMPParallelDirective' and x is not dirn and any(y is dirn for y in walk(x)):
            reg.private |= clause_private(x)
            reg.private |= {y['id'] for y in walk(x) if y.get('kind') == 'VarDecl' and y.get('storageClass') != 'static'}     # each thread of the region has its own
    if lv: reg.private.add(lv)
    if fs['kind'] == 'CXXForRangeStmt': return [('iterations are independent', None, 'range loop')]
    reg.body(inner[-1])
    out = {}
    def put(nm, v, det=None):
        o = out.get(nm)
        rank = {True: 0, None: 1, False: 2}
        if o is None or rank[v] > rank[o[0]]: out[nm] = (v, det)
    fname = qual(p, fn)
    ws = [a for a in reg.acc if a.mode == 'W' and not a.guarded and not reg.decl_const.get(a.base)]
    for a in ws:
        if a.path and a.path[0][0] == 'i' and tids(reg, a.path[0][1]): put('%s is owned by the thread' % a.name, True); continue
        nm = 'distinct iterations do not meet in %s' % a.name
        others = [b for b in reg.acc if b.base == a.base]
        same_const = a.const is not None and all(b.mode == 'W' and b.const == a.const for b in others)
        if same_const: put(nm, True, None); continue
        flag = a.const is not None and all(b.const == a.const for b in others if b.mode == 'W')
        if flag: put(nm, None, 'a flag that is only ever set to one value'); continue
        for b in others:
            v, det = disjoint(reg, lv, lo, step, a, b)
            if v is False and in_flag_block(inner[-1], a.node, reg): v = None
            put(nm, v, det and '%s: %s written at %s, accessed at %s' % (det, a.name, where(a.node), where(b.node)))
    for f, guarded in reg.calls:
        if guarded: continue
        for g in F.global_writes(f): put('no shared global is written: %s' % g[0], False, 'global %s is written by %s at %s' % (g[0], g[2], g[1]))
        v = F.nested(f)
        put('per-thread scratch is not used in nested parallel regions', v is None, v)
    if not out: put('iterations write nothing shared', True)
    return [(k, v[0], v[1]) for k, v in out.items()]
