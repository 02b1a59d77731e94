from vc import *
import llvm, irpath, z3, itertools
from llvm import Ptr_, bv
FIELDS = ['bucket_table', 'inserted_element_num', 'max_kick_count', 'slot_num', 'tag_bit_size', 'bucket_byte_size', 'bucket_num', 'victim']
CODE = '#include <cstddef>\nextern "C" {\n' + '''
bool f_ins(CuckooFilter*f,const void*p,size_t n){ return f->PlainInsert(p,n); }
bool f_con(CuckooFilter*f,const void*p,size_t n){ return f->PlainContain(p,n); }
bool f_del(CuckooFilter*f,const void*p,size_t n){ return f->PlainDelete(p,n); }
size_t s_all(){ return sizeof(CuckooFilter); } size_t o_vidx(){ return offsetof(VictimCache,bucket_index); } size_t o_vtag(){ return offsetof(VictimCache,tag); } size_t o_vused(){ return offsetof(VictimCache,used); }
''' + '\n'.join('size_t o_%s(){ return offsetof(CuckooFilter,%s); }' % (f, f) for f in FIELDS) + '\n}\n'
_ir = {}
llvm_names = ('CuckooFilter::InsertTagToBucket', 'CuckooFilter::DeleteTagFromBucket', 'CuckooFilter::FindTagInBucket')
def ir():
    if 'm' not in _ir: _ir['m'] = llvm.Mod(llvm.compile_ir(['crypto/setup.hpp', 'filter/cuckoo_filter.hpp'], CODE, '-O1', extra=('-fno-inline',)))
    return _ir['m']
B = z3.BitVecVal
llvm.ABSMUL.append(1)
class Filter:
    """an arbitrary filter that satisfies the class invariant, and an arbitrary bucket p and tag t to count"""
    def __init__(self, task):
        self.task = task; M = self.M = llvm.Mach(ir(), 4000000); off = lambda n: M.run('@' + n, [])[1]
        self.o = {f: off('o_' + f) for f in FIELDS}; self.v = [self.o['victim'] + off(x) for x in ('o_vidx', 'o_vtag', 'o_vused')]
        N = self.N = z3.BitVec('N', 64); M.assumed += [N != 0, N & (N - 1) == 0, z3.ULE(N, B(1 << 32, 64))]
        T = self.T = M.array(N * 8, 'T', 8); self.T0 = M.mem[(T.r, 'A')]
        f = self.f = M.new(off('s_all'), 'f')
        def put(o, v, t): M.store_bytes(Ptr_(f.r, o), M.to_bytes(v, t))
        o = self.o; b = o['bucket_table']
        put(b, T, 'ptr'); put(b + 8, Ptr_(T.r, N * 8), 'ptr'); put(b + 16, Ptr_(T.r, N * 8), 'ptr')
        put(o['slot_num'], 4, 'i64'); put(o['tag_bit_size'], 16, 'i64'); put(o['bucket_byte_size'], 8, 'i64'); put(o['bucket_num'], N, 'i64')
        for n in ('inserted_element_num', 'max_kick_count'): put(o[n], z3.BitVec(n, 64), 'i64')
        for k, n in zip(self.v, ('vidx', 'vtag', 'vused')): put(k, z3.BitVec(n, 32), 'i32')
        vi, vt, vu = self.vic(M.mem); M.assumed.append(z3.Implies(vu != 0, z3.And(self.inb(vi), vt != 0, z3.ULT(vt, 65536))))
        self.h = z3.BitVec('h', 32); self.x = M.array(z3.BitVec('L', 64), 'x')
        self.hashed = []
        def hash_(M, args):
            if len(args) != 3 or not isinstance(args[1][1], Ptr_) or args[1][1].r != self.x.r or not self.hashed_ok(args): raise llvm.U('hash of something else')
            return self.h
        M.hooks = {n: hash_ for n in M.m.fns if 'LiteMurmurHash' in n}
        self.p, self.t = z3.BitVec('p', 32), z3.BitVec('t', 32); M.assumed += [self.inb(self.p), self.t != 0, z3.ULT(self.t, 65536)]
        self.mul = z3.BitVec('L', 64)
    def hashed_ok(self, args):
        o, n = args[1][1].o, args[2][1]
        return llvm.isc(o) and o == 0 and not llvm.isc(n) and n.eq(z3.BitVec('L', 64))
    def inb(self, i): return z3.ULT(z3.ZeroExt(32, i), self.N)
    def mask(self): return z3.Extract(31, 0, self.N) - 1
    def idx(self): return self.h & self.mask()
    def tag(self): a = z3.LShR(self.h, 16); return z3.If(a == 0, B(1, 32), a)
    def alt(self, i, t): return (i ^ llvm.mulc(0x5bd1e995, t, 32)) & self.mask()
    def vic(self, mem): return [irpath.word(mem, self.f.r, o, 4) for o in self.v]
    def slots(self, A, b):
        w = z3.Select(A, z3.ZeroExt(32, b)); return [z3.Extract(16 * i + 15, 16 * i, w) for i in range(4)]
    def same(self, i, t): return z3.And(t == self.t, z3.Or(i == self.p, i == self.alt(self.p, self.t)))
    def one(self, c): return z3.If(c, B(1, 8), B(0, 8))
    def count(self, mem):
        """copies of tag t in the two buckets of (p, t), and in the victim cache"""
        A = mem[(self.T.r, 'A')]; tt = z3.Extract(15, 0, self.t); n = B(0, 8); q = self.alt(self.p, self.t)
        for s in self.slots(A, self.p): n = n + self.one(s == tt)
        for s in self.slots(A, q): n = n + self.one(z3.And(q != self.p, s == tt))
        vi, vt, vu = self.vic(mem)
        return n + self.one(z3.And(vu != 0, self.same(vi, vt)))
    def ind(self, mem):
        """the nine places a copy of tag t of (p, t) can be in, as conditions"""
        A = mem[(self.T.r, 'A')]; tt = z3.Extract(15, 0, self.t); q = self.alt(self.p, self.t); vi, vt, vu = self.vic(mem)
        return [s == tt for s in self.slots(A, self.p)] + [z3.And(q != self.p, s == tt) for s in self.slots(A, q)] + [z3.And(vu != 0, self.same(vi, vt))]
    def prove_delta(self, name, pairs, plus, pc, wall=60, about=None):
        """sum over the pairs (after - before) = sum of the signed conditions in plus: decided place by place, splitting on aliasing"""
        import time
        end = time.time() + wall
        q = self.alt(self.p, self.t); atoms = [self.p == q]
        for i, t in about or [(self.idx(), self.tag())]: a = self.alt(i, t); atoms += [t == self.t, i == self.p, i == q, a == self.p, a == q]
        sv = z3.Solver(); sv.set('timeout', 20000)
        for h in self.M.assumed + list(pc): sv.add(h)
        def unsat(c):
            sv.push(); sv.add(c); r = sv.check(); sv.pop()
            if r == z3.unknown: raise TimeoutError
            return r == z3.unsat
        def delta(x, y):
            if x.eq(y) or unsat(x != y): return 0
            if unsat(z3.Or(x, z3.Not(y))): return -1
            if unsat(z3.Or(z3.Not(x), y)): return 1
        def rec(k, todo, acc):
            if time.time() > end: raise TimeoutError
            if unsat(z3.BoolVal(True)): return True
            left = []
            for x, y in todo:
                d = delta(x, y)
                if d is None: left.append((x, y))
                else: acc += d
            if not left: return acc == 0 or self.bad(sv)
            nxt = [c for c in atoms[k:] if True]
            sp = atoms[k] if k < len(atoms) else left[0][1] if k < len(atoms) + 12 and not (unsat(left[0][1]) or unsat(z3.Not(left[0][1]))) else left[0][0]
            for c in (sp, z3.Not(sp)):
                sv.push(); sv.add(c); ok = rec(k + 1, left, acc); sv.pop()
                if ok is not True: return ok
            return True
        T, Fa = z3.BoolVal(True), z3.BoolVal(False)
        todo = list(pairs) + [((Fa, c) if s > 0 else (c, Fa)) for s, c in plus]
        try: r = rec(0, todo, 0)
        except TimeoutError: r = 'timeout'
        self.task.result(name, True if r is True else None if r == 'timeout' else False, None if r is True else str(r)[:800])
        return r is True
    def bad(self, sv):
        s2 = z3.Solver(); s2.set('timeout', 20000)
        for c in sv.assertions(): s2.add(llvm.concretise(c))
        return str(s2.model()) if s2.check() == z3.sat else 'timeout'
    def inv(self, mem):
        vi, vt, vu = self.vic(mem); o = self.o
        return z3.And(z3.Implies(vu != 0, z3.And(self.inb(vi), vt != 0, z3.ULT(vt, 65536))), *[irpath.word(mem, self.f.r, o[n], 8) == v for n, v in (('slot_num', B(4, 64)), ('tag_bit_size', B(16, 64)), ('bucket_byte_size', B(8, 64)), ('bucket_num', self.N))])
    def prove(self, name, goal, pc, timeout=60000):
        st, d = llvm.valid(goal, self.M.assumed + list(pc), timeout); self.task.result(name, st, d); return st
_n = [0]
def rnd(s): _n[0] += 1; return [z3.Concat(z3.BitVecVal(0, 1), z3.BitVec('rand%d' % _n[0], 29), z3.BitVecVal(k, 2)) for k in range(4)]   # every value, by its residue modulo 4
def explorer(M): X = irpath.Explorer(M); X.visit_limit = 9; X.forking['@rand'] = rnd; return X
def args(F): return [F.f, F.x, z3.BitVec('L', 64)]
def bounds(F, name):
    for i, (pc, c) in enumerate(F.M.bounds): 
        if F.prove(name, c, pc) is not True: return
def table_kept(F, s): return all(s.mem[(F.f.r, F.o['bucket_table'] + i)] == F.M0[(F.f.r, F.o['bucket_table'] + i)] for i in range(24))
def contain(task, ctx):
    F = Filter(task); X = explorer(F.M); F.M0 = dict(F.M.mem); c0 = F.count(F.M0)
    at = [F.p == F.idx(), F.t == F.tag()]
    for k, v, s in X.explore(X.start('@f_con', args(F))):
        if k != 'ret': raise llvm.U('path does not return')
        F.prove('an element is reported exactly when its tag is in one of its two buckets or in the victim cache', (bv(v, 1) == 1) == (c0 != 0), s.pc + at)
        F.prove('a query does not change the table', s.mem[(F.T.r, 'A')] == F.T0, s.pc); F.prove('a query does not change the victim', F.count(s.mem) == c0, s.pc)
    bounds(F, 'every table access is in bounds')
def delete(task, ctx):
    F = Filter(task); X = explorer(F.M); F.M0 = dict(F.M.mem); c0 = F.count(F.M0); i0 = F.ind(F.M0); me = F.same(F.idx(), F.tag())
    for k, v, s in X.explore(X.start('@f_del', args(F))):
        if k != 'ret': raise llvm.U('path does not return')
        ok = bv(v, 1) == 1; ab = list(zip(F.ind(s.mem), i0))
        F.prove_delta('a successful deletion removes exactly one copy of the tag of the element and nothing else', ab, [(-1, me)], s.pc + [ok])
        F.prove_delta('a failed deletion changes nothing', ab, [], s.pc + [z3.Not(ok)])
        F.prove('the deletion of an element that is present succeeds', z3.Implies(z3.And(me, c0 != 0), ok), s.pc)
        F.prove('the class invariant is kept', F.inv(s.mem), s.pc); task.result('the table stays in place', table_kept(F, s), '')
    bounds(F, 'every table access is in bounds')
def insert(task, ctx):
    F = Filter(task); X = explorer(F.M); F.M0 = dict(F.M.mem); c0 = F.count(F.M0); i0 = F.ind(F.M0); me = F.same(F.idx(), F.tag())
    def final(ends, base, extra, about=None):
        for k, v, s in ends:
            if k != 'ret': continue
            ok = bv(v, 1) == 1; ab = list(zip(F.ind(s.mem), base))
            F.prove_delta('an accepted element adds exactly one copy of its tag in one of its buckets or the victim cache and removes none', ab, extra, s.pc + [ok], about=about)
            F.prove_delta('a refused element changes nothing', ab, [], s.pc + [z3.Not(ok)])
            F.prove('the class invariant is kept', F.inv(s.mem), s.pc); task.result('the table stays in place', table_kept(F, s), '')
    cuts = set()
    while True:
        try: ends = X.explore(X.start('@f_ins', args(F)), cuts); break
        except irpath.NeedCut as e:
            if len(cuts) > 3: raise
            cuts.add(e.key); F.M.steps = 0; X.forks = 0; F.M.mem = dict(F.M0); F.M.pc = []; F.M.bounds.clear()
    final(ends, i0, [(1, me)])
    for key in sorted(cuts):
        ent = [s for k, v, s in ends if k == 'cut' and v == key]
        if not ent: continue
        nb = len(F.M.bounds); L = irpath.CutLoop(X, key, ent, 'k%d' % len(cuts)); cs = L.cands(32); del F.M.bounds[nb:]
        def J(a, b, s):
            i, t = L.value(a, s), L.value(b, s)
            return z3.And(F.inb(i), t != 0, z3.ULT(t, 65536), F.inv(s.mem), F.vic(s.mem)[2] == 0)
        def fly(a, b, s): return F.same(L.value(a, s), L.value(b, s))
        # invariant: J, and (copies in the table) + [tag in flight] = (copies before) + [new element]; the loop-carried pair is found by trying
        found = None
        for a, b in itertools.permutations(cs, 2):
            try: good = all(llvm.valid(z3.And(J(a, b, s), L.value(a, s) == F.idx(), L.value(b, s) == F.tag()), F.M.assumed + s.pc, 20000)[0] is True for s in ent)
            except Exception: good = False
            if good: found = (a, b); break
        if found is None: task.result('the eviction loop starts with the bucket and the tag of the new element', None, 'no loop-carried pair fits'); return
        a, b = found; st = L.state.copy(); st.pc = st.pc + [J(a, b, st)]; X.M.steps = 0; X.forks = 0
        for s in ent:
            F.prove('the invariant of the eviction loop (table plus tag in flight = old table plus new element) holds on entry', J(a, b, s), s.pc)
            F.prove_delta('the invariant of the eviction loop (table plus tag in flight = old table plus new element) holds on entry', list(zip(F.ind(s.mem), i0)), [(1, me), (-1, fly(a, b, s))], s.pc)
        body = X.explore(st.copy(), {key}); base = F.ind(st.mem)
        for k, v, s in body:
            if k == 'cut':
                F.prove('an eviction step keeps the invariant (ranges, victim cache unused)', J(a, b, s), s.pc)
                F.prove_delta('an eviction step keeps the invariant (table plus tag in flight = old table plus new element)', list(zip(F.ind(s.mem), base)), [(1, fly(a, b, st)), (-1, fly(a, b, s))], s.pc, about=[(L.value(a, st), L.value(b, st)), (L.value(a, s), L.value(b, s))])
        final(body, base, [(1, fly(a, b, st))], [(L.value(a, st), L.value(b, st))])
    bounds(F, 'every table access is in bounds')
