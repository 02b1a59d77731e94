from terms import *
from values import *
import vc, externals as X, contracts, symm, solver
from externals import Q
from vc import Task, Run, program
CORE = ['crypto/setup.hpp', 'commitment/pedersen.hpp', 'signature/schnorr.hpp', 'signature/accountable_ring_sig.hpp', 'adcp/adcp.hpp']

def challenges(x):
    """hash-derived scalars occurring in a value"""
    return sorted([a for a in all_atoms(x) if a.name == 'unbn' and any(b.name == 'sha256' for b in all_atoms(a.args[0]))], key=lambda a: a.id)
def hash_inputs(x):
    return [a.args[0] for a in sorted((a for a in all_atoms(x) if a.name == 'sha256'), key=lambda a: a.id)]

def base_atom(v):
    if isinstance(v, G): v = v.p
    if isinstance(v, Poly): return v.atom()
    if isinstance(v, Bytes): return v.segs[0][0]
    if isinstance(v, Ring2): return v.atom()
def primed(v):
    """(substitution, primed value) renaming the base atom of an input value"""
    a = base_atom(v)
    b = app(a.name + "'", *a.args)
    if isinstance(v, Bytes): return {a: seg(b, v.segs[0][1])}, Bytes(((b, v.segs[0][1]),))
    if isinstance(v, Ring2): return {a: R(b)}, R(b)
    return {a: P(b)}, (G(P(b)) if isinstance(v, G) else P(b))
def collision_free():
    INJ['sha256'] = lambda x, y: beq(x[0], y[0])
class Ren(Subst):
    """rename the input symbols of one component"""
    def __init__(self, names): self.names = names; self.m = {}; self.memo = {}
    def touches(self, x): return True
    def app(self, a):
        if a.name in self.names: return P(app(a.name + "'", *[self(y) for y in a.args]))
        if not a.args or not any(b.name in self.names for b in all_atoms(a)): return P(a)
        if a.name == 'sum':
            i = fresh_atom('i')
            return psum(self(a.args[0]), i, self(open_b(a.args[1], a.args[2], P(i))))
        if a.name in ('P', 'c'): return self(a.args[0])
        return rebuild(a.name, [self(y) for y in a.args])
    def bseg(self, s):
        a = s[0]
        if a.name in self.names: return Bytes(((app(a.name + "'", *[self(y) for y in a.args]), s[1]),))
        return super().bseg(s)
    def rapp(self, a):
        if a.name in self.names: return R(app(a.name + "'", *[self(y) for y in a.args]))
        return super().rapp(a)
def conjuncts(h):
    return [y for x in h.args for y in conjuncts(x)] if h.op == 'and' else [h]
def binds(run, name, b, v):
    """equal transcripts b force equal values of the component v (collision-free hash); for a vector: at every index"""
    collision_free()
    pc = tuple(run.ex.st.pc); j = None
    if isinstance(v, Vec):
        j = fresh('j'); pc = pc + (le(0, j), lt(j, v.n)); v = vget(v, j)
    s = Ren({base_atom(v).name})
    b2 = s(b); v2 = s(v)
    h = beq(b, b2) if isinstance(b, Bytes) else X.val_eq(b, b2)
    hs = []
    for c in conjuncts(h):
        if c.op == 'all' and j is not None: hs.append(bimp(lt(j, c.args[0]), open_b(c.args[1], c.args[2], j)))
        else: hs.append(c)
    hs = [x for y in hs for x in conjuncts(y)]
    if j is not None:
        hs2 = []
        for x in hs:
            if x.op == 'or' and solver.decide_pc(pc, x.args[0] if x.args[0].op in ('le', 'not') else x) is False: x = bor(*x.args[1:])
            hs2.append(x)
        hs = hs2
    run.task.prove(name, pc + tuple(hs), X.val_eq(v, v2))

def iff_spec(run, name, res, spec):
    """the decision of the code is exactly the specified predicate (any of the candidates in spec, each with its own challenge)"""
    res = to_bool(res)
    specs = spec if isinstance(spec, list) else [spec]
    best = None
    for s in specs:
        if res is s: run.task.result(name, True, None); return s
    for s in specs:
        st, d = solver.prove(run.ex.st.pc, biff(res, s))
        if st is True: run.task.result(name, True, None); return s
    for s in specs:
        run.task.prove(name, run.ex.st.pc, biff(res, s)); return s
    run.task.result(name, None, 'no hash-derived challenge found in the decision')
def is_fresh(run, name, v, m=None):
    """the value is one fresh uniform draw below m (default: the group order)"""
    v = v.p if isinstance(v, G) else v
    a = v.atom() if isinstance(v, Poly) else None
    ok = a is not None and a.name == 'rnd' and (m is None or a.args[1] == m)
    run.task.result(name, True if ok else False if not any(x.name == 'rnd' for x in all_atoms(v)) else None, None if ok else 'value is %r' % (v,))
    return a
