"""Hash-consed term language of the VC generator.

Poly   : multivariate Laurent polynomials over Z with opaque atoms (exponents may be symbolic)
         - machine integers, big integers, and discrete logs of group elements
App    : uninterpreted / interpreted atom
B      : boolean terms
Ring2  : Boolean-ring polynomials (bitwise xor/and algebra of blocks and bytes)
Bytes  : byte strings as sequences of segments
"""
from functools import reduce
import math

_ids = {}
class App:
    __slots__ = ('name', 'args', 'id', 'depth', 'fv', '_h')
    def __repr__(self):
        if not self.args: return self.name
        return '%s(%s)' % (self.name, ','.join(map(repr, self.args)))
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __lt__(self, o): return self.id < o.id

_apps = {}
def app(name, *args):
    k = (name, args)
    a = _apps.get(k)
    if a is None:
        a = App()
        a.name = name; a.args = args; a.id = len(_apps) + 1
        a.depth = max([_depth(x) for x in args], default=0)
        if name == '#b': a.depth = args[0]
        _apps[k] = a
    return a

def _depth(x):
    if isinstance(x, App): return x.depth
    if isinstance(x, (Poly, Ring2, B, Bytes)): return x.depth
    if isinstance(x, tuple): return max([_depth(y) for y in x], default=0)
    d = getattr(x, 'depth', 0)
    return d if isinstance(d, int) else 0

_fresh = [0]
def fresh(base='t'):
    _fresh[0] += 1
    return P(app('%s!%d' % (base, _fresh[0])))
def fresh_atom(base='t'):
    _fresh[0] += 1
    return app('%s!%d' % (base, _fresh[0]))
def var(name):
    return P(app(name))

# ---------------------------------------------------------------- polynomials
def _nexp(e):
    if isinstance(e, Poly) and e.is_const(): return e.const()
    return e
def _eadd(a, b):
    if isinstance(a, int) and isinstance(b, int): return a + b
    return _nexp(P(a) + P(b))

def mono_mul(a, b):
    if not a: return b
    if not b: return a
    d = dict(a)
    for at, e in b:
        if at in d:
            s = _eadd(d[at], e)
            if isinstance(s, int) and s == 0: del d[at]
            else: d[at] = s
        else: d[at] = e
    return tuple(sorted(d.items(), key=lambda t: t[0].id))

class Poly:
    __slots__ = ('t', '_h', 'depth')
    def __init__(self, t):
        self.t = t; self._h = None
        d = 0
        for m in t:
            for a, e in m:
                if a.depth > d: d = a.depth
                if not isinstance(e, int) and e.depth > d: d = e.depth
        self.depth = d
    def __hash__(self):
        if self._h is None: self._h = hash(frozenset(self.t.items()))
        return self._h
    def __eq__(self, o):
        if isinstance(o, int): o = P(o)
        return isinstance(o, Poly) and self.t == o.t
    def __ne__(self, o): return not self == o
    def is_const(self): return not self.t or (len(self.t) == 1 and () in self.t)
    def const(self): return self.t.get((), 0)
    def is_zero(self): return not self.t
    def __add__(self, o):
        o = P(o)
        if not o.t: return self
        if not self.t: return o
        t = dict(self.t)
        for m, c in o.t.items():
            s = t.get(m, 0) + c
            if s: t[m] = s
            else: del t[m]
        return Poly(t)
    __radd__ = __add__
    def __neg__(self): return Poly({m: -c for m, c in self.t.items()})
    def __sub__(self, o): return self + (-P(o))
    def __rsub__(self, o): return P(o) - self
    def __mul__(self, o):
        o = P(o)
        t = {}
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                m = mono_mul(m1, m2)
                s = t.get(m, 0) + c1 * c2
                if s: t[m] = s
                elif m in t: del t[m]
        return Poly(t)
    __rmul__ = __mul__
    def single(self):
        """(coeff, mono) if single monomial"""
        if len(self.t) == 1:
            (m, c), = self.t.items()
            return c, m
        return None
    def atom(self):
        s = self.single()
        if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][1] == 1: return s[1][0][0]
        return None
    def atoms(self):
        for m in self.t:
            for a, e in m: yield a
    def __repr__(self):
        if not self.t: return '0'
        out = []
        for m, c in sorted(self.t.items(), key=lambda kv: [(a.id) for a, e in kv[0]]):
            f = '*'.join(repr(a) + ('' if e == 1 else '^%r' % (e,)) for a, e in m)
            if not f: out.append(str(c))
            elif c == 1: out.append(f)
            elif c == -1: out.append('-' + f)
            else: out.append('%d*%s' % (c, f))
        return '(' + ' + '.join(out) + ')' if len(out) > 1 else out[0]

_pc = {}
def P(x):
    if isinstance(x, Poly): return x
    if isinstance(x, bool): x = int(x)
    if isinstance(x, int):
        r = _pc.get(x)
        if r is None:
            r = Poly({(): x} if x else {})
            if abs(x) < 10000: _pc[x] = r
        return r
    if isinstance(x, App): return Poly({((x, 1),): 1})
    raise TypeError('P(%r)' % (x,))

Q = var('order')      # group order q (prime)
q_atom = Q.atom()

def ppow(b, e):
    e = _nexp(e) if isinstance(e, Poly) else e
    b = P(b)
    if isinstance(e, int):
        if e >= 0:
            r = P(1); x = b
            n = e
            while n:
                if n & 1: r = r * x
                n >>= 1
                if n: x = x * x
            return r
    s = b.single()
    if s and s[0] == 1:
        return Poly({tuple((a, _nexp(P(x) * P(e)) if not (isinstance(x, int) and isinstance(e, int)) else x * e) for a, x in s[1]): 1})
    if s and s[0] == -1 and isinstance(e, int):
        return ppow(-b, e) * (1 if e % 2 == 0 else -1)
    if b.is_const() and not isinstance(e, int):
        return Poly({((app('c', b), e),): 1})
    return Poly({((app('P', b), e),): 1})

def strip_mod(p, m):
    """representative congruent to p mod m: remove inner mod(.,m), ite of mods, multiples of m"""
    p = P(p)
    ma = m.atom() if isinstance(m, Poly) else None
    mc = m.const() if m.is_const() else None
    changed = False
    for mon, c in p.t.items():
        for a, e in mon:
            if a is ma or (a.name == 'mod' and a.args[1] == m) or a.name in ('ite', 'sum'):
                changed = True
        if mc and not (0 <= c < mc): changed = True
    if not changed: return p
    r = P(0)
    for mon, c in p.t.items():
        f = P(c % mc if mc else c)
        for a, e in mon:
            if a is ma and isinstance(e, int) and e > 0:
                f = P(0); break
            if a.name == 'mod' and a.args[1] == m and isinstance(e, int) and e > 0:
                f = f * ppow(strip_mod(a.args[0], m), e)
            elif a.name == 'ite' and isinstance(e, int) and e > 0:
                f = f * ppow(ite(a.args[0], strip_mod(a.args[1], m), strip_mod(a.args[2], m)), e)
            elif a.name == 'sum' and e == 1:
                i = fresh_atom('i')
                f = f * psum(a.args[0], i, strip_mod(open_b(a.args[1], a_depth(a), P(i)), m))
            else:
                f = f * Poly({((a, e),): 1})
        r = r + f
    if mc: r = Poly({k: v % mc for k, v in r.t.items() if v % mc})
    return r

def mod(p, m):
    p = P(p); m = P(m)
    if m.is_const() and p.is_const() and m.const() != 0:
        return P(p.const() % abs(m.const()))
    p = strip_mod(p, m)
    if p.is_const() and m.is_const() and m.const(): return P(p.const() % abs(m.const()))
    if p.is_zero(): return p
    if p.is_const() and m == Q and 0 <= p.const() < 2**32: return p   # q is a >=160-bit prime
    a = p.atom()
    if a is not None and a.name == 'rnd' and a.args[1] == m: return p   # already in [0,m)
    if SPLITDIV[0] is not None and not m.is_const() and m != Q:
        r = SPLITDIV[0](p, m)
        if r is not None: return r[1]
    return P(app('mod', p, m))

def fdiv(p, m):
    p = P(p); m = P(m)
    if m.is_const() and m.const():
        if p.is_const(): return P(p.const() // m.const())
        c = m.const()
        if c == 1: return p
        if all(v % c == 0 for v in p.t.values()): return Poly({k: v // c for k, v in p.t.items()})
        # split exact part
        ex = Poly({k: v // c for k, v in p.t.items() if v % c == 0})
        rest = Poly({k: v for k, v in p.t.items() if v % c})
        if not ex.is_zero(): return ex + fdiv(rest, m)
    elif SPLITDIV[0] is not None and not p.is_zero():
        r = SPLITDIV[0](p, m)
        if r is not None: return r[0]
    if p.is_zero(): return p
    return P(app('div', p, m))
SPLITDIV = [None]     # hook: p = q*m + r with 0 <= r < m known

def tdiv(p, m):
    """C truncated division"""
    p = P(p); m = P(m)
    if m.is_const() and p.is_const() and m.const():
        a, b = p.const(), m.const()
        qn = abs(a) // abs(b)
        return P(qn if (a < 0) == (b < 0) else -qn)
    return P(app('tdiv', p, m))

def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    a = P(a); b = P(b)
    if a == b: return a
    n = bnot(c)
    if n.id < c.id: c, a, b = n, b, a
    return P(app('ite', c, a, b))

def a_depth(a):  # depth of binder = stored as last arg
    return a.args[-1]

def bound(d): return P(app('#b', d))

def close(body, idx):
    """abstract atom idx in body; returns (body', depth)"""
    d = _depth(body) + 1
    return subst(body, {idx: bound(d)}), d
def open_b(body, d, p):
    return subst(body, {app('#b', d): P(p)})

def psum(n, idx, body):
    """sum_{idx=0}^{n-1} body ; idx an atom"""
    n = P(n); body = P(body)
    if n.is_const():
        r = P(0)
        for k in range(max(0, n.const())): r = r + subst(body, {idx: P(k)})
        return r
    r = P(0)
    for mon, c in body.t.items():
        dep = []; free = []
        for a, e in mon:
            if occurs(idx, a) or (not isinstance(e, int) and occurs(idx, e)): dep.append((a, e))
            else: free.append((a, e))
        f = Poly({tuple(free): c})
        if not dep:
            r = r + f * n
        else:
            bb, d = close(Poly({tuple(dep): 1}), idx)
            r = r + f * P(app('sum', n, bb, d))
    return r

_occ = {}
def occurs(at, x):
    if isinstance(x, App):
        if x is at: return True
        k = (at, x)
        r = _occ.get(k)
        if r is None:
            r = any(occurs(at, y) for y in x.args)
            _occ[k] = r
        return r
    if isinstance(x, Poly):
        return any(occurs(at, a) or (not isinstance(e, int) and occurs(at, e)) for m in x.t for a, e in m)
    if isinstance(x, Ring2): return any(occurs(at, a) for m in x.t for a in m)
    if isinstance(x, B): return any(occurs(at, y) for y in x.args)
    if isinstance(x, Bytes): return any(occurs(at, s) for s in x.segs)
    if isinstance(x, tuple): return any(occurs(at, y) for y in x)
    f = getattr(x, 'occurs', None)
    if f: return f(at)
    return False

def all_atoms(x, acc=None):
    """set of all atoms (deep) in x"""
    if acc is None: acc = set()
    if isinstance(x, App):
        if x in acc: return acc
        acc.add(x)
        for y in x.args: all_atoms(y, acc)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, e in m:
                all_atoms(a, acc)
                if not isinstance(e, int): all_atoms(e, acc)
    elif isinstance(x, Ring2):
        for m in x.t:
            for a in m: all_atoms(a, acc)
    elif isinstance(x, B):
        for y in x.args: all_atoms(y, acc)
    elif isinstance(x, Bytes):
        for s in x.segs: all_atoms(s, acc)
    elif isinstance(x, tuple):
        for y in x: all_atoms(y, acc)
    else:
        f = getattr(x, 'children', None)
        if f:
            for y in f(): all_atoms(y, acc)
    return acc

# ---------------------------------------------------------------- boolean ring
class Ring2:
    """polynomial in a Boolean ring: set of monomials (frozensets of App)"""
    __slots__ = ('t', '_h', 'depth')
    def __init__(self, t):
        self.t = frozenset(t); self._h = hash(self.t)
        self.depth = max([a.depth for m in self.t for a in m], default=0)
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Ring2) and self.t == o.t
    def __xor__(self, o): return Ring2(self.t ^ o.t)
    def __and__(self, o):
        s = set()
        for a in self.t:
            for b in o.t: s ^= {a | b}
        return Ring2(s)
    def __invert__(self): return self ^ R1
    def __or__(self, o): return self ^ o ^ (self & o)
    def atom(self):
        if len(self.t) == 1:
            m, = self.t
            if len(m) == 1:
                a, = m
                return a
        return None
    def __repr__(self):
        if not self.t: return '0b'
        return '<' + ' ^ '.join('&'.join(repr(a) for a in sorted(m, key=lambda a: a.id)) if m else '1b' for m in sorted(self.t, key=lambda m: sorted(a.id for a in m))) + '>'
R0 = Ring2([]); R1 = Ring2([frozenset()])
def R(a):
    if isinstance(a, Ring2): return a
    return Ring2([frozenset([a])])
def spread(c):
    """all-ones if c else zero"""
    if c is TRUE: return R1
    if c is FALSE: return R0
    n = bnot(c)
    if n.id < c.id: return R1 ^ R(app('spread', n))
    return R(app('spread', c))
def rite(c, a, b):
    if a == b: return a
    s = spread(c)
    return (s & a) ^ ((R1 ^ s) & b)

def i2r(p, w=None):
    """bit pattern of an integer as ring element"""
    p = P(p)
    if p.is_zero(): return R0
    if p.is_const() and w and p.const() % (1 << w) == (1 << w) - 1: return R1
    a = p.atom()
    if a is not None and a.name == 'r2i': return a.args[0]
    if p.is_const(): return R(app('kst', p))
    return R(app('i2r', p))
def r2i(r):
    if r == R0: return P(0)
    a = r.atom()
    if a is not None and a.name == 'i2r': return a.args[0]
    if a is not None and a.name == 'kst': return a.args[0]
    if len(r.t) == 2:       # a choice between constants, xored with a constant
        k = q = None
        for m in r.t:
            if len(m) != 1: break
            b, = m
            if b.name == 'kst' and b.args[0].const() >= 0: k = b.args[0].const()
            elif b.name == 'i2r' and b.args[0].atom() is not None and b.args[0].atom().name == 'ite': q = b.args[0].atom()
        if k is not None and q is not None and q.args[1].is_const() and q.args[2].is_const() and min(q.args[1].const(), q.args[2].const()) >= 0:
            return ite(q.args[0], P(q.args[1].const() ^ k), P(q.args[2].const() ^ k))
    return P(app('r2i', r))

# ---------------------------------------------------------------- booleans
_bs = {}
class B:
    __slots__ = ('op', 'args', 'id', 'depth')
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __repr__(self):
        if self.op in ('true', 'false'): return self.op
        if self.op == 'le': return '%r<=0' % (self.args[0],)
        if self.op == 'eq': return '%r==0' % (self.args[0],)
        if self.op == 'g0': return 'G[%r]==O' % (self.args[0],)
        return '%s(%s)' % (self.op, ', '.join(map(repr, self.args)))
def _B(op, *args):
    k = (op, args)
    b = _bs.get(k)
    if b is None:
        b = B(); b.op = op; b.args = args; b.id = len(_bs) + 1
        b.depth = max([_depth(x) for x in args], default=0)
        _bs[k] = b
    return b
TRUE = _B('true'); FALSE = _B('false')
def bconst(v): return TRUE if v else FALSE
def bnot(b):
    if b is TRUE: return FALSE
    if b is FALSE: return TRUE
    if b.op == 'not': return b.args[0]
    if b.op == 'le': return le0(P(1) - b.args[0])
    if b.op == 'all':
        i = fresh_atom('i')
        return bex(b.args[0], i, bnot(open_b(b.args[1], b.args[2], P(i))))
    if b.op == 'and': return bor(*[bnot(x) for x in b.args])
    if b.op == 'or': return band(*[bnot(x) for x in b.args])
    return _B('not', b)
def _flat(op, bs):
    out = []; seen = set()
    for b in bs:
        for x in (b.args if b.op == op else (b,)):
            if x not in seen:
                seen.add(x); out.append(x)
    return out, seen
def band(*bs):
    out, seen = _flat('and', bs)
    if FALSE in seen: return FALSE
    out = [x for x in out if x is not TRUE]
    for x in out:
        if bnot(x) in seen: return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    # absorption: a and (not a or b) -> a and b
    return _B('and', *sorted(out, key=lambda x: x.id))
def bor(*bs):
    out, seen = _flat('or', bs)
    if TRUE in seen: return TRUE
    out = [x for x in out if x is not FALSE]
    for x in out:
        if bnot(x) in seen: return TRUE
    if not out: return FALSE
    if len(out) == 1: return out[0]
    # factor common conjuncts: (a&b)|(a&c) -> a&(b|c)
    cs = [set(x.args) if x.op == 'and' else {x} for x in out]
    common = set.intersection(*cs)
    if common:
        rest = [band(*[y for y in (x.args if x.op == 'and' else (x,)) if y not in common]) for x in out]
        return band(*common, bor(*rest))
    return _B('or', *sorted(out, key=lambda x: x.id))
def bimp(a, b): return bor(bnot(a), b)
def biff(a, b):
    if a is b: return TRUE
    return band(bimp(a, b), bimp(b, a))
def bite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    return bor(band(c, a), band(bnot(c), b))
def _content(p):
    g = 0
    for v in p.t.values(): g = math.gcd(g, v)
    return g
def le0(p):
    p = P(p)
    if p.is_const(): return bconst(p.const() <= 0)
    # divide by content of non-constant part
    g = 0
    for m, v in p.t.items():
        if m != (): g = math.gcd(g, v)
    if g > 1:
        c = p.const() if () in p.t else 0
        t = {m: v // g for m, v in p.t.items() if m != ()}
        cc = -((-c) // g) if True else 0   # ceil(c/g)
        if cc: t[()] = cc
        p = Poly(t)
    return _B('le', p)
def le(a, b): return le0(P(a) - P(b))
def lt(a, b): return le0(P(a) - P(b) + 1)
def _signnorm(p):
    # canonical sign: monomial with the smallest key gets positive coefficient
    key = min(p.t, key=lambda m: (len(m), [(a.id, repr(e)) for a, e in m]))
    return -p if p.t[key] < 0 else p
def eq0(p):
    p = P(p)
    if p.is_const(): return bconst(p.const() == 0)
    g = _content(p)
    c = p.const()
    gn = 0
    for m, v in p.t.items():
        if m != (): gn = math.gcd(gn, v)
    if c % gn: return FALSE
    p = Poly({m: v // g for m, v in p.t.items()})
    p = _signnorm(p)
    if len(p.t) <= 2:
        x = [m for m in p.t if m != ()]
        if len(x) == 1 and len(x[0]) == 1 and x[0][0][1] == 1 and abs(p.t[x[0]]) == 1:
            a = x[0][0][0]; k = -p.t.get((), 0) * p.t[x[0]]        # a == k
            if a.name == 'mod' and a.args[1].is_const():
                m = abs(a.args[1].const())
                if m and not 0 <= k < m: return FALSE
                if m == 2 and k == 1: return bnot(_B('eq', P(a)))
            if a.name == 'ite' and a.args[1].is_const() and a.args[2].is_const():
                return bor(band(a.args[0], bconst(a.args[1].const() == k)), band(bnot(a.args[0]), bconst(a.args[2].const() == k)))
    return _B('eq', p)
def eq(a, b):
    a = P(a); b = P(b)
    return eq0(a - b)
def g0(p):
    """group element with dlog p is the identity (p == 0 mod q)"""
    p = strip_mod(P(p), Q)
    if p.is_const():
        c = p.const()
        if c == 0: return TRUE
        if abs(c) < 2**128: return FALSE
    g = _content(p)
    if g > 1: p = Poly({m: v // g for m, v in p.t.items()})
    return _B('g0', _signnorm(p))
def bapp(name, *args): return _B('app', name, *args)
def _unperm(n, idx, body):
    """a quantifier over all of [0,n) that uses its index only through a permutation of [0,n)"""
    ps = {a for a in all_atoms(body) if a.name == 'perm' and a.args[2] == P(idx) and a.args[1] == n}
    if len(ps) != 1: return None
    j = fresh_atom('i'); b = subst(body, {ps.pop(): P(j)})
    return None if occurs(idx, b) else (j, b)
def ball(n, idx, body):
    n = P(n)
    u = _unperm(n, idx, body)
    if u: idx, body = u
    if body is TRUE: return TRUE
    if n.is_const():
        return band(*[subst(body, {idx: P(k)}) for k in range(max(0, n.const()))])
    if body.op == 'and':
        return band(*[ball(n, idx, x) for x in body.args])
    if not occurs(idx, body): return bor(le(n, 0), body)
    bb, d = close(body, idx)
    return _B('all', n, bb, d)
def bex(n, idx, body):
    n = P(n)
    u = _unperm(n, idx, body)
    if u: idx, body = u
    if body is FALSE: return FALSE
    if n.is_const():
        return bor(*[subst(body, {idx: P(k)}) for k in range(max(0, n.const()))])
    if not occurs(idx, body): return band(lt(0, n), body)
    if body.op == 'or':
        return bor(*[bex(n, idx, x) for x in body.args])
    bb, d = close(body, idx)
    return _B('ex', n, bb, d)

# ---------------------------------------------------------------- bytes
class Bytes:
    """segs: tuple of bytes constants | (App, lenPoly) | ('rep', n, Bytes body, depth)"""
    __slots__ = ('segs', '_h', 'depth')
    def __init__(self, segs):
        out = []
        for s in segs:
            if isinstance(s, bytes):
                if not s: continue
                if out and isinstance(out[-1], bytes): out[-1] += s; continue
            elif out and s[0] != 'rep' and s[0].name == 'sub' and isinstance(out[-1], tuple) and out[-1][0] != 'rep' and out[-1][0].name == 'sub':
                x, y = out[-1][0], s[0]     # adjacent slices of one string
                if x.args[0] == y.args[0] and P(x.args[1]) + P(x.args[2]) == P(y.args[1]):
                    n = P(x.args[2]) + P(y.args[2]); out.pop()
                    if P(x.args[1]).is_zero() and n == x.args[0].length(): out.extend(x.args[0].segs)
                    else: out.append((app('sub', x.args[0], x.args[1], n), n))
                    continue
            out.append(s)
        self.segs = tuple(out); self._h = hash(self.segs)
        self.depth = max([_depth(s) for s in self.segs], default=0)
    def __hash__(self): return self._h
    def __eq__(self, o): return isinstance(o, Bytes) and self.segs == o.segs
    def __add__(self, o): return Bytes(self.segs + o.segs)
    def __repr__(self): return 'b[' + ' ++ '.join(repr(s[0]) if isinstance(s, tuple) and isinstance(s[0], App) else repr(s) for s in self.segs) + ']'
    def length(self):
        n = P(0)
        for s in self.segs: n = n + seglen(s)
        return n
    def is_const(self): return all(isinstance(s, bytes) for s in self.segs)
    def const(self): return b''.join(self.segs)
def seglen(s):
    if isinstance(s, bytes): return P(len(s))
    if s[0] == 'rep':
        i = fresh_atom('i')
        return psum(s[1], i, open_b(s[2], s[3], P(i)).length())
    return s[1]
def seg(a, n): return Bytes(((a, P(n)),))
EMPTY = Bytes(())
def brep(n, idx, body):
    n = P(n)
    if not body.segs: return EMPTY
    if n.is_const():
        r = EMPTY
        for k in range(max(0, n.const())): r = r + subst(body, {idx: P(k)})
        return r
    if len(body.segs) == 1 and isinstance(body.segs[0], tuple) and body.segs[0][0] == 'rep' and not occurs(idx, body.segs[0][1]):
        _, m, b2, d2 = body.segs[0]; t = fresh_atom('t')       # n*m items in rows of m: one row of n*m items when the items depend on the position only
        e = open_b(b2, d2, P(t) - m * P(idx))
        if not occurs(idx, e): return brep(n * m, t, e)
    bb, d = close(body, idx)
    return Bytes((('rep', n, bb, d),))
def bytes_ite(c, a, b):
    if a == b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    # common prefix / suffix
    pa, pb = list(a.segs), list(b.segs)
    pre = []
    while pa and pb and pa[0] == pb[0]: pre.append(pa.pop(0)); pb.pop(0)
    suf = []
    while pa and pb and pa[-1] == pb[-1]: suf.insert(0, pa.pop()); pb.pop()
    a2, b2 = Bytes(pa), Bytes(pb)
    return Bytes(pre + [(app('bite', c, a2, b2), ite(c, a2.length(), b2.length()))] + suf)

def beq(a, b):
    """equality of byte strings (injective fixed-length encodings decomposed)"""
    if a == b: return TRUE
    if a.is_const() and b.is_const(): return bconst(a.const() == b.const())
    if len(a.segs) == 1 and len(b.segs) == 1:
        x, y = a.segs[0], b.segs[0]
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] != 'rep' and y[0] != 'rep':
            x0, y0 = x[0], y[0]
            if x0.name == y0.name and x0.name in INJ and len(x0.args) == len(y0.args):
                return INJ[x0.name](x0.args, y0.args)
        if isinstance(x, tuple) and isinstance(y, tuple) and x[0] == 'rep' and y[0] == 'rep' and x[1] == y[1]:
            i = fresh_atom('i')
            bx, by = open_b(x[2], x[3], P(i)), open_b(y[2], y[3], P(i))
            if bx.length() == by.length(): return ball(x[1], i, beq(bx, by))
    la = [seglen(s) for s in a.segs]; lb = [seglen(s) for s in b.segs]
    if len(la) == len(lb) and la == lb and len(la) > 1:
        return band(*[beq(Bytes((s,)), Bytes((t,))) for s, t in zip(a.segs, b.segs)])
    if la and lb and la[0] == lb[0] and len(la) > 1 and len(lb) > 1:
        return band(beq(Bytes((a.segs[0],)), Bytes((b.segs[0],))), beq(Bytes(a.segs[1:]), Bytes(b.segs[1:])))
    ta, tb = sum(la, P(0)), sum(lb, P(0))
    if ta.is_const() and tb.is_const() and ta != tb: return FALSE
    if ta == tb and all(x.is_const() for x in la + lb) and not (len(la) == 1 and len(lb) == 1) and CUT[0]:
        ba, bb = set(), set()
        for ls, acc in ((la, ba), (lb, bb)):
            o = 0
            for x in ls: o += x.const(); acc.add(o)
        cuts = sorted(ba | bb); o = 0; parts = []
        for c in cuts:
            x, y = CUT[0](a, P(o), P(c - o)), CUT[0](b, P(o), P(c - o))
            if (len(x.segs) > 1 or len(y.segs) > 1) and x != y: parts = None; break
            parts.append(TRUE if x == y else beq(x, y)); o = c
        if parts is not None: return band(*parts)
    k = sorted([a, b], key=lambda z: (z._h))
    return bapp('beq', *k)
INJ = {}
CUT = [None]

# ---------------------------------------------------------------- substitution
def rebuild(name, args):
    if name == 'mod': return mod(*args)
    if name == 'div': return fdiv(*args)
    if name == 'tdiv': return tdiv(*args)
    if name == 'ite': return ite(*args)
    if name in REBUILD: return REBUILD[name](*args)
    return P(app(name, *args))
REBUILD = {}

def subst(x, m):
    return Subst(m)(x)

def recombine(p):
    """c*div(x,c) + mod(x,c) = x"""
    if len(p.t) < 2: return p
    for mon, v in p.t.items():
        for a, e in mon:
            if a.name == 'mod' and e == 1 and a.args[1].is_const():
                d = app('div', a.args[0], a.args[1])
                rest = [y for y in mon if y[0] is not a]
                m2 = Poly({tuple(rest): 1}) * P(d)
                (mm, _), = m2.t.items()
                if p.t.get(mm) == v * a.args[1].const():
                    k = Poly({tuple(rest): v})
                    return recombine(p - Poly({mon: v}) - Poly({mm: p.t[mm]}) + k * a.args[0])
    return p
class Subst:
    def __init__(self, m):
        self.m = m; self.memo = {}
    def __call__(self, x):
        if isinstance(x, App):
            return self.app(x)
        if isinstance(x, Poly):
            if not self.touches(x): return x
            r = P(0)
            for mon, c in x.t.items():
                f = P(c)
                for a, e in mon:
                    e2 = e if isinstance(e, int) else _nexp(self(e))
                    b = self.app(a)
                    if a.name == 'c' and isinstance(e2, int) and e2 >= 0: b = a.args[0]
                    f = f * (b if e2 == 1 else ppow(b, e2))
                r = r + f
            return recombine(r)
        if isinstance(x, Ring2):
            if not self.touches(x): return x
            r = R0
            for mon in x.t:
                f = R1
                for a in mon: f = f & self.rapp(a)
                r = r ^ f
            return r
        if isinstance(x, B):
            if x.op in ('true', 'false'): return x
            r = self.memo.get(x)
            if r is None:
                r = self.b(x)
                self.memo[x] = r
            return r
        if isinstance(x, Bytes):
            if not self.touches(x): return x
            r = EMPTY
            for s in x.segs:
                if isinstance(s, bytes): r = r + Bytes((s,))
                elif s[0] == 'rep':
                    i = fresh_atom('i')
                    body = self(open_b(s[2], s[3], P(i)))
                    r = r + brep(self(s[1]), i, body)
                else: r = r + self.bseg(s)
            return r
        if isinstance(x, tuple): return tuple(self(y) for y in x)
        f = getattr(x, 'subst', None)
        if f: return f(self)
        return x
    def touches(self, x):
        return any(occurs(a, x) for a in self.m)
    def bseg(self, s):
        a = s[0]
        if a in self.m:
            v = self.m[a]
            if isinstance(v, Bytes): return v
        if a.name == 'bite':
            return bytes_ite(self(a.args[0]), self(a.args[1]), self(a.args[2]))
        if a.name in BREBUILD:
            return BREBUILD[a.name](*[self(y) for y in a.args])
        n = app(a.name, *[self(y) for y in a.args]) if a.args else a
        return Bytes(((n, self(s[1])),))
    def rapp(self, a):
        if a in self.m:
            v = self.m[a]
            if isinstance(v, Ring2): return v
        if not a.args: return R(a)
        if a.name == 'spread': return spread(self(a.args[0]))
        if a.name == 'i2r': return i2r(self(a.args[0]))
        args = [self(y) for y in a.args]
        if a.name in RREBUILD: return RREBUILD[a.name](*args)
        return R(app(a.name, *args))
    def app(self, a):
        if a in self.m:
            v = self.m[a]
            return P(v) if not isinstance(v, Poly) else v
        if not a.args or not any(occurs(t, a) for t in self.m): return P(a)
        r = self.memo.get(a)
        if r is not None: return r
        if a.name == 'sum':
            i = fresh_atom('i')
            body = self(open_b(a.args[1], a.args[2], P(i)))
            r = psum(self(a.args[0]), i, body)
        elif a.name == 'P' or a.name == 'c':
            r = self(a.args[0])
        else:
            r = rebuild(a.name, [self(y) for y in a.args])
        self.memo[a] = r
        return r
    def b(self, x):
        o = x.op
        if o == 'not': return bnot(self(x.args[0]))
        if o == 'and': return band(*[self(y) for y in x.args])
        if o == 'or': return bor(*[self(y) for y in x.args])
        if o == 'le': return le0(self(x.args[0]))
        if o == 'eq': return eq0(self(x.args[0]))
        if o == 'g0': return g0(self(x.args[0]))
        if o in ('all', 'ex'):
            i = fresh_atom('i')
            body = self(open_b(x.args[1], x.args[2], P(i)))
            return (ball if o == 'all' else bex)(self(x.args[0]), i, body)
        if o == 'app':
            if x.args[0] == 'beq': return beq(self(x.args[1]), self(x.args[2]))
            if x.args[0] == 'req': return req(self(x.args[1]), self(x.args[2]))
            return bapp(x.args[0], *[self(y) for y in x.args[1:]])
        raise AssertionError(o)
BREBUILD = {}
RREBUILD = {}

def req(a, b):
    if a == b: return TRUE
    d = a ^ b
    if d == R1: return FALSE
    k = sorted([a, b], key=lambda z: z._h)
    return bapp('req', *k)
