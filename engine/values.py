"""Abstract values manipulated by the symbolic executor."""
from terms import *
from terms import _depth

class Unsupported(Exception):
    pass
class MergeFail(Unsupported):
    pass

class _Undef:
    depth = 0
    def __repr__(self): return 'undef'
UNDEF = _Undef()

class Opaque:
    """value whose content is irrelevant (time points, output streams, ...)"""
    depth = 0
    def __init__(self, what): self.what = what
    def __repr__(self): return 'opaque:' + self.what
    def __eq__(self, o): return isinstance(o, Opaque) and self.what == o.what
    def __hash__(self): return hash(self.what)

class G:
    """group element given by its discrete logarithm"""
    __slots__ = ('p', 'depth')
    def __init__(self, p):
        self.p = strip_mod(P(p), Q); self.depth = self.p.depth
    def __eq__(self, o): return isinstance(o, G) and self.p == o.p
    def __hash__(self): return hash(('G', self.p))
    def __add__(self, o): return G(self.p + o.p)
    def __sub__(self, o): return G(self.p - o.p)
    def __mul__(self, k): return G(self.p * P(k))
    def __repr__(self): return 'G<%r>' % (self.p,)
    def subst(self, s): return G(s(self.p))
    def occurs(self, a): return occurs(a, self.p)
    def children(self): return (self.p,)

class Struct:
    __slots__ = ('cls', 'f', 'depth', '_h')
    def __init__(self, cls, f):
        self.cls = cls; self.f = f; self._h = None
        self.depth = max([_depth(v) for v in f.values()], default=0)
    def set(self, k, v):
        d = dict(self.f); d[k] = v
        return Struct(self.cls, d)
    def __eq__(self, o): return isinstance(o, Struct) and self.cls == o.cls and self.f == o.f
    def __hash__(self):
        if self._h is None: self._h = hash((self.cls, tuple(sorted((k, hash(v)) for k, v in self.f.items()))))
        return self._h
    def __repr__(self): return '%s{%s}' % (self.cls, ', '.join('%s=%r' % kv for kv in self.f.items()))
    def subst(self, s): return Struct(self.cls, {k: s(v) for k, v in self.f.items()})
    def occurs(self, a): return any(occurs(a, v) for v in self.f.values())
    def children(self): return self.f.values()

class Null:
    depth = 0
    def __repr__(self): return 'nullptr'
NULL = Null()

class Ptr:
    __slots__ = ('cell', 'path', 'view', 'depth')
    def __init__(self, cell, path=(), view=None):
        self.cell = cell; self.path = path; self.view = view; self.depth = 0
    def lv(self): return (self.cell, self.path)
    def __eq__(self, o): return isinstance(o, Ptr) and self.cell == o.cell and self.path == o.path
    def __hash__(self): return hash((self.cell, self.path))
    def __repr__(self): return '&%s%r%s' % (self.cell, list(self.path), ':' + self.view if self.view else '')
    def subst(self, s): return Ptr(self.cell, tuple((a, s(b) if isinstance(b, Poly) else b) for a, b in self.path), self.view)
    def occurs(self, at): return any(isinstance(b, Poly) and occurs(at, b) for a, b in self.path)
    def index(self):
        if self.path and self.path[-1][0] == 'i': return self.path[-1][1]
        return None
    def moved(self, d):
        if self.path and self.path[-1][0] == 'i':
            return Ptr(self.cell, self.path[:-1] + (('i', self.path[-1][1] + P(d)),), self.view)
        if P(d).is_zero(): return self
        raise Unsupported('pointer arithmetic on non-array object')

class Ref:
    """reference value returned by a function"""
    __slots__ = ('l', 'depth')
    def __init__(self, l): self.l = l; self.depth = 0
    def __eq__(self, o): return isinstance(o, Ref) and self.l == o.l
    def __hash__(self): return hash(self.l)
    def __repr__(self): return 'ref%r' % (self.l,)

class Vec:
    """symbolic vector: length, lambda idx.body, updates (latest last)
    update: ('p', idx, val) | ('r', start, n, idxatom, val)"""
    __slots__ = ('n', 'idx', 'body', 'ups', 'depth', '_h')
    def __init__(self, n, idx, body, ups=()):
        self.n = P(n); self.idx = idx; self.body = body; self.ups = tuple(ups); self._h = None
        self.depth = max(self.n.depth, _depth(body), max([_depth(u) for u in ups], default=0))
    @staticmethod
    def of_list(xs):
        return Vec(P(len(xs)), None, UNDEF, tuple(('p', P(i), x) for i, x in enumerate(xs)))
    def length(self): return self.n
    def conc(self):
        """python list if concrete length"""
        if not self.n.is_const(): return None
        return [vget(self, P(i)) for i in range(self.n.const())]
    def subst(self, s):
        i = fresh_atom('i') if self.idx is not None else None
        body = s(subst(self.body, {self.idx: P(i)})) if self.idx is not None else s(self.body)
        ups = []
        for u in self.ups:
            if u[0] == 'p': ups.append(('p', s(u[1]), s(u[2])))
            else:
                j = fresh_atom('i')
                ups.append(('r', s(u[1]), s(u[2]), j, s(subst(u[4], {u[3]: P(j)}))))
        return Vec(s(self.n), i, body, ups)
    def occurs(self, a):
        return occurs(a, self.n) or occurs(a, self.body) or any(any(occurs(a, y) for y in u[1:]) for u in self.ups)
    def children(self):
        yield self.n; yield self.body
        for u in self.ups:
            for y in u[1:]: yield y
    def canon(self):
        """canonical hashable form"""
        l = self.conc() if self.n.is_const() and self.n.const() <= 4096 else None
        if l is not None: return ('L', tuple(l))
        i = fresh_atom('i')
        b, d = close(vget(self, P(i)), i)
        return ('V', self.n, b, d)
    def __eq__(self, o):
        if self is o: return True
        return isinstance(o, Vec) and self.n == o.n and self.canon() == o.canon()
    def __hash__(self):
        if self._h is None: self._h = hash(self.n)
        return self._h
    def __repr__(self):
        if self.n.is_const() and self.n.const() <= 16:
            return 'vec[%s]' % ', '.join(map(repr, self.conc()))
        return 'vec(n=%r, %r->%r, ups=%r)' % (self.n, self.idx, self.body, self.ups)

class Filt:
    """list comprehension [val(idx) for idx < n if cond(idx)]"""
    __slots__ = ('tot', 'idx', 'cond', 'val', 'depth')
    def __init__(self, tot, idx, cond, val):
        self.tot = P(tot); self.idx = idx; self.cond = cond; self.val = val
        self.depth = max(self.tot.depth, _depth(cond), _depth(val))
    @property
    def n(self): return self.length()
    def length(self): return psum(self.tot, self.idx, ite(self.cond, P(1), P(0)))
    def at(self, i): return subst(self.cond, {self.idx: P(i)}), subst(self.val, {self.idx: P(i)})
    def subst(self, s):
        i = fresh_atom('i'); c, v = self.at(P(i)); return Filt(s(self.tot), i, s(c), s(v))
    def occurs(self, a): return occurs(a, self.tot) or occurs(a, self.cond) or occurs(a, self.val)
    def children(self): return (self.tot, self.cond, self.val)
    def __eq__(self, o): return self is o or isinstance(o, Filt) and self.tot == o.tot and (lambda i: self.at(i) == o.at(i))(P(fresh_atom('i')))
    def __hash__(self): return hash(self.tot)
    def __repr__(self): return 'filt(%r, %r: %r if %r)' % (self.tot, self.idx, self.val, self.cond)

class SetV:
    """set / multimap content: tuple of ('e', cond, key, val) or ('c', n, idx, cond, key, val) (comprehension)"""
    __slots__ = ('kind', 'items', 'depth')
    def __init__(self, kind, items=()):
        self.kind = kind; self.items = tuple(items)
        self.depth = max([_depth(tuple(i[1:])) for i in items], default=0)
    def __eq__(self, o): return isinstance(o, SetV) and self.kind == o.kind and self.items == o.items
    def __hash__(self): return hash(self.items)
    def subst(self, s):
        out = []
        for it in self.items:
            if it[0] == 'e': out.append(('e',) + tuple(s(x) for x in it[1:]))
            else:
                j = fresh_atom('i')
                out.append(('c', s(it[1]), j) + tuple(s(subst(x, {it[2]: P(j)})) for x in it[3:]))
        return SetV(self.kind, out)
    def occurs(self, a): return any(any(occurs(a, y) for y in it[1:]) for it in self.items)
    def children(self):
        for it in self.items:
            for y in it[1:]: yield y
    def __repr__(self): return 'set%r' % (self.items,)

class Stream:
    """file / socket stream: sequence of written items.  items: Bytes content; rd: read offset items"""
    __slots__ = ('b', 'depth', 'name', 'ok', 'mode', 'pos')
    def __init__(self, b=EMPTY, name=None, ok=TRUE, mode=None, pos=0):
        self.b = b; self.name = name; self.ok = ok; self.mode = mode; self.pos = P(pos)
        self.depth = max(_depth(b), _depth(self.pos))
    def __eq__(self, o): return isinstance(o, Stream) and (self.b, self.name, self.ok, self.mode, self.pos) == (o.b, o.name, o.ok, o.mode, o.pos)
    def __hash__(self): return hash(self.b)
    def subst(self, s): return Stream(s(self.b), s(self.name) if self.name is not None else None, s(self.ok), self.mode, s(self.pos))
    def occurs(self, a): return occurs(a, self.b) or occurs(a, self.pos)
    def children(self): return (self.b, self.pos)
    def at(self, b=None, pos=None): return Stream(self.b if b is None else b, self.name, self.ok, self.mode, self.pos if pos is None else pos)
    def rest(self): return self.b if self.pos.is_zero() else bslice(self.b, self.pos, self.b.length() - self.pos)
    def __repr__(self): return 'stream<%r>' % (self.b,)

ASSUME = [lambda c: None]
DECIDE = [lambda c: None]   # installed by the executor: pc |= c ? True/False/None
def decide(c):
    if c is TRUE: return True
    if c is FALSE: return False
    return DECIDE[0](c)

def vget(v, j):
    j = P(j)
    for k in range(len(v.ups) - 1, -1, -1):
        u = v.ups[k]
        if u[0] == 'p':
            c = eq(j, u[1])
            if c is FALSE: continue
            d = decide(c)
            if d is True: return u[2]
            if d is False: continue
            return vite(c, u[2], vget(Vec(v.n, v.idx, v.body, v.ups[:k]), j))
        else:
            c = band(le(u[1], j), lt(j, u[1] + u[2]))
            if c is FALSE: continue
            d = decide(c)
            if d is False: continue
            val = subst(u[4], {u[3]: j - u[1]})
            if d is True: return val
            return vite(c, val, vget(Vec(v.n, v.idx, v.body, v.ups[:k]), j))
    if v.idx is None: return v.body
    return subst(v.body, {v.idx: j})

def vset(v, j, x):
    j = P(j)
    ups = [u for u in v.ups if not (u[0] == 'p' and u[1] == j)]
    ups.append(('p', j, x))
    return Vec(v.n, v.idx, v.body, ups)

def vrange(v, start, n, idx, val):
    """assign v[start..start+n) := val(idx)"""
    n = P(n); start = P(start)
    if n.is_const() and n.const() <= 64:
        for k in range(n.const()):
            v = vset(v, start + k, subst(val, {idx: P(k)}))
        return v
    if start.is_zero() and n == v.n:
        return Vec(v.n, idx, val)
    return Vec(v.n, v.idx, v.body, v.ups + (('r', start, n, idx, val),))

def vpush(v, x):
    r = vset(v, v.n, x)
    return Vec(v.n + 1, r.idx, r.body, r.ups)

def vresize(v, n, fill):
    n = P(n)
    if n == v.n: return v
    if v.n.is_zero() : return Vec(n, None, fill)
    if n.is_const() and v.n.is_const():
        if n.const() <= v.n.const(): return Vec(n, v.idx, v.body, v.ups)
        if v.n.const() <= 64:
            return Vec(n, None, fill, tuple(('p', P(k), vget(v, P(k))) for k in range(v.n.const())))
    d = decide(le(n, v.n))
    if d is True: return Vec(n, v.idx, v.body, v.ups)
    j = fresh_atom('i')
    body = vget(v, P(j))
    return Vec(n, j, vite(lt(P(j), v.n), body, fill))

def vslice(v, start, n):
    n = P(n)
    if n.is_const() and n.const() <= 64:
        return Vec.of_list([vget(v, P(start) + k) for k in range(n.const())])
    if P(start).is_zero() and (n == v.n): return v
    j = fresh_atom('i')
    return Vec(n, j, vget(v, P(start) + P(j)))

def to_int(v):
    if isinstance(v, B): return ite(v, P(1), P(0))
    if isinstance(v, Poly): return v
    raise Unsupported('to_int(%r)' % (v,))
def to_bool(v):
    if isinstance(v, B): return v
    if isinstance(v, Poly):
        a = v.atom()
        if a is not None and a.name == 'ite' and a.args[1] == P(1) and a.args[2] == P(0): return a.args[0]
        if a is not None and a.name == 'ite' and a.args[1] == P(0) and a.args[2] == P(1): return bnot(a.args[0])
        return bnot(eq0(v))
    if isinstance(v, Ptr): return TRUE
    if isinstance(v, Null): return FALSE
    if isinstance(v, Stream): return v.ok
    raise Unsupported('to_bool(%r)' % (v,))

def vite(c, a, b):
    """merge two values"""
    if a is b: return a
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, Poly) and isinstance(b, Poly): return ite(c, a, b)
    if isinstance(a, B) and isinstance(b, Poly): a = to_int(a); return ite(c, a, b)
    if isinstance(a, Poly) and isinstance(b, B): return ite(c, a, to_int(b))
    if isinstance(a, B) and isinstance(b, B): return bite(c, a, b)
    if isinstance(a, G) and isinstance(b, G): return G(ite(c, a.p, b.p))
    if isinstance(a, Ring2) and isinstance(b, Ring2): return rite(c, a, b)
    if isinstance(a, Bytes) and isinstance(b, Bytes): return bytes_ite(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct) and a.cls == b.cls:
        return Struct(a.cls, {k: vite(c, v, b.f[k]) if k in b.f else v for k, v in a.f.items()})
    if isinstance(a, Vec) and isinstance(b, Vec):
        return merge_vec(c, a, b)
    if isinstance(a, Vec) and isinstance(b, Bytes): return bytes_ite(c, vec_to_bytes(a), b)
    if isinstance(a, Bytes) and isinstance(b, Vec): return bytes_ite(c, a, vec_to_bytes(b))
    if a is UNDEF: return b
    if b is UNDEF: return a
    if isinstance(a, SetV) and isinstance(b, SetV): return merge_set(c, a, b)
    if isinstance(a, Stream) and isinstance(b, Stream) and a.name == b.name:
        return Stream(bytes_ite(c, a.b, b.b), a.name, bite(c, a.ok, b.ok), a.mode, ite(c, a.pos, b.pos))
    if a == b: return a
    raise MergeFail('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))

def merge_set(c, a, b):
    k = 0
    while k < len(a.items) and k < len(b.items) and a.items[k] == b.items[k]: k += 1
    out = list(a.items[:k])
    for s, cc in ((a, c), (b, bnot(c))):
        for it in s.items[k:]:
            if it[0] == 'e': out.append(('e', band(cc, it[1])) + it[2:])
            else: out.append(('c', it[1], it[2], band(cc, it[3])) + it[4:])
    return SetV(a.kind, out)

def merge_vec(c, a, b):
    n = a.n if a.n == b.n else ite(c, a.n, b.n)
    if a.idx is b.idx and (a.idx is None and (a.body is b.body or a.body == b.body) or a.idx is not None and (a.body is b.body or a.body == b.body)) \
            or a.body is UNDEF or b.body is UNDEF:
        base = a if b.body is UNDEF else b
        ups = []
        k = 0
        while k < len(a.ups) and k < len(b.ups) and (a.ups[k] is b.ups[k] or a.ups[k] == b.ups[k]):
            ups.append(a.ups[k]); k += 1
        rest = a.ups[k:] + b.ups[k:]
        if all(u[0] == 'p' for u in rest):
            seen = []
            for u in rest:
                if u[1] in seen: continue
                seen.append(u[1])
                ups.append(('p', u[1], vite(c, vget(a, u[1]), vget(b, u[1]))))
            return Vec(n, base.idx, base.body, ups)
    la = a.conc() if a.n.is_const() and a.n.const() <= 256 else None
    lb = b.conc() if b.n.is_const() and b.n.const() <= 256 else None
    if la is not None and lb is not None:
        m = max(len(la), len(lb))
        la = la + [UNDEF] * (m - len(la)); lb = lb + [UNDEF] * (m - len(lb))
        r = Vec.of_list([vite(c, x, y) for x, y in zip(la, lb)])
        return Vec(n, r.idx, r.body, r.ups)
    j = fresh_atom('i')
    return Vec(n, j, vite(c, vget(a, P(j)), vget(b, P(j))))

# ---- byte views -----------------------------------------------------------
def byte_of(p):
    """1-byte string from integer"""
    p = P(p)
    if p.is_const(): return Bytes((bytes([p.const() & 255]),))
    a = p.atom()
    if a is not None and a.name == 'at' and a.args[0].length() == P(1): return a.args[0]
    return seg(app('byte', p), 1)

def vec_to_bytes(v):
    if isinstance(v, Bytes): return v
    if v.n.is_const():
        r = EMPTY
        for x in v.conc():
            if x is UNDEF: x = P(app('undefbyte'))
            r = r + byte_of(to_int(x))
        return r
    if not v.ups and v.idx is not None and isinstance(v.body, Poly):
        a = v.body.atom()
        if a is not None and a.name == 'at' and a.args[1] == P(v.idx) and a.args[0].length() == v.n and not occurs(v.idx, a.args[0]):
            return a.args[0]
    i = fresh_atom('i')
    x = vget(v, P(i))
    if x is UNDEF: return seg(app('undefbytes', v.n), v.n)
    return brep(v.n, i, byte_of(to_int(x)))

def byte_at(b, i):
    """integer value of byte i of Bytes b"""
    i = P(i)
    off = P(0)
    for s in b.segs:
        n = seglen(s)
        rel = i - off
        inside = band(le(0, rel), lt(rel, n))
        d = decide(inside)
        if d is True:
            if isinstance(s, bytes) and rel.is_const(): return P(s[rel.const()])
            if isinstance(s, tuple) and s[0] == 'rep':
                j = fresh_atom('i')
                body = open_b(s[2], s[3], rel)
                if body.length() == P(1): return byte_at(body, P(0))
                r = rep_at(s, rel)
                if r is not None: return r
            if isinstance(s, tuple) and s[0] != 'rep' and s[0].name == 'byte' and n == P(1): return s[0].args[0]
            if isinstance(s, tuple) and s[0] != 'rep' and s[0].name == 'pt' and rel.is_zero(): return ite(g0(s[0].args[0]), P(0), P(app('pt0', *s[0].args)))
            if isinstance(s, tuple) and s[0] != 'rep' and s[0].name == 'bite': return ite(s[0].args[0], byte_at(s[0].args[1], rel), byte_at(s[0].args[2], rel))
            return P(app('at', Bytes((s,)), rel))
        if d is None:
            if isinstance(s, tuple) and s[0] == 'rep':
                r = rep_at(s, rel)
                if r is not None: return r
            return P(app('at', b, i))
        off = off + n
    return P(app('at', b, i))
def rep_at(s, rel):
    """byte q*L + c (0 <= c < L constants) of a repetition of blocks of constant length L"""
    j = fresh_atom('i'); L = open_b(s[2], s[3], P(j)).length()
    if not L.is_const() or L.const() <= 1: return None
    L = L.const()
    c = rel.t.get((), 0) % L
    q = _exact_div(rel - c, P(L))
    if q is None or decide(band(le(0, q), lt(q, P(s[1])))) is not True: return None
    return byte_at(open_b(s[2], s[3], q), P(c))
def _rebuild_at(b, i): return byte_at(b, i)
REBUILD['at'] = _rebuild_at
BREBUILD['byte'] = lambda p: byte_of(p)

def bytes_to_vec(b):
    if isinstance(b, Vec): return b
    n = b.length()
    if n.is_const() and n.const() <= 64: return Vec.of_list([byte_at(b, P(k)) for k in range(n.const())])
    i = fresh_atom('i')
    return Vec(n, i, P(app('at', b, P(i))))

def rep_slice(s, rel, n):
    """slice of a repetition at a multiple of its stride"""
    if not (isinstance(s, tuple) and s[0] == 'rep'): return None
    j = fresh_atom('i')
    N = P(s[1]); L = open_b(s[2], s[3], P(j)).length()
    if occurs(j, L) or L.is_zero(): return None
    q = _exact_div(rel, L); m = _exact_div(n, L)
    if q is None:
        t = _part_div(rel, L)
        if t is None: return None
        q, rr = t
        if decide(band(le(0, q), lt(q, N), le(0, rr), le(rr + n, L))) is True: return bslice(open_b(s[2], s[3], q), rr, n)
        return None
    if m is None or m.is_const() and m.const() == 1:
        if (m is not None or decide(le(n, L)) is True) and decide(band(le(0, q), lt(q, N))) is True: return bslice(open_b(s[2], s[3], q), P(0), n)
        return None
    if decide(band(le(0, q), le(0, m), le(q + m, N))) is True: return brep(m, j, open_b(s[2], s[3], q + P(j)))
    return None
def _mono_div(mon, v, d):
    """monomial / monomial d = (coefficient, {atom: exponent}), or None"""
    c, es = d
    if v % c: return None
    e = dict(mon)
    for x, k in es.items():
        if not isinstance(e.get(x), int) or e[x] < k: return None
        e[x] -= k
        if not e[x]: del e[x]
    return Poly({tuple(sorted(e.items(), key=lambda y: y[0].id)): v // c})
def _mono(d):
    s = d.single()
    if not s or s[0] <= 0 or not all(isinstance(e, int) and e > 0 for a, e in s[1]): return None
    return s[0], dict(s[1])
def _part_div(a, d):
    """a = q*d + r with r collecting the monomials d does not divide"""
    m = _mono(d)
    if m is None: return None
    q = P(0); r = P(0)
    for mon, v in a.t.items():
        x = _mono_div(mon, v, m)
        if x is None: r = r + Poly({mon: v})
        else: q = q + x
    return q, r
def _exact_div(a, d):
    if a.is_zero(): return P(0)
    if a == d: return P(1)
    if d.is_const() and d.const() < 0: return None
    t = _part_div(a, d)
    return t[0] if t is not None and t[1].is_zero() and (t[0] * d - a).is_zero() else None
def split_div(p, m):
    """p = q*m + r syntactically with 0 <= r < m under the current path condition"""
    x = m.atom()
    if x is None or x.name in ('order', 'P', 'c') or not m.depth == 0 or p.depth: return None
    qt = {}; rt = {}
    for mon, v in p.t.items():
        e = dict(mon)
        if isinstance(e.get(x), int) and e[x] >= 1: qt[mon] = v
        else: rt[mon] = v
    q = _exact_div(Poly(qt), m) if qt else P(0); r = Poly(rt)
    if q is None: return None
    if r.is_zero():
        return (q, r) if decide(lt(0, m)) is True else None
    if x.name == 'ph': return None
    if decide(band(le(0, r), lt(r, m))) is True: return q, r
    return None
SPLITDIV[0] = split_div
def bslice(b, start, n):
    """substring"""
    start = P(start); n = P(n)
    segs = list(b.segs)
    off = P(0)
    if n.is_zero(): return EMPTY
    # skip whole segments
    out = []
    need = n
    i = 0
    pos = P(0)
    while i < len(segs):
        L = seglen(segs[i])
        if pos == start: break
        if isinstance(segs[i], bytes) and (start - pos).is_const() and 0 < (start - pos).const() < len(segs[i]):
            k = (start - pos).const()
            segs[i] = segs[i][k:]
            pos = start
            break
        if decide(le(pos + L, start)) is True:
            pos = pos + L; i += 1
            continue
        r = rep_slice(segs[i], start - pos, n)
        if r is not None: return r
        break
    if pos == start and i < len(segs):
        r = rep_slice(segs[i], P(0), n)
        if r is not None: return r
    if pos == start:
        while i < len(segs):
            L = seglen(segs[i])
            if L == need or decide(eq(L, need)) is True:
                out.append(segs[i]); return Bytes(out)
            if isinstance(segs[i], bytes) and need.is_const() and need.const() < len(segs[i]):
                out.append(segs[i][:need.const()]); return Bytes(out)
            if decide(le(L, need)) is True:
                out.append(segs[i]); need = need - L; i += 1
                continue
            break
        if need.is_zero(): return Bytes(out)
    if b.length() == n and start.is_zero(): return b
    if i < len(segs) and isinstance(segs[i], tuple) and segs[i][0] != 'rep' and segs[i][0].name == 'sub' and not out:
        a = segs[i][0]
        if decide(band(le(pos, start), le(start + n, pos + P(a.args[2])))) is True: return bslice(a.args[0], P(a.args[1]) + start - pos, n)
    if n.is_const() and n.const() <= 64 and not (n.const() > 8 and any(isinstance(s, tuple) and s[0] == 'rep' for s in b.segs) and not start.is_const()):
        r = EMPTY
        for k in range(n.const()): r = r + byte_of(byte_at(b, start + k))
        return r
    return seg(app('sub', b, start, n), n)
BREBUILD['sub'] = bslice
CUT[0] = bslice

def bsplice(b, start, new):
    """b with bytes [start, start+len(new)) replaced by new"""
    n = new.length(); tot = b.length(); start = P(start)
    if start.is_zero() and n == tot: return new
    pre = bslice(b, P(0), start)
    rest = tot - start - n
    if rest.is_zero(): return pre + new
    post = bslice(b, start + n, rest)
    return pre + new + post
