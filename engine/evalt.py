"""Concrete evaluation of terms under pseudo-random valuations: confirms that a solver countermodel is not an
artefact of uninterpreted symbols (opaque atoms are evaluated as deterministic pseudo-random functions)."""
import hashlib, random
from terms import *
from values import *
import solver

QV = 0xFFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551   # order of P-256

class Bad(Exception): pass
class Ev:
    def __init__(self, seed, small):
        self.seed = seed; self.small = small; self.memo = {}; self.binders = {}
        self.val = {}
    def h(self, *k):
        return int.from_bytes(hashlib.sha256(repr((self.seed,) + k).encode()).digest(), 'big')
    def poly(self, p, m=None):
        r = 0
        for mon, c in p.t.items():
            f = c
            for a, e in mon:
                x = self.atom(a, m)
                ev = e if isinstance(e, int) else self.poly(e)
                if ev < 0:
                    if m is None: raise Bad('negative power')
                    x %= m
                    if x == 0: raise Bad('inverse of 0')
                    f = f * pow(x, ev, m)
                elif m is not None: f = f * pow(x, ev, m)
                else:
                    if ev > 4096: raise Bad('huge power')
                    f = f * x ** ev
                if m is not None: f %= m
            r += f
        return r % m if m is not None else r
    def atom(self, a, m=None):
        if a.depth: raise Bad('free binder')
        if a.name in ('P', 'c'): return self.poly(a.args[0], m)
        key = (a, m) if a.name in ('sum', 'ite') else a
        if key in self.memo: return self.memo[key]
        v = self._atom(a, m)
        self.memo[key] = v
        if not a.args or a.name in ('rnd', 'len'): self.val[repr(a)] = v
        return v
    def _atom(self, a, m):
        n = a.name
        if n == 'order': return QV
        if n == 'mod':
            mm = self.poly(a.args[1])
            if mm <= 0: raise Bad('mod 0')
            return self.poly(a.args[0], mm)
        if n == 'div':
            d = self.poly(a.args[1])
            if d == 0: raise Bad('div 0')
            return self.poly(a.args[0]) // d
        if n in ('tdiv', 'bdiv'):
            x, d = self.poly(a.args[0]), self.poly(a.args[1])
            if d == 0: raise Bad('div 0')
            q = abs(x) // abs(d)
            return q if (x < 0) == (d < 0) else -q
        if n == 'ite': return self.poly(a.args[1], m) if self.b(a.args[0]) else self.poly(a.args[2], m)
        if n == 'sum':
            k = self.poly(a.args[0])
            if k > 400: raise Bad('long sum')
            return sum(self.poly(open_b(a.args[1], a.args[2], P(i)), m) for i in range(max(0, k)))
        if n == 'wrap':
            x = self.poly(a.args[0]); w = a.args[1]; u = x % (1 << w)
            return u - (1 << w) if a.args[2] and u >= 1 << (w - 1) else u
        if n == 'at':
            b = self.bytes(a.args[0]); i = self.poly(a.args[1])
            if not 0 <= i < len(b): raise Bad('index')
            return b[i]
        if n == 'unle': return int.from_bytes(self.bytes(a.args[0]), 'little')
        if n == 'unbn': return int.from_bytes(self.bytes(a.args[0]), 'big')
        if n == 'r2i': return self.ring(a.args[0])
        if n == 'lo64': return self.ring(a.args[0]) & (2**64 - 1)
        if n == 'rnd':
            mm = self.poly(a.args[1])
            if mm <= 0: raise Bad('rnd')
            return self.h('rnd', *self.args(a)) % mm
        if n == 'pt0': return max(2, self.bseg(app('pt', *a.args), 33 if a.args[1][0] == 'c' else 65)[0])
        if n == 'numbits': return abs(self.poly(a.args[0])).bit_length()
        if n == 'declen': return len(str(self.poly(a.args[0])))
        if n in ('len', 'size') or n in solver.RANGES:
            lo, hi = solver.RANGES.get(n, (0, None))
            x = self.h(n, *self.args(a)) % (300 if self.seed % 6 == 5 else 6)  # now and then a length beyond usual chunk sizes
            x = max(lo, x)
            return x if hi is None else min(x, hi)
        x = self.h(n, *self.args(a))
        if n.startswith('G:'): return 0 if self.small and x % 7 == 0 else x % QV
        if self.small: 
            return x % 7 if x & (1 << 40) else x % (1 << 40 if self.small == 2 else 1 << 8)
        return x % QV
    def args(self, a): return [self.any(y) for y in a.args]
    def any(self, y):
        if isinstance(y, Poly): return self.poly(y)
        if isinstance(y, App): return self.atom(y)
        if isinstance(y, Ring2): return self.ring(y)
        if isinstance(y, Bytes): return self.bytes(y)
        if isinstance(y, B): return self.b(y)
        if isinstance(y, (str, int)): return y
        if isinstance(y, tuple): return tuple(self.any(z) for z in y)
        if isinstance(y, G): return self.poly(y.p, QV)
        raise Bad('any %s' % type(y).__name__)
    def ring(self, r):
        v = 0; M = (1 << 128) - 1
        for mon in r.t:
            f = M
            for a in mon: f &= self.ratom(a)
            v ^= f
        return v
    def ratom(self, a):
        M = (1 << 128) - 1
        n = a.name
        if n in ('i2r', 'kst'): return self.poly(a.args[0]) & M
        if n == 'spread': return M if self.b(a.args[0]) else 0
        if n == 'mk': return ((self.poly(a.args[0]) & (2**64 - 1)) << 64) | (self.poly(a.args[1]) & (2**64 - 1))
        if n == 'unblk': return int.from_bytes(self.bytes(a.args[0]), 'little')
        if n == 'xsum':
            k = self.poly(a.args[0]); r = 0
            for i in range(k): r ^= self.ring(open_b(a.args[1], a.args[2], P(i)))
            return r
        return self.h('r', n, *self.args(a)) & M
    def bytes(self, b):
        out = b''
        for s in b.segs:
            if isinstance(s, bytes): out += s; continue
            if s[0] == 'rep':
                k = self.poly(s[1])
                if k > 64: raise Bad('long rep')
                for i in range(max(0, k)): out += self.bytes(open_b(s[2], s[3], P(i)))
                continue
            a = s[0]; L = self.poly(s[1])
            if L < 0 or L > 1 << 16: raise Bad('length')
            out += self.bseg(a, L)
        return out
    def bseg(self, a, L):
        n = a.name
        if n == 'bite': return self.bytes(a.args[1]) if self.b(a.args[0]) else self.bytes(a.args[2])
        if n == 'le': return (self.poly(a.args[0]) % (1 << (8 * a.args[1]))).to_bytes(a.args[1], 'little')
        if n == 'byte': return bytes([self.poly(a.args[0]) & 255])
        if n == 'blk': return self.ring(a.args[0]).to_bytes(16, 'little')
        if n == 'bnpad':
            v = self.poly(a.args[0]); 
            if v < 0 or v >= 256 ** L: raise Bad('bnpad')
            return v.to_bytes(L, 'big')
        if n == 'bnmin':
            v = self.poly(a.args[0]); return abs(v).to_bytes(L, 'big')
        if n == 'pt':
            v = self.poly(a.args[0], QV)
            form = a.args[1]
            if v % QV == 0: return bytes([0]) + bytes([int(form[1:] or 0)]) * (L - 1)
            x = self.stream('pt', (v, form[0]), L)
            return bytes([4 if form[0] == 'u' else 2 + (x[0] & 1)]) + x[1:]
        if n == 'sub':
            x = self.bytes(a.args[0]); s, m = self.poly(a.args[1]), self.poly(a.args[2])
            if s < 0 or s + m > len(x): raise Bad('sub')
            return x[s:s + m]
        if n == 'fill': return bytes([self.poly(a.args[1]) & 255]) * L
        if n == 'sha256': return hashlib.sha256(self.bytes(a.args[0])).digest()
        if n == 'dec': return str(self.poly(a.args[0])).encode()
        return self.stream(n, tuple(self.args(a)), L)
    def stream(self, n, k, L):
        out = b''; i = 0
        while len(out) < L:
            out += hashlib.sha256(repr((self.seed, n, k, i)).encode()).digest(); i += 1
        return out[:L]
    def b(self, x):
        o = x.op
        if o == 'true': return True
        if o == 'false': return False
        if o == 'not': return not self.b(x.args[0])
        if o == 'and': return all(self.b(y) for y in x.args)
        if o == 'or': return any(self.b(y) for y in x.args)
        if o == 'le': return self.poly(x.args[0]) <= 0
        if o == 'eq': return self.poly(x.args[0]) == 0
        if o == 'g0': return self.poly(x.args[0], QV) == 0
        if o in ('all', 'ex'):
            k = self.poly(x.args[0])
            if k > 64: raise Bad('long quantifier')
            it = (self.b(open_b(x.args[1], x.args[2], P(i))) for i in range(max(0, k)))
            return all(it) if o == 'all' else any(it)
        if o == 'app':
            if x.args[0] == 'beq': return self.bytes(x.args[1]) == self.bytes(x.args[2])
            if x.args[0] == 'req': return self.ring(x.args[1]) == self.ring(x.args[2])
            return bool(self.h('b', x.args[0], *[self.any(y) for y in x.args[1:]]) & 1)
        raise Bad(o)

def refute(hyps, goal, tries=400):
    """a valuation satisfying hyps and falsifying goal, or None"""
    import time
    t0 = time.time()
    for s in range(tries):
        if time.time() - t0 > 20: break
        ev = Ev(s, (1, 2, 0)[s % 3])
        try:
            if not all(ev.b(h) for h in hyps): continue
            if not ev.b(goal): return dict(sorted(ev.val.items())[:12]) or {'seed': s}
        except (Bad, OverflowError, RecursionError, ValueError): continue
    return None
