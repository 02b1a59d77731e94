"""Decision procedures: term rewriting first, then z3."""
import time
import z3
from terms import *
from values import *

STATS = {'z3_calls': 0, 'z3_time': 0.0, 'ring': 0, 'unknown': 0}
NONNEG = set(['len', 'rnd', 'mod', 'at', 'size'])

class Tr:
    def __init__(self):
        self.side = []; self.atoms = {}; self.seen = set()
        self.gz = z3.Function('gz', z3.IntSort(), z3.BoolSort())
    def poly(self, p):
        r = []
        for mon, c in p.t.items():
            fs = []
            for a, e in mon:
                x = self.atom(a)
                if isinstance(e, int) and e > 0: fs += [x] * e
                else: fs.append(self.opq(('pow', a, e)))
            t = z3.IntVal(c)
            for f in fs: t = t * f
            r.append(t)
        if not r: return z3.IntVal(0)
        return z3.Sum(r) if len(r) > 1 else r[0]
    def opq(self, key):
        v = self.atoms.get(key)
        if v is None:
            v = z3.Int('o%d' % len(self.atoms))
            self.atoms[key] = v
        return v
    def atom(self, a):
        v = self.atoms.get(a)
        if v is not None: return v
        n = a.name
        if n == 'ite':
            v = z3.If(self.b(a.args[0]), self.poly(a.args[1]), self.poly(a.args[2]))
        elif n == 'mod':
            m = self.poly(a.args[1])
            v = z3.Int('m%d' % a.id)
            self.atoms[a] = v
            if a.args[1].is_const():
                self.side.append(v == self.poly(a.args[0]) % m)
            else:
                k = z3.Int('mk%d' % a.id)
                self.side.append(z3.Implies(m > 0, z3.And(v >= 0, v < m)))
                na = mod(-a.args[0], a.args[1]).atom()
                if na is not None and na in self.atoms and na is not a:
                    w = self.atoms[na]
                    self.side.append(z3.Implies(m > 0, z3.If(w == 0, v == 0, v == m - w)))
                if a.depth == 0 and len(a.args[0].t) <= 2:
                    p = self.poly(a.args[0])
                    self.side.append(z3.Implies(z3.And(m > 0, p >= 0, p < m), v == p))
        elif n == 'div' and a.args[1].is_const() and a.args[1].const() > 0:
            v = self.poly(a.args[0]) / self.poly(a.args[1])
        elif n == 'tdiv' and a.args[1].is_const() and a.args[1].const() > 0:
            x = self.poly(a.args[0]); m = self.poly(a.args[1])
            v = z3.If(x >= 0, x / m, -((-x) / m))
        elif n == 'wrap':
            x = self.poly(a.args[0]); w = a.args[1]; m = z3.IntVal(1 << w)
            u = x % m
            v = z3.If(u >= (1 << (w - 1)), u - m, u) if a.args[2] else u
        elif n == 'order':
            v = z3.Int('order'); self.side.append(v > 2**32)
        else:
            pargs = [x for x in a.args]
            if pargs and all(isinstance(x, (Poly, str, int)) for x in pargs) and any(isinstance(x, Poly) for x in pargs):
                nm = n + ':' + ','.join(str(x) if not isinstance(x, Poly) else '_' for x in pargs)
                ps = [self.poly(x) for x in pargs if isinstance(x, Poly)]
                f = z3.Function(nm, *([z3.IntSort()] * (len(ps) + 1)))
                v = f(*ps)
            else:
                v = z3.Int('a%d' % a.id)
        self.atoms[a] = v
        if n == 'rnd' and a.depth == 0:
            self.side.append(v >= 0)
            if isinstance(a.args[1], Poly): self.side.append(v < self.poly(a.args[1]))
        elif n == 'at' and a.depth == 0:
            self.side.append(z3.And(v >= 0, v <= 255))
        elif n in ('len', 'size') and a.depth == 0:
            self.side.append(v >= 0)
        elif n == 'numbits' and a.depth == 0:
            x = self.poly(a.args[0]); self.side.append(v >= 0)
            for c in (8, 64, 128, 256): self.side.append(z3.Implies(z3.And(x > -2**c, x < 2**c), v <= c))
        elif n in ('perm', 'pinv') and a.depth == 0:
            i, m = self.poly(a.args[2]), self.poly(a.args[1])
            self.side.append(z3.Implies(z3.And(i >= 0, i < m), z3.And(v >= 0, v < m)))
        elif n in RANGES and a.depth == 0:
            lo, hi = RANGES[n]
            self.side.append(v >= lo)
            if hi is not None: self.side.append(v <= hi)
        return v
    def b(self, x):
        o = x.op
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'not': return z3.Not(self.b(x.args[0]))
        if o == 'and': return z3.And(*[self.b(y) for y in x.args])
        if o == 'or': return z3.Or(*[self.b(y) for y in x.args])
        if o == 'le': return self.poly(x.args[0]) <= 0
        if o == 'eq': return self.poly(x.args[0]) == 0
        if o == 'g0': return self.gz(self.poly(x.args[0]))
        if o in ('all', 'ex'):
            i = fresh_atom('q')
            body = open_b(x.args[1], x.args[2], P(i))
            n = self.poly(x.args[0])
            zi = z3.Int('q%d' % i.id); self.atoms[i] = zi
            s0 = len(self.side)
            zb = self.b(body)
            new = self.side[s0:]; del self.side[s0:]
            rng = z3.And(zi >= 0, zi < n)
            if o == 'all': return z3.ForAll([zi], z3.Implies(z3.And(rng, *new), zb))
            return z3.Exists([zi], z3.And(rng, zb, *new))
        if o == 'app':
            pargs = [y for y in x.args[1:]]
            if pargs and all(isinstance(y, Poly) for y in pargs):
                f = z3.Function('p:' + x.args[0], *([z3.IntSort()] * len(pargs) + [z3.BoolSort()]))
                return f(*[self.poly(y) for y in pargs])
            return z3.Bool('b%d' % x.id)
        raise AssertionError(o)
RANGES = {}

_cache = {}
def check(hyps, goal, timeout=3000):
    """True: proved; False: countermodel; None: unknown"""
    if goal is TRUE: return True
    key = (tuple(hyps), goal, timeout > 3000)
    if key in _cache: return _cache[key]
    if goal in hyps: return True
    if bnot(goal) in hyps and all(h is not FALSE for h in hyps): pass
    t0 = time.time()
    tr = Tr()
    s = z3.Solver(); s.set('timeout', timeout)
    zs = [tr.b(h) for h in hyps] + [z3.Not(tr.b(goal))]
    s.add(*zs); s.add(*tr.side)
    r = s.check()
    STATS['z3_calls'] += 1; STATS['z3_time'] += time.time() - t0
    res = True if r == z3.unsat else False if r == z3.sat else None
    if res is None: STATS['unknown'] += 1
    _cache[key] = res
    if res is False:
        global LAST_MODEL
        LAST_MODEL = (tr, s.model())
    return res
LAST_MODEL = None

def decide_pc(pc, c):
    if c is TRUE: return True
    if c is FALSE: return False
    if c in pc: return True
    n = bnot(c)
    if n in pc: return False
    # relevance: keep only pc facts (all, small)
    hyps = tuple(pc)
    if c.op == 'g0' or c.op == 'app':
        # opaque atoms are only decided syntactically or via boolean structure mentioning them
        if not any(_mentions(h, c) for h in hyps): return None
    if check(hyps, c) is True: return True
    if check(hyps, n) is True: return False
    return None

def _mentions(h, c):
    if h is c: return True
    if h.op in ('and', 'or', 'not'): return any(_mentions(x, c) for x in h.args)
    if h.op in ('all', 'ex'): return True
    return False

def find_ite(x):
    """an ite condition occurring at top level of some poly inside boolean x"""
    seen = set()
    def poly(p):
        for m in p.t:
            for a, e in m:
                r = atom(a)
                if r is not None: return r
        return None
    def atom(a):
        if a in seen: return None
        seen.add(a)
        if a.name == 'ite' and a.args[0].depth == 0:
            return a.args[0]
        for y in a.args:
            r = anyt(y)
            if r is not None: return r
        return None
    def anyt(y):
        if isinstance(y, Poly): return poly(y)
        if isinstance(y, App): return atom(y)
        if isinstance(y, B): return boolt(y)
        if isinstance(y, Ring2):
            for m in y.t:
                for a in m:
                    if a.name == 'spread' and a.args[0].depth == 0: return a.args[0]
                    r = atom(a)
                    if r is not None: return r
            return None
        if isinstance(y, Bytes):
            for s in y.segs:
                if isinstance(s, tuple):
                    if s[0] == 'rep':
                        r = anyt(s[1]) or anyt(s[2])
                    elif s[0].name == 'bite' and s[0].args[0].depth == 0: return s[0].args[0]
                    else: r = atom(s[0])
                    if r is not None: return r
            return None
        if isinstance(y, tuple):
            for z in y:
                r = anyt(z)
                if r is not None: return r
        ch = getattr(y, 'children', None)
        if ch:
            for z in ch():
                r = anyt(z)
                if r is not None: return r
        return None
    def boolt(b):
        if b.op in ('true', 'false'): return None
        if b.op in ('not', 'and', 'or'):
            for y in b.args:
                r = boolt(y)
                if r is not None: return r
            return None
        for y in b.args:
            r = anyt(y)
            if r is not None: return r
        return None
    return boolt(x)

class AssumeB:
    """substitute the truth value of boolean atoms inside a term"""
    def __init__(self, c, val):
        self.s = Subst({}); self.c = c; self.val = val
        facts = {}
        def add(c, val):
            if c.op == 'not': add(c.args[0], not val); return
            if c.op == 'and' and val:
                for y in c.args: add(y, True)
            if c.op == 'or' and not val:
                for y in c.args: add(y, False)
            facts[c] = TRUE if val else FALSE
            facts[bnot(c)] = FALSE if val else TRUE
        add(c, val)
        self.facts = facts
    def __call__(self, x):
        s = _FactSubst(self.facts)
        return s(x)

class _FactSubst(Subst):
    def __init__(self, facts):
        Subst.__init__(self, {}); self.facts = facts
    def touches(self, x): return True
    def __call__(self, x):
        if isinstance(x, B) and x in self.facts: return self.facts[x]
        return Subst.__call__(self, x)
    def app(self, a):
        if not a.args: return P(a)
        r = self.memo.get(a)
        if r is not None: return r
        if a.name == 'sum':
            i = fresh_atom('i')
            body = self(open_b(a.args[1], a.args[2], P(i)))
            r = psum(self(a.args[0]), i, body)
        elif a.name in ('P', 'c'): r = self(a.args[0])
        else: r = rebuild(a.name, [self(y) for y in a.args])
        self.memo[a] = r
        return r

def witnesses(goal):
    """exists-goals: offer the index symbols of the goal as witnesses"""
    parts = goal.args if goal.op == 'or' else (goal,)
    if not any(x.op == 'ex' for x in parts): return goal
    cand = sorted((a for a in all_atoms(goal) if '!' in a.name and not a.args), key=lambda a: a.id)[:6]
    out = []
    for x in parts:
        out.append(x)
        if x.op == 'ex':
            for a in cand: out.append(band(le(0, P(a)), lt(P(a), x.args[0]), open_b(x.args[1], x.args[2], P(a))))
    return bor(*out)
def prove(hyps, goal, depth=0, timeout=10000, deadline=None):
    """(status, detail): status True / False (refuted) / None"""
    hyps = tuple(h for h in hyps if h is not TRUE)
    if FALSE in hyps: return True, None
    # use boolean facts
    if depth == 0:
        for h in hyps:
            if h.op in ('g0', 'app', 'eq', 'le', 'not'):
                pass
    if goal is TRUE:
        STATS['ring'] += 1
        return True, None
    if deadline and time.time() > deadline: return None, goal
    if goal.op == 'and':
        worst = True; det = None
        for g in goal.args:
            r, d = prove(hyps, g, depth, timeout, deadline)
            if r is False: return r, d
            if r is None: worst = None; det = d
        return worst, det
    if depth == 0 and goal.op in ('or', 'ex'):
        goal = witnesses(goal)
        if goal is TRUE: return True, None
    if goal.op == 'all':
        i = fresh_atom('k')
        return prove(hyps + (le(0, P(i)), lt(P(i), goal.args[0])), open_b(goal.args[1], goal.args[2], P(i)), depth, timeout, deadline)
    if depth < 14:
        c = find_ite(goal)
        if c is None:
            for h in hyps:
                c = find_ite(h)
                if c is not None: break
        if c is not None:
            res = True; det = None
            for val in (True, False):
                cc = c if val else bnot(c)
                ab = AssumeB(c, val)
                h2 = tuple(ab(h) for h in hyps) + (cc,)
                if FALSE in h2: continue
                g2 = ab(goal)
                if g2 is TRUE: continue
                if check(h2, FALSE, 2000) is True: continue
                r, d = prove(h2, g2, depth + 1, timeout, deadline)
                if r is False: return r, d
                if r is None: res = None; det = d
            return res, det
    # use linear equalities among group/integer atoms in hyps to rewrite
    m = eq_subst(hyps)
    if m and depth < 40:
        s = Subst(m)
        g2 = s(goal)
        h2 = tuple(x for x in (s(h) for h in hyps) if x is not TRUE)
        if g2 is not goal or h2 != hyps:
            return prove(h2, g2, depth + 1, timeout, deadline)
    if goal.op == 'app' and goal.args[0] == 'req' and cong(hyps, goal.args[1], goal.args[2]): return True, None
    r = check(hyps, goal, timeout)
    if r is True: return True, None
    if r is False: return False, goal
    return None, goal

def cong(hyps, x, y, depth=0):
    """equality by congruence: same symbols, arguments provably equal under the hypotheses"""
    if x is y or x == y: return True
    if type(x) is not type(y): return False
    if isinstance(x, Poly): return check(hyps, eq(x, y)) is True
    if isinstance(x, App):
        if x.name == y.name == 'fbh':
            if check(hyps, eq(x.args[0], y.args[0])) is not True: return False
            i = fresh_atom('k'); h2 = tuple(hyps) + (le(0, P(i)), lt(P(i), x.args[0]))
            import values
            old = values.DECIDE[0]; values.DECIDE[0] = lambda c: decide_pc(h2, c)
            try: a, b = [open_b(z.args[1], z.args[2], P(i)) for z in (x, y)]
            finally: values.DECIDE[0] = old
            return cong(h2, a, b, depth + 1)
        return x.name == y.name and len(x.args) == len(y.args) and all(cong(hyps, a, b, depth + 1) for a, b in zip(x.args, y.args))
    if isinstance(x, Vec):
        if check(hyps, eq(x.n, y.n)) is not True: return False
        i = fresh_atom('k'); h2 = tuple(hyps) + (le(0, P(i)), lt(P(i), x.n))
        import values
        old = values.DECIDE[0]; values.DECIDE[0] = lambda c: decide_pc(h2, c)
        try: a, b = vget(x, P(i)), vget(y, P(i))
        finally: values.DECIDE[0] = old
        return cong(h2, a, b, depth + 1)
    if isinstance(x, Ring2):
        l = list(x.t - y.t); r = list(y.t - x.t)
        if len(l) != len(r) or len(l) > 6: return False
        for m in l:
            hit = None
            for n in r:
                if len(m) != len(n): continue
                a = sorted(m - n, key=lambda q: (q.name, q.id)); b = sorted(n - m, key=lambda q: (q.name, q.id))
                if len(a) == len(b) and all(cong(hyps, p, q, depth + 1) for p, q in zip(a, b)): hit = n; break
            if hit is None: return False
            r.remove(hit)
        return True
    return False

def eq_subst(hyps):
    """pick one equality hypothesis solvable for an atom"""
    for h in hyps:
        if h.op in ('eq', 'g0'):
            p = h.args[0]
            best = None
            for mon, c in p.t.items():
                if len(mon) == 1 and mon[0][1] == 1 and abs(c) == 1:
                    a = mon[0][0]
                    if a is q_atom: continue
                    rest = p - Poly({mon: c})
                    if occurs(a, rest): continue
                    if a.depth: continue
                    if a.name in ('ite', 'sum', 'mod', 'div'): continue
                    if h.op == 'g0' and not a.name.startswith('G:'): continue
                    val = -rest if c == 1 else rest
                    if best is None or a.id > best[0].id: best = (a, val)
            if best:
                if h.op == 'g0' and False: pass
                return {best[0]: best[1]}
    return None

def sat(hyps, timeout=5000):
    """reachability / vacuity check: are the hypotheses satisfiable?"""
    r = check(tuple(hyps), FALSE, timeout)
    return False if r is True else True if r is False else None
