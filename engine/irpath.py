"""Deductive verification over LLVM IR (clang output of the current tree): path-wise symbolic execution with loop invariants.
A loop whose trip count is data dependent is cut at its header: the invariant is proved on entry, the state the loop modifies is
replaced by arbitrary values that satisfy the invariant, and every path of one iteration has to re-establish it."""
import re, z3, llvm
from llvm import U, Ptr_, isc, bv, simp, cond_

class State:
    __slots__ = ('frames', 'mem', 'pc', 'sizes', 'arr', 'trace')
    def copy(self):
        s = State(); s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.pc = list(self.pc); s.sizes = dict(self.sizes); s.arr = dict(self.arr); s.trace = self.trace; return s
class Frame:
    __slots__ = ('name', 'block', 'idx', 'env', 'prev', 'dst', 'entry', 'visits')
    def copy(self):
        f = Frame(); 
        for k in self.__slots__: setattr(f, k, getattr(self, k))
        f.env = dict(self.env); f.visits = dict(self.visits); return f

def headers(fn):
    """loop headers: targets of back edges"""
    rt, ps, blocks, order = fn
    succ = {}
    for b in order:
        t = blocks[b][-1] if blocks[b] else ''
        succ[b] = [x.strip('"') for x in re.findall(r'label %("[^"]+"|[\w.-]+)', t)] if t.startswith(('br ', 'switch')) else []
    out, state = [], {}
    stack = [(order[0], iter(succ[order[0]]))]; state[order[0]] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if state.get(x) == 1: out.append(x) if x not in out else None
            elif x not in state: state[x] = 1; stack.append((x, iter(succ[x]))); break
        else: state[b] = 2; stack.pop()
    return out

class NeedCut(U):
    def __init__(self, key): U.__init__(self, 'loop without a fixed number of iterations'); self.key = key
class Explorer:
    visit_limit = 20
    def __init__(self, mach, max_paths=4000):
        self.M = mach; self.max = max_paths; self.forks = 0; self.solver_calls = 0; self.forking = {}
    def start(self, name, args):
        s = State(); s.frames = []; s.mem = dict(self.M.mem); s.pc = list(self.M.pc); s.sizes = self.M.sizes; s.arr = self.M.arr; s.trace = ()
        self.push(s, name, args, None); return s
    def push(self, s, name, args, dst):
        fn = self.M.m.fns.get(name)
        if fn is None: raise U('no definition of ' + name)
        if len(s.frames) > 40: raise U('recursion')
        rt, ps, blocks, order = fn
        f = Frame(); f.name = name; f.block = '#entry'; f.idx = 0; f.prev = None; f.dst = dst; f.visits = {}
        f.env = {nm: a for (t, nm), a in zip(ps, args)}
        f.entry = str(sum(1 for t, nm in ps if nm and nm[1:].isdigit()))
        s.frames.append(f)
    def goto(self, s, target):
        f = s.frames[-1]; f.prev = f.block; f.block = target; f.idx = 0
        f.visits[target] = f.visits.get(target, 0) + 1
        if f.visits[target] > self.visit_limit: raise NeedCut((f.name, target))
        blocks = self.M.m.fns[f.name][2]
        phis = {}
        for ins in blocks[target]:
            m = re.match(r'^(%[\w.-]+) = phi (.*)$', ins)
            if not m: break
            t, rest = self.M.m.lead_type(m.group(2))
            opts = {x[1].strip('"'): x[0] for x in re.findall(r'\[\s*(.*?),\s*%("[^"]+"|[\w.-]+)\s*\]', rest)}
            k = f.prev if f.prev != '#entry' else f.entry
            phis[m.group(1)] = self.M.val(opts[k] if k in opts else opts[f.prev], t, f.env)
        f.env.update(phis)
    def feasible(self, pc, c):
        self.solver_calls += 1
        s = z3.Solver(); s.set('timeout', 4000)
        for x in self.M.assumed + pc: s.add(x)
        s.add(c); return s.check() != z3.unsat
    def explore(self, s0, cuts=(), first=True):
        """run to the end of every path; ends: ('ret', value, state), ('cut', (function, header), state), ('dead', None, state)"""
        ends, work = [], [s0]
        M = self.M
        while work:
            s = work.pop(); moved = False
            M.mem = s.mem; M.pc = s.pc
            while True:
                f = s.frames[-1]; blk = M.m.fns[f.name][2][f.block]
                if f.idx >= len(blk): raise U('block without terminator')
                ins = blk[f.idx]; f.idx += 1
                if ' = phi ' in ins: continue
                M.steps += 1
                if M.steps > M.limit: raise U('step limit')
                tgt = None
                if ins.startswith('ret'):
                    v = None if ins == 'ret void' else M.tv(ins[4:], f.env)[1]
                    s.frames.pop()
                    if not s.frames: ends.append(('ret', v, s)); break
                    if f.dst: s.frames[-1].env[f.dst] = v
                    continue
                if ins.startswith('br label'): tgt = [(True, ins[len('br label %'):].strip().strip('"'))]
                elif ins.startswith('br i1'):
                    m = re.match(r'br i1 (.*), label %("[^"]+"|[\w.-]+), label %("[^"]+"|[\w.-]+)', ins)
                    c = cond_(M.val(m.group(1), 'i1', f.env)); A, B = m.group(2).strip('"'), m.group(3).strip('"')
                    if c is True: tgt = [(True, A)]
                    elif c is False: tgt = [(True, B)]
                    else: tgt = [(c, A), (z3.Not(c), B)]
                elif ins.startswith('switch'):
                    m = re.match(r'switch (\S+) (\S+), label %("[^"]+"|[\w.-]+) \[(.*)\]', ins)
                    v = M.val(m.group(2), m.group(1), f.env); w = M.m.bits(m.group(1)); d = m.group(3).strip('"')
                    opts = [(int(x) & ((1 << w) - 1), l.strip('"')) for x, l in re.findall(r'(-?\d+), label %("[^"]+"|[\w.-]+)', m.group(4))]
                    if isc(v): tgt = [(True, dict(opts).get(v, d))]
                    else: tgt = [(v == x, l) for x, l in opts] + [(z3.And([v != x for x, _ in opts]), d)]
                elif ins.startswith('unreachable'): ends.append(('dead', None, s)); break
                if tgt is None:
                    x = re.sub(r'^%[\w.-]+ = ', '', ins); x = re.sub(r'^(tail|musttail|notail) ', '', x)
                    m = re.search(r'(@[\w.$"-]+)\((.*)\)', x) if x.startswith(('call', 'invoke')) else None
                    if m and m.group(1) in M.m.fns and m.group(1) not in getattr(M, 'hooks', {}) and not m.group(1).startswith('@llvm.'):
                        args = [M.tv(a, f.env)[1] for a in llvm.split_top(m.group(2))]
                        d = re.match(r'^(%[\w.-]+) = ', ins)
                        if x.startswith('invoke'): raise U('invoke')
                        self.push(s, m.group(1), args, d.group(1) if d else None); continue
                    if m and m.group(1) in self.forking:
                        alts = self.forking[m.group(1)](s); d = re.match(r'^(%[\w.-]+) = ', ins).group(1)
                        for v in alts[:-1]: q = s.copy(); q.frames[-1].env[d] = v; work.append(q)
                        f.env[d] = alts[-1]; self.forks += len(alts) - 1; continue
                    r = M.ins(ins, f.env); s.mem = M.mem
                    if isinstance(r, str) and r == 'dead': ends.append(('dead', None, s)); break
                    continue
                live = [(c, t) for c, t in tgt if c is True or self.feasible(s.pc, c)] if len(tgt) > 1 else tgt
                stop = False
                for j, (c, t) in enumerate(live):
                    q = s if j == len(live) - 1 else s.copy()
                    if c is not True: q.pc = q.pc + [c]
                    M.mem = q.mem; M.pc = q.pc
                    self.goto(q, t)
                    if (q.frames[-1].name, t) in cuts: ends.append(('cut', (q.frames[-1].name, t), q)); stop = stop or q is s
                    elif q is not s: work.append(q)
                self.forks += len(live) - 1
                if self.forks > self.max or len(ends) > self.max: raise U('too many paths')
                if not live or stop: break
                M.mem = s.mem; M.pc = s.pc
        return ends

def phi_vars(fn, block):
    out = []
    for ins in fn[2][block]:
        m = re.match(r'^(%[\w.-]+) = phi (\S+)', ins)
        if not m: break
        out.append((m.group(1), m.group(2)))
    return out
def word(mem, r, o, n):
    bs = [mem.get((r, o + i)) for i in range(n)]
    if any(b is None or isinstance(b, tuple) for b in bs): return None
    return z3.simplify(z3.Concat(*[bv(b, 8) for b in reversed(bs)]))

class CutLoop:
    """havoc what the loop at a cut modifies; candidates() lists the 32/64-bit loop-carried values"""
    def __init__(self, X, key, entries, tag):
        self.X, self.key, self.tag = X, key, tag
        fn = X.M.m.fns[key[0]]; self.phis = phi_vars(fn, key[1])
        base = entries[0]
        self.mod = set()
        for _ in range(6):
            st = self.havoc(base)
            ends = X.explore(st.copy(), {key})
            new = set()
            for k, v, s in ends:
                if k != 'cut': continue
                for kk, x in s.mem.items():
                    y = st.mem.get(kk)
                    if y is None or x is y: continue
                    if isc(x) and isc(y) and x == y: continue
                    if isinstance(x, tuple) or isinstance(y, tuple):
                        if x != y: raise U('loop changes a pointer in memory')
                        continue
                    if not isc(x) and not isc(y) and x.eq(y): continue
                    if kk not in self.mod: new.add(kk)
                    if kk in self.mod: continue
            if not new: break
            self.mod |= new
        else: raise U('loop frame not found')
        self.state = st
    def havoc(self, base):
        s = base.copy(); f = s.frames[-1]
        for nm, t in self.phis:
            v = f.env[nm]
            if isinstance(v, Ptr_):
                if v.r in s.arr: f.env[nm] = Ptr_(v.r, z3.BitVec('hv_%s_%s' % (self.tag, nm), 64)); continue
                raise U('loop-carried pointer')
            f.env[nm] = z3.BitVec('hv_%s_%s' % (self.tag, nm), self.X.M.m.bits(t))
        for r, o in self.mod:
            s.mem[(r, o)] = z3.Array('hv_%s_%s' % (self.tag, r), z3.BitVecSort(64), z3.BitVecSort(8 * self.X.M.word[r])) if o == 'A' else z3.BitVec('hv_%s_%s_%s' % (self.tag, r, o), 8)
        # facts about the state at the entry of the loop that speak about unmodified symbols only may be kept: they do, the havoced values are new symbols
        return s
    def cands(self, w=32):
        out = [('phi', nm) for nm, t in self.phis if t == 'i%d' % w]
        regs = {}
        for r, o in self.mod:
            if o != 'A': regs.setdefault(r, set()).add(o)
        for r, os_ in sorted(regs.items()):
            for o in sorted(os_):
                if all(o + i in os_ for i in range(w // 8)): out.append(('mem', r, o))
        return out
    def value(self, c, s, w=32):
        if c[0] == 'phi': return bv(s.frames[-1].env[c[1]], w)
        return word(s.mem, c[1], c[2], w // 8)
