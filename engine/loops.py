"""Loop rule: infer an inductive summary (the loop invariant) from one execution of the body for an
arbitrary iteration k, sound by construction:
  - every location written by the body is replaced by a placeholder for its value at the start of iteration k
  - the value after the body must be  base (+) contribution(k)  with the contribution free of placeholders
  - contributions are then folded over k = 0..N-1.
Anything else makes the loop 'not summarised' (the caller falls back to a bounded unrolling)."""
from terms import *
from values import *
import solver
from interp import *

class Fail(Exception): pass

def _ipos(v):
    if isinstance(v, Poly): return v
    if isinstance(v, Ptr): return v.index()
    if isinstance(v, Stream): return v.pos
    return None
def path_dep(path, atoms):
    for i, (k, a) in enumerate(path):
        if isinstance(a, Poly) and any(occurs(t, a) for t in atoms): return i
        if k == 'map': return i
    return None

def shaped(v, name, path=()):
    """placeholder value of the same shape as v (leaves replaced by atoms)"""
    tag = name + ''.join('.%s' % (p,) for p in path)
    if isinstance(v, Poly): return P(app('ph:' + tag))
    if isinstance(v, G): return G(P(app('ph:' + tag)))
    if isinstance(v, B): return bapp('ph:' + tag)
    if isinstance(v, Ring2): return R(app('ph:' + tag))
    if isinstance(v, Bytes): return seg(app('ph:' + tag), P(app('phl:' + tag)))
    if isinstance(v, Struct): return Struct(v.cls, {k: shaped(x, name, path + (k,)) for k, x in v.f.items()})
    if isinstance(v, Vec):
        i = fresh_atom('i')
        el = vget(v, P(i)) if v.idx is not None or v.ups else v.body
        if v.idx is None and v.ups and v.n.is_const() and v.n.const() > 0: el = vget(v, P(0))
        b = shaped_fn(el, tag, P(i))
        return Vec(P(app('phn:' + tag)), i, b)
    if isinstance(v, SetV): return SetV(v.kind, (('ph', tag),))
    if isinstance(v, Ptr):
        if v.index() is not None: return Ptr(v.cell, v.path[:-1] + (('i', P(app('ph:' + tag))),), v.view)
        return v
    if isinstance(v, Stream) and v.mode == 'w': return v.at(b=seg(app('ph:' + tag), P(app('phl:' + tag))))
    if isinstance(v, Stream) and v.mode == 'r': return v.at(pos=P(app('ph:' + tag)))
    if v is UNDEF or isinstance(v, (Opaque, Null, Stream)): return v
    raise Fail('placeholder for %s' % type(v).__name__)

def shaped_fn(v, tag, idx, path=()):
    """element-shaped placeholder: leaves are applications lr:tag(idx)"""
    t = 'lr:' + tag + ''.join('.%s' % p for p in path)
    if isinstance(v, Poly): return P(app(t, idx))
    if isinstance(v, G): return G(P(app(t, idx)))
    if isinstance(v, B): return bapp(t, idx)
    if isinstance(v, Ring2): return R(app(t, idx))
    if isinstance(v, Bytes): return seg(app(t, idx), P(app('len:' + t, idx)))
    if isinstance(v, Struct): return Struct(v.cls, {k: shaped_fn(x, tag, idx, path + (k,)) for k, x in v.f.items()})
    if isinstance(v, Vec):
        j = fresh_atom('i')
        el = vget(v, P(j)) if v.idx is not None or v.ups else v.body
        return Vec(v.n, j, shaped_fn2(el, t, idx, P(j)))
    return v
def shaped_fn2(v, t, i, j):
    if isinstance(v, Poly): return P(app(t, i, j))
    if isinstance(v, G): return G(P(app(t, i, j)))
    if isinstance(v, B): return bapp(t, i, j)
    if isinstance(v, Ring2): return R(app(t, i, j))
    if isinstance(v, Bytes): return seg(app(t, i, j), P(app('len:' + t, i, j)))
    return v

def has_ph(x, k_ok=()):
    """does x mention any loop placeholder"""
    for a in all_atoms(x):
        if a.name.startswith(('ph:', 'phl:', 'phn:', 'lr:', 'len:lr:')) and a not in k_ok: return True
    return _bph(x)
def _bph(x, seen=None):
    # boolean placeholders
    if isinstance(x, B):
        if x.op == 'app' and isinstance(x.args[0], str) and x.args[0].startswith(('ph:', 'lr:')): return True
        return any(_bph(y) for y in x.args)
    if isinstance(x, Poly): return any(_bph(a) for m in x.t for a, e in m)
    if isinstance(x, App): return any(_bph(y) for y in x.args)
    if isinstance(x, Ring2): return any(_bph(a) for m in x.t for a in m)
    if isinstance(x, Bytes): return any(_bph(s) for s in x.segs)
    if isinstance(x, tuple): return any(_bph(y) for y in x)
    ch = getattr(x, 'children', None)
    if ch: return any(_bph(y) for y in ch())
    return False

def summarise(ex, n, evc, inc, body, pre, omp):
    """returns None on success (ex.st = state after loop), else reason string"""
    save = (ex.st.copy(), ex.log, len(ex.obls), len(ex.aborts), len(ex.races), len(ex.frames[-1].returns), list(ex.loopk))
    if ex.chan is not None: chan0 = ex.chan.mark()
    try:
        _summarise(ex, n, evc, inc, body, pre, save[0])
        ex.loop_summaries += 1
        return None
    except (Fail, MergeFail) as e:
        ex.st = save[0]; ex.log = save[1]
        del ex.obls[save[2]:]; del ex.aborts[save[3]:]; del ex.races[save[4]:]
        del ex.frames[-1].returns[save[5]:]
        ex.loopk = save[6]
        if ex.chan is not None: ex.chan.reset(chan0)
        err = str(e)
    try:
        _progress(ex, evc, inc, body, pre, save[0])
        ex.loop_summaries += 1
        return None
    except (Fail, MergeFail) as e:
        if 'no partial' not in str(e): err += '; progress rule: %s' % e
    except Unsupported as e: err += '; progress rule: %s' % e
    finally: ex.iochoices = None
    ex.st = save[0]; ex.log = save[1]
    del ex.obls[save[2]:]; del ex.aborts[save[3]:]; del ex.races[save[4]:]
    del ex.frames[-1].returns[save[5]:]
    return err

def _progress(ex, evc, inc, body, pre, st0):
    """loops around a partial transfer (write/read returning a count 0 <= s <= request).  Invariant, checked:
    the state at the loop head is the state after ONE transfer of p bytes, for some 0 <= p <= M."""
    base = set(st0.mem); nab = len(ex.aborts); nret = len(ex.frames[-1].returns); outer = ex.log
    def once(st):
        ex.st = st; ex.iochoices = []
        c = to_bool(evc())
        if c is FALSE: raise Fail('condition false')
        ex.assume(c); ex.log = []
        br = ex.iter_body(body, inc, pre)
        log = ex.log; ex.log = outer
        if br or len(ex.frames[-1].returns) != nret or not ex.st.alive: raise Fail('early exit')
        del ex.aborts[nab:]
        if len(ex.iochoices) != 1: raise Fail('no partial transfer' if not ex.iochoices else 'several transfers')
        return ex.iochoices[0], ex.st, {cell for cell, _ in log if cell in base}
    (s, M), S1, cells = once(st0.copy())
    V1 = {c: S1.mem[c] for c in cells}
    at = lambda x: {c: subst(V1[c], {s: P(x)}) for c in V1}
    from externals import val_eq
    def same(a, b, hy):
        for c in a:
            g = val_eq(a[c], b[c])
            if g is TRUE: continue
            if solver.prove(hy, g)[0] is not True: raise Fail('not a progress invariant: %s' % c)
    same(at(0), {c: st0.mem[c] for c in cells}, st0.pc)
    p = fresh_atom('p'); Pp = P(p)
    def head():
        st = st0.copy(); st.mem.update(at(Pp)); st.pc = st.pc + (le(0, Pp), le(Pp, M)); return st
    (s2, M2), S2, cells2 = once(head())
    if not cells2 <= cells: raise Fail('further locations')
    same(at(Pp + P(s2)), {c: S2.mem[c] for c in cells}, S2.pc)
    if solver.prove(S2.pc, le(Pp + M2, M))[0] is not True: raise Fail('bound')
    ex.st = head(); ex.iochoices = None
    c = to_bool(evc())
    if solver.prove(ex.st.pc + (bnot(c),), eq(Pp, M))[0] is not True: raise Fail('exit before everything is transferred')
    ex.st = st0.copy(); ex.st.mem.update(at(M))
    c = to_bool(evc())
    if solver.prove(ex.st.pc, bnot(c))[0] is not True: raise Fail('exit')
    ex.log = outer
    if ex.log is not None:
        for l in cells: ex.log.append((l, ()))

def _summarise(ex, n, evc, inc, body, pre, st0):
    fr = ex.frames[-1]
    outer_log = ex.log
    nret = len(fr.returns); nab = len(ex.aborts); nob = len(ex.obls); nrace = len(ex.races)
    base_cells = set(st0.mem)
    k = fresh_atom('k')
    K = P(k)
    wid = 'w%d' % k.id
    locs = []          # list of (cell, path)
    ind = {}           # loc -> (start, step)
    fixn = {}          # (loc, field path) -> invariant container length
    noopt = set()      # lengths known to vary
    noind = set()      # not induction variables
    if ex.chan is not None: chmark = ex.chan.mark()
    def loc_value(l, s=st0):
        v = s.mem[l[0]]
        for kk, a in l[1]: v = ex.sel(v, kk, a)
        return v
    for rnd in range(8):
        ex.st = st0.copy()
        ex.loopk = ex.loopk[:]
        if rnd == 0: ex.loopk.append(k)
        del fr.returns[nret:]; del ex.aborts[nab:]; del ex.obls[nob:]; del ex.races[nrace:]
        if ex.chan is not None: ex.chan.reset(chmark)
        ex.log = None
        ph = {}
        for j, l in enumerate(locs):
            v0 = loc_value(l)
            if l in ind:
                s0, step = ind[l]
                v = s0 + step * K if isinstance(s0, Poly) else s0.at(pos=s0.pos + step * K) if isinstance(s0, Stream) else s0.moved(step * K)
            else:
                v = fix_lengths(v0, shaped(v0, '%s_%d' % (wid, j)), l, fixn)
            ph[l] = v
            ex.st.mem[l[0]] = ex.upd(ex.st.mem[l[0]], l[1], v)
        ex.assume(le(0, K))
        c = evc()
        c = to_bool(c)
        if c is FALSE: raise Fail('loop condition false in arbitrary iteration')
        pcn0 = len(ex.st.pc)
        ex.assume(c)
        ex.log = []
        s_in = ex.st.copy()
        breaks = ex.iter_body(body, inc, pre)
        log = ex.log; ex.log = None
        # collect written locations
        newlocs = set(locs)
        bad = [k] + [a for a in ()]
        ivatoms = []
        for l in locs:
            if l not in ind:
                v = ph[l]
                for a in all_atoms(v):
                    if a.name.startswith(('ph:', 'phn:')): ivatoms.append(a)
        for cell, path in log:
            if cell not in base_cells: continue
            # truncate at the first index that varies
            i = path_dep(path, [k] + ivatoms)
            if i is None:
                # constant index into a vector: treat the container as the location
                for q, (kk, a) in enumerate(path):
                    if kk in ('i', 'map'):
                        i = q; break
                # keep full path if the index is loop invariant
                if i is not None and all(kk in ('f', 'i', 'bn') for kk, a in path): i = None
            p = path if i is None else path[:i]
            p = tuple(x for x in p if x[0] != 'bn')
            newlocs.add((cell, p))
        # minimal prefixes
        mins = [l for l in newlocs if not any(m != l and m[0] == l[0] and l[1][:len(m[1])] == m[1] for m in newlocs)]
        mins = sorted(mins, key=repr)
        # induction variables
        newind = {}
        if ex.st.alive:
            for l in mins:
                v1 = loc_value(l, ex.st); v0 = loc_value(l)
                if l in ind:      # confirm the guess for an arbitrary iteration
                    s0, step = ind[l]; a, b = _ipos(v1), _ipos(ph[l])
                    if a is not None and (a - b - step).is_zero(): newind[l] = ind[l]
                    else: noind.add(l)
                    continue
                if l in noind: continue
                base = ph[l] if l in ph else v0
                a, b = _ipos(v1), _ipos(base)
                if a is None or b is None or type(v1) is not type(base) or (isinstance(v1, Stream) and (v1.mode != 'r' or v1.b != base.b)): continue
                d = a - b
                if not d.is_zero() and (d.is_const() or isinstance(v1, Stream) and l in ph and not has_ph(d) and not occurs(k, d)): newind[l] = (v0, d)
        nf = dict(fixn)
        if ex.st.alive:
            for l in mins:
                if l in ph and l not in newind: same_lengths(loc_value(l), ph[l], loc_value(l, ex.st), l, nf, noopt)
                elif l not in ph: guess_lengths(loc_value(l), loc_value(l, ex.st), l, nf, noopt)
        conv = False
        if ex.st.alive:
            for l in mins:
                if l in ph and isinstance(loc_value(l), Bytes) and isinstance(loc_value(l, ex.st), Vec):   # byte string written element by element
                    st0.mem[l[0]] = ex.upd(st0.mem[l[0]], l[1], bytes_to_vec(loc_value(l))); conv = True
        if set(mins) == set(locs) and newind == ind and nf == fixn and not conv: break
        fixn = nf
        locs = mins; ind = newind
    else:
        raise Fail('written locations did not stabilise')
    # trip count from condition c
    N = trip(c, k, ex, st0)
    rets = fr.returns[nret:]; aborts = ex.aborts[nab:]
    del fr.returns[nret:]
    s1 = ex.st
    alive = s1.alive
    # early exits ----------------------------------------------------------
    def rel(s):  # condition of a state relative to the loop body entry
        return band(*[x for x in s.pc if x not in s_in.pc])
    exits = [rel(s) for s in breaks] + [rel(s) for v, s in rets]
    # aborts: assume they do not happen in any iteration
    post_assume = []
    if alive:
        extra = [x for x in s1.pc if x not in s_in.pc]
        ec = band(*extra)
        if exits:
            pass
        elif ec is not TRUE:
            if has_ph(ec): 
                ec = None
            else: post_assume.append(ball(N, k, ec))
    if exits and (breaks or rets):
        _search_exit(ex, n, k, N, c, locs, ind, ph, st0, s_in, s1, breaks, rets, rel, loc_value)
        ex.log = outer_log
        if ex.log is not None:
            for l in locs: ex.log.append(l)
        ex.loopk.pop()
        return
    if not alive:
        raise Fail('body never completes an iteration')
    # obligations raised inside the body hold for arbitrary k: keep as they are (pc mentions k)
    # closed forms ---------------------------------------------------------
    closed = {}      # placeholder atom -> Poly/other (value at start of iteration k)
    final = {}
    todo = [l for l in locs]
    results = {}
    env = dict(ind=ind, ph=ph, k=k, N=N, ex=ex)
    sub = {}         # atom -> term (in k)
    bsub = {}
    pend = []
    for l in todo:
        v0 = loc_value(l); v1 = loc_value(l, s1)
        if l in ind:
            s0, step = ind[l]
            if isinstance(s0, Poly): results[l] = s0 + step * N
            elif isinstance(s0, Stream): results[l] = s0.at(pos=s0.pos + step * N)
            else: results[l] = s0.moved(step * N)
            continue
        pend.append((l, v0, ph[l], v1))
    progress = True
    while pend and progress:
        progress = False
        rest = []
        for l, v0, h, v1 in pend:
            if sub or bsub: v1 = PhSubst(sub, bsub)(v1)
            try:
                fin, at_k = solve(ex, v0, h, v1, k, N, st0)
            except Fail as e:
                last = e
                rest.append((l, v0, h, v1)); continue
            results[l] = fin
            progress = True
            collect_closed(h, at_k, sub, bsub)
        pend = rest
    if pend:
        raise Fail('location %s%s: %s' % (pend[0][0][0], fmt_path(pend[0][0][1]), last))
    # obligations in the body mentioning placeholders: rewrite with closed forms
    if sub or bsub:
        S = PhSubst(sub, bsub)
        for q in range(nob, len(ex.obls)):
            nm, pcx, g, w = ex.obls[q]
            ex.obls[q] = (nm, tuple(S(x) for x in pcx), S(g), w)
    if ex.chan is not None: ex.chan.fold(chmark, k, N, PhSubst(sub, bsub) if (sub or bsub) else None)
    # final state
    st = st0.copy()
    ex.st = st
    ex.log = outer_log
    for l, v in results.items():
        ex.store(l, v)
    for cell in s1.mem:
        if cell not in st.mem and cell.startswith('glob:'): st.mem[cell] = s1.mem[cell]
    for a in post_assume:
        ex.assume(a)
    ex.loop_notes.append('%s: trip %r, invariant over %s' % (where(n), N, ', '.join(l[0] + fmt_path(l[1]) for l in locs) or '-'))
    # omp race check
    if ex.omp_nodes and ex.omp_nodes[-1] is n and getattr(ex, 'omp_check', True):
        for l, v0, h, v1 in [(l, loc_value(l), ph[l], loc_value(l, s1)) for l in locs if l not in ind]:
            if not race_free(h, v1, k):
                if not has_ph(v1): continue
                ex.races.append((where(n), l[0] + fmt_path(l[1])))
    ex.loopk.pop()

def fmt_path(p): return ''.join('.%s' % a if k == 'f' else '[%r]' % (a,) if k == 'i' else '' for k, a in p)

class PhSubst(Subst):
    """substitute placeholders (poly atoms, boolean atoms, element reads)"""
    def __init__(self, sub, bsub):
        Subst.__init__(self, {a: v for a, v in sub.items() if isinstance(a, App)})
        self.fn = {a: v for a, v in sub.items() if isinstance(a, str)}
        self.bsub = bsub
    def touches(self, x): return True
    def __call__(self, x):
        if isinstance(x, B) and x.op == 'app' and x in self.bsub: return self.bsub[x]
        if isinstance(x, B) and x.op == 'app' and x.args[0] in self.fn:
            return self.fn[x.args[0]](*[self(y) for y in x.args[1:]])
        return Subst.__call__(self, x)
    def app(self, a):
        if a in self.m: return self.m[a] if isinstance(self.m[a], Poly) else P(self.m[a])
        if a.name in self.fn:
            return self.fn[a.name](*[self(y) for y in a.args])
        if not a.args: return P(a)
        r = self.memo.get(a)
        if r is not None: return r
        if a.name == 'sum':
            i = fresh_atom('i')
            r = psum(self(a.args[0]), i, self(open_b(a.args[1], a.args[2], P(i))))
        elif a.name in ('P', 'c'): r = self(a.args[0])
        else: r = rebuild(a.name, [self(y) for y in a.args])
        self.memo[a] = r
        return r
    def rapp(self, a):
        if a.name in self.fn: return self.fn[a.name](*[self(y) for y in a.args])
        return Subst.rapp(self, a)
    def bseg(self, s):
        if s[0].name in self.fn: return self.fn[s[0].name](*[self(y) for y in s[0].args])
        return Subst.bseg(self, s)

def collect_closed(h, at_k, sub, bsub):
    if isinstance(h, Poly):
        a = h.atom()
        if a is not None: sub[a] = at_k
    elif isinstance(h, G):
        a = h.p.atom()
        if a is not None and isinstance(at_k, G): sub[a] = at_k.p
    elif isinstance(h, B): bsub[h] = at_k; bsub[bnot(h)] = bnot(at_k)
    elif isinstance(h, Ring2):
        sub[h.atom()] = at_k
    elif isinstance(h, Bytes):
        if len(h.segs) == 1 and isinstance(h.segs[0], tuple):
            sub[h.segs[0][0]] = at_k
            la = h.segs[0][1].atom()
            if la is not None: sub[la] = at_k.length()
    elif isinstance(h, Stream) and isinstance(at_k, Stream):
        collect_closed(h.b, at_k.b, sub, bsub) if h.mode == 'w' else collect_closed(h.pos, at_k.pos, sub, bsub)
    elif isinstance(h, Struct) and isinstance(at_k, Struct):
        for f, x in h.f.items(): collect_closed(x, at_k.f[f], sub, bsub)
    elif isinstance(h, Vec) and isinstance(at_k, Vec):
        a = h.n.atom()
        if a is not None and a.name.startswith('phn:'): sub[a] = at_k.n
        names = {}
        _leafnames(h.body, h.idx, (), names)
        for nm, path in names.items():
            sub[nm] = (lambda path: lambda *idx: _leaf(vget(at_k, idx[0]), path, idx[1:]))(path)

def _leafnames(v, idx, path, acc):
    if isinstance(v, Poly):
        a = v.atom()
        if a is not None and a.name.startswith('lr:'): acc[a.name] = path
    elif isinstance(v, G):
        a = v.p.atom()
        if a is not None and a.name.startswith('lr:'): acc[a.name] = path + ('G',)
    elif isinstance(v, B):
        if v.op == 'app' and str(v.args[0]).startswith('lr:'): acc[v.args[0]] = path
    elif isinstance(v, Ring2):
        a = v.atom()
        if a is not None and a.name.startswith('lr:'): acc[a.name] = path
    elif isinstance(v, Bytes):
        if len(v.segs) == 1 and isinstance(v.segs[0], tuple) and v.segs[0][0].name.startswith('lr:'):
            acc[v.segs[0][0].name] = path
            la = v.segs[0][1].atom()
            if la is not None: acc[la.name] = path + ('#len',)
    elif isinstance(v, Struct):
        for f, x in v.f.items(): _leafnames(x, idx, path + (f,), acc)
    elif isinstance(v, Vec): _leafnames(v.body, v.idx, path + ('#2',), acc)
def _leaf(v, path, more):
    for p in path:
        if p == '#2': v = vget(v, more[0])
        elif p == 'G': v = v.p
        elif p == '#len': v = v.length()
        else: v = v.f[p]
    return v

def guess_lengths(v0, v1, key, nf, noopt):
    """first guess (confirmed by the next rounds): a container the body leaves at its length keeps it"""
    if isinstance(v0, Struct) and isinstance(v1, Struct):
        for f in v0.f:
            if f in v1.f: guess_lengths(v0.f[f], v1.f[f], (key, f), nf, noopt)
    elif isinstance(v0, Vec) and isinstance(v1, Vec) and v0.n == v1.n and key not in noopt: nf[key] = v0.n
def same_lengths(v0, h, v1, key, nf, noopt=()):
    """containers whose length one iteration leaves unchanged: their length is an invariant (re-checked with the length fixed)"""
    if isinstance(h, Struct) and isinstance(v1, Struct) and isinstance(v0, Struct):
        for f in h.f:
            if f in v1.f and f in v0.f: same_lengths(v0.f[f], h.f[f], v1.f[f], (key, f), nf, noopt)
    elif isinstance(h, Vec) and isinstance(v1, Vec) and isinstance(v0, Vec):
        if h.n == v1.n:
            if key not in nf and key not in noopt: nf[key] = v0.n
        elif key in nf: del nf[key]; noopt.add(key)
def fix_lengths(v0, h, key, fixn):
    if isinstance(h, Struct) and isinstance(v0, Struct):
        return Struct(h.cls, {f: fix_lengths(v0.f[f], x, (key, f), fixn) for f, x in h.f.items()})
    if isinstance(h, Vec) and key in fixn: return Vec(fixn[key], h.idx, h.body, h.ups)
    return h

def trip(c, k, ex, st0):
    """number of iterations from the condition (le-form linear in k)"""
    cands = c.args if c.op == 'and' else (c,)
    Ns = []
    for x in cands:
        if not occurs(k, x):
            if has_ph(x): raise Fail('loop condition depends on loop-carried state: %r' % (x,))
            raise Fail('loop-invariant condition')
        if x.op == 'le':
            p = x.args[0]
        elif x.op == 'not' and x.args[0].op == 'eq':
            p = x.args[0].args[0]
        else: raise Fail('loop condition %r' % (x,))
        if has_ph(p): raise Fail('loop condition depends on loop-carried state: %r' % (p,))
        coef = p.t.get(((k, 1),), 0)
        r = p - Poly({((k, 1),): coef}) if coef else p
        if occurs(k, r) or coef == 0: raise Fail('loop condition not linear: %r' % (p,))
        if x.op == 'le':
            if coef < 0: raise Fail('non-terminating condition %r' % (p,))
            # coef*k + r <= 0  <=>  k <= floor(-r/coef)
            Ns.append(fdiv(-r, P(coef)) + 1)
        else:
            if abs(coef) != 1: raise Fail('!= condition with stride')
            Ns.append(-r if coef == 1 else r)
    if len(Ns) > 1: raise Fail('conjunctive loop condition')
    N = Ns[0]
    d = solver.decide_pc(st0.pc, le(0, N))
    if d is True: return N
    if d is False: return P(0)
    if c.op == 'not': raise Fail('!= loop bound not known to be reached')
    return ite(le(0, N), N, P(0))

def solve(ex, v0, h, v1, k, N, st0):
    """return (value after N iterations, value at start of iteration k)"""
    K = P(k)
    if v1 is h: return v0, v0
    try:
        if v1 == h: return v0, v0
    except Exception: pass
    if isinstance(h, Poly) and isinstance(v1, (Poly, B)):
        v1 = to_int(v1)
        return solve_poly(v0, h.atom(), v1, k, N, st0)
    if isinstance(h, G):
        if not isinstance(v1, G): raise Fail('type change')
        f, a = solve_poly(v0.p, h.p.atom(), v1.p, k, N, st0)
        return G(f), G(a)
    if isinstance(h, B):
        v1 = to_bool(v1)
        return solve_bool(v0, h, v1, k, N)
    if isinstance(h, Bytes):
        if not isinstance(v1, Bytes): raise Fail('bytes became %s' % type(v1).__name__)
        if v1.segs[:1] == h.segs and not has_ph(Bytes(v1.segs[1:])):
            e = Bytes(v1.segs[1:])
            i = fresh_atom('i')
            ei = subst(e, {k: P(i)})
            return v0 + brep(N, i, ei), v0 + brep(K, i, ei)
        if not has_ph(v1):
            return last_value(v0, v1, k, N)
        r = solve_splice(v0, h, v1, k, N)
        if r is not None: return r
        raise Fail('string recurrence: %s' % str(v1)[:300])
    if isinstance(h, Ring2):
        d = v1 ^ h
        if not has_ph(d):
            i = fresh_atom('i')
            di = subst(d, {k: P(i)})
            return v0 ^ xsum(N, i, di), v0 ^ xsum(K, i, di)
        if not has_ph(v1): return last_value(v0, v1, k, N)
        raise Fail('block recurrence')
    if isinstance(h, Stream) and isinstance(v1, Stream):
        if v1.at(b=h.b, pos=h.pos) != h: raise Fail('stream state changes')
        if h.mode == 'w':
            f, a = solve(ex, v0.b, h.b, v1.b, k, N, st0); return v0.at(b=f), v0.at(b=a)
        if h.mode == 'r' and v1.b == h.b:
            f, a = solve(ex, v0.pos, h.pos, v1.pos, k, N, st0); return v0.at(pos=f), v0.at(pos=a)
        raise Fail('stream recurrence')
    if isinstance(h, Struct):
        ff, fa = {}, {}
        for nme, x in h.f.items():
            ff[nme], fa[nme] = solve(ex, v0.f[nme], x, v1.f[nme], k, N, st0)
        return Struct(h.cls, ff), Struct(h.cls, fa)
    if isinstance(h, Vec):
        if isinstance(v1, Bytes): v1 = bytes_to_vec(v1)
        return solve_vec(ex, v0, h, v1, k, N, st0)
    if isinstance(h, SetV):
        if not (v1.items[:1] == h.items): raise Fail('set recurrence')
        items = v1.items[1:]
        if any(has_ph(tuple(it[1:])) for it in items): raise Fail('set contents depend on loop state')
        out = []; outk = []
        for it in items:
            if it[0] == 'e':
                i = fresh_atom('i')
                body = tuple(subst(x, {k: P(i)}) for x in it[1:])
                out.append(('c', N, i) + body)
                outk.append(('c', K, i) + body)
            else: raise Fail('nested set comprehension')
        return SetV(v0.kind, v0.items + tuple(out)), SetV(v0.kind, v0.items + tuple(outk))
    if v1 is UNDEF or v0 is UNDEF or isinstance(v1, Opaque):
        if not has_ph(v1): return last_value(v0, v1, k, N)
        if isinstance(v1, Opaque): return v1, v1
    if isinstance(v1, (Vec, Struct, Bytes, Poly, G)) and not has_ph(v1): return last_value(v0, v1, k, N)
    raise Fail('cannot summarise %s' % type(h).__name__)

def solve_splice(v0, h, v1, k, N):
    """iteration k overwrites the w bytes at a0 + k*w of a buffer and nothing else"""
    K = P(k); tot = h.length(); ha = Bytes(h.segs)
    def sub(s): return s[0] if isinstance(s, tuple) and s[0] != 'rep' and isinstance(s[0], App) and s[0].name == 'sub' and s[0].args[0] == h else None
    segs = list(v1.segs)
    a = sub(segs[0]) if segs else None
    if a is not None and P(a.args[1]).is_zero(): start = P(a.args[2]); segs = segs[1:]
    else: start = P(0)
    if not segs: return None
    b = sub(segs[-1])
    if b is not None: segs = segs[:-1]
    e = Bytes(tuple(segs))
    if has_ph(e) or has_ph(start): return None
    w = e.length()
    if occurs(k, w): return None
    a0 = subst(start, {k: P(0)})
    if not (start - a0 - w * K).is_zero(): return None
    if b is not None:
        if not (P(b.args[1]) - start - w).is_zero() or not (P(b.args[2]) - (tot - start - w)).is_zero(): return None
    elif not (tot - start - w).is_zero(): return None
    i = fresh_atom('i'); ei = subst(e, {k: P(i)})
    n0 = v0.length()
    def at(M): return bslice(v0, P(0), a0) + brep(M, i, ei) + bslice(v0, a0 + w * M, n0 - a0 - w * M)
    return at(N), at(K)

def last_value(v0, v1, k, N):
    K = P(k)
    vN = subst(v1, {k: N - 1})
    vk = subst(v1, {k: K - 1})
    if v0 is UNDEF: return vN, vk
    try:
        if decide(lt(0, N)) is True: return vN, vite(le(K, 0), v0, vk)
        return vite(le(N, 0), v0, vN), vite(le(K, 0), v0, vk)
    except MergeFail:
        return vN, vk

def xsum(n, idx, r):
    """xor over idx<n of ring element r"""
    n = P(n)
    if n.is_const():
        x = R0
        for q in range(max(0, n.const())): x = x ^ subst(r, {idx: P(q)})
        return x
    if not occurs(idx, r): 
        return R(app('xmul', n, r))
    out = R0
    for mon in r.t:
        dep = [a for a in mon if occurs(idx, a)]; free = frozenset(a for a in mon if not occurs(idx, a))
        bb, d = close(Ring2([frozenset(dep)]), idx)
        out = out ^ (Ring2([free]) & R(app('xsum', n, bb, d)))
    return out
def _rb_xsum(n, bb, d):
    i = fresh_atom('i')
    return xsum(n, i, open_b(bb, d, P(i)))
RREBUILD['xsum'] = _rb_xsum

def solve_poly(v0, h, v1, k, N, st0):
    K = P(k)
    d = v1 - P(h)
    if not has_ph(d):
        i = fresh_atom('i')
        di = subst(d, {k: P(i)})
        return v0 + psum(N, i, di), v0 + psum(K, i, di)
    if not has_ph(v1): return last_value(v0, v1, k, N)
    a = v1.atom()
    if a is not None and a.name == 'mod' and not has_ph(a.args[1]) and not occurs(k, a.args[1]):
        m = a.args[1]
        inner = a.args[0]
        f, g = solve_poly(v0, h, inner, k, N, st0)
        # closed form is mod m for k>=1; start value equal mod m, exact if already reduced
        def red(x): return mod(x, m)
        if mod(v0, m) == v0: return red(f), red(g)
        return vite(le(N, 0), v0, red(f)), vite(le(K, 0), v0, red(g))
    # linear recurrence h*c (+ e)
    lin = P(0); rest = P(0)
    for mon, c in v1.t.items():
        if (h, 1) in mon:
            lin = lin + Poly({tuple(x for x in mon if x[0] is not h): c})
        else: rest = rest + Poly({mon: c})
    if has_ph(lin) or has_ph(rest): raise Fail('recurrence %r' % (v1,))
    if rest.is_zero():
        if not occurs(k, lin): return v0 * ppow(lin, N), v0 * ppow(lin, K)
        i = fresh_atom('i')
        return v0 * pprod(N, i, subst(lin, {k: P(i)})), v0 * pprod(K, i, subst(lin, {k: P(i)}))
    # conditional ite(c, h + e, h)
    raise Fail('recurrence %r' % (v1,))
def pprod(n, idx, body):
    n = P(n)
    if n.is_const():
        r = P(1)
        for q in range(max(0, n.const())): r = r * subst(body, {idx: P(q)})
        return r
    bb, d = close(body, idx)
    return P(app('prod', n, bb, d))
REBUILD['prod'] = lambda n, bb, d: (lambda i: pprod(n, i, open_b(bb, d, P(i))))(fresh_atom('i'))

def solve_bool(v0, h, v1, k, N):
    K = P(k)
    if not has_ph(v1): return last_value(v0, v1, k, N)
    # v1 = h and e ?
    t = _bsub(v1, h, TRUE); f = _bsub(v1, h, FALSE)
    if not has_ph(t) and not has_ph(f):
        i = fresh_atom('i')
        if f is FALSE:
            e = subst(t, {k: P(i)})
            return band(v0, ball(N, i, e)), band(v0, ball(K, i, e))
        if t is TRUE:
            e = subst(f, {k: P(i)})
            return bor(v0, bex(N, i, e)), bor(v0, bex(K, i, e))
    raise Fail('boolean recurrence')
def _bsub(x, h, v):
    return PhSubst({}, {h: v, bnot(h): bnot(v)})(x)

def solve_vec(ex, v0, h, v1, k, N, st0):
    K = P(k)
    if isinstance(v0, Bytes): v0 = bytes_to_vec(v0)
    if not isinstance(v1, Vec): raise Fail('vector became %s' % type(v1).__name__)
    same_base = v1.idx is h.idx and v1.body is h.body or (v1.idx is not None and subst(v1.body, {v1.idx: P(h.idx)}) == h.body)
    if not has_ph(v1) and not (v1.idx is h.idx and v1.body is h.body): return last_value(v0, v1, k, N)
    if not same_base: raise Fail('vector rebuilt in loop')
    # conditional append
    if v1.n != h.n and v0.n.is_zero() and len(v1.ups) == 1 and v1.ups[0][0] == 'p' and v1.ups[0][1] == h.n:
        da = (v1.n - h.n).atom() if len((v1.n - h.n).t) == 1 else None
        va = v1.n.atom(); c = None
        if da is not None and da.name == 'ite' and (da.args[1], da.args[2]) in ((P(1), P(0)), (P(0), P(1))): c = da.args[0] if da.args[1] == P(1) else bnot(da.args[0])
        elif va is not None and va.name == 'ite' and va.args[1] == h.n + 1 and va.args[2] == h.n: c = va.args[0]
        elif va is not None and va.name == 'ite' and va.args[2] == h.n + 1 and va.args[1] == h.n: c = bnot(va.args[0])
        if c is not None:
            x = solver.AssumeB(c, True)(v1.ups[0][2])
            if has_ph(c) or has_ph(x): raise Fail('conditional append depends on loop-carried state')
            i = fresh_atom('i')
            return tuple(Filt(M, i, subst(c, {k: P(i)}), subst(x, {k: P(i)})) for M in (N, K))
    # length
    phn = h.n.atom()
    if phn is None or not phn.name.startswith('phn:'):
        if v1.n != h.n: raise Fail('container length is not invariant')
        phn = app('phn:none')
    if v1.n == h.n: nN = nK = v0.n; subn = v0.n
    else:
        nN, nK = solve_poly(v0.n, phn, v1.n, k, N, st0)
    sub = {phn: nK if v1.n != h.n else v0.n} if phn is not None else {}
    names = {}
    _leafnames(h.body, h.idx, (), names)
    ups = [tuple(PhSubst(sub, {})(y) if not isinstance(y, str) else y for y in u) for u in v1.ups]
    if not ups: 
        return Vec(nN, v0.idx, v0.body, v0.ups), Vec(nK, v0.idx, v0.body, v0.ups)
    if any(u[0] != 'p' for u in ups): return solve_vec_range(ex, v0, h, ups, names, k, N, nN, nK)
    # every update at affine index coef*k + off
    aff = []
    for u in ups:
        idx = u[1]
        coef = idx.t.get(((k, 1),), 0)
        off = idx - Poly({((k, 1),): coef}) if coef else idx
        if occurs(k, off) or has_ph(idx):
            return solve_vec_scatter(ex, v0, h, ups, names, k, N, nN, nK)
        aff.append((coef, off, u[2]))
    coefs = set(a[0] for a in aff)
    if coefs == {0}:
        # same location each iteration: element-wise recurrence
        r, rk = v0, v0
        for coef, off, val in aff:
            hv = subst(h.body, {h.idx: off})
            f, g = solve(ex, vget(v0, off), hv_atomise(hv), hv_replace(val, hv), k, N, st0) if has_ph(val) else last_value(vget(v0, off), val, k, N)
            r = vset(r, off, f); rk = vset(rk, off, g)
        return r, rk
    if len(coefs) != 1: raise Fail('mixed strides')
    c = coefs.pop()
    if c == 0: raise Fail('mixed')
    # reads of the placeholder at index j: resolve
    wr = [(off, val) for _, off, val in aff]
    S = ReadResolver(ex, v0, h, names, k, c, [off for off, _ in wr])
    vals = []
    try:
        for off, val in wr: vals.append((off, S(val) if has_ph(val) else val))
    except Recurrence as e:
        return solve_vec_recur(ex, v0, h, wr, names, k, N, nN, nK, c)
    if abs(c) != 1 and len(vals) < abs(c) or (abs(c) == 1 and len(vals) > 1):
        pass
    def build(M, n):
        if len(vals) == 1 and c == 1:
            off, val = vals[0]
            i = fresh_atom('i')
            return vrange(Vec(n, v0.idx, v0.body, v0.ups), off, M, i, subst(val, {k: P(i)}))
        if len(vals) == 1 and c == -1:
            off, val = vals[0]
            i = fresh_atom('i')
            # index off - k: start = off-(M-1)
            return vrange(Vec(n, v0.idx, v0.body, v0.ups), off - M + 1, M, i, subst(val, {k: M - 1 - P(i)}))
        if c > 1:
            offs = [o for o, _ in vals]
            base = offs[0]
            ds = [(o - base) for o in offs]
            if all(d.is_const() and 0 <= d.const() < c for d in ds) and len(set(d.const() for d in ds)) == len(ds):
                i = fresh_atom('i')
                u = uniform([(x, d.const()) for (o, x), d in zip(vals, ds)], k, c, i) if len(ds) == c else None
                if u is not None: return vrange(Vec(n, v0.idx, v0.body, v0.ups), base, M * c, i, u)
                resid = mod(P(i), P(c)); quo = fdiv(P(i), P(c))
                old = vget(v0, base + P(i))
                val = old
                for (o, x), d in zip(vals, ds):
                    val = vite(eq(resid, d), subst(x, {k: quo}), val)
                return vrange(Vec(n, v0.idx, v0.body, v0.ups), base, M * c, i, val)
        raise Fail('vector write pattern')
    # several writes with unit stride: only allowed if the same index twice etc. -> reject
    return build(N, nN), build(K, nK)

def uniform(xs, k, c, i):
    """the elements written at c*k+d (all residues d) are one function of the index c*k+d: that function of i, or None"""
    r = None
    for x, d in xs:
        try: e = Strided(k, c, d, i)(x)
        except Fail: return None
        if r is not None and e != r: return None
        r = e
    return r
class Strided(Subst):
    """c*k + d is called i; fails when k occurs otherwise"""
    def __init__(self, k, c, d, i):
        Subst.__init__(self, {k: P(k)}); self.k = k; self.c = c; self.v = P(i) - d
    def __call__(self, x):
        if isinstance(x, Poly):
            if not self.touches(x): return x
            r = P(0)
            for mon, co in x.t.items():
                e = [y for y in mon if y[0] is self.k]
                if not e: r = r + Subst.__call__(self, Poly({mon: co})); continue
                if e[0][1] != 1 or not isinstance(co, int) or co % self.c: raise Fail('not a function of the position')
                r = r + Subst.__call__(self, Poly({tuple(y for y in mon if y[0] is not self.k): co // self.c})) * self.v
            return r
        return Subst.__call__(self, x)
    def app(self, a):
        if a is self.k: raise Fail('not a function of the position')
        return Subst.app(self, a)
def hv_atomise(hv): return hv
def hv_replace(val, hv): return val

class Recurrence(Exception): pass

class ReadResolver(Subst):
    """reads of the loop-carried vector at index j inside iteration k (writes go to c*k+off)"""
    def __init__(self, ex, v0, h, names, k, c, offs):
        Subst.__init__(self, {})
        self.ex = ex; self.v0 = v0; self.names = names; self.k = k; self.c = c; self.offs = offs
    def touches(self, x): return True
    def resolve(self, nm, idx):
        j = idx[0]
        kk = fresh_atom('kk')
        pc = self.ex.st.pc + (le(0, P(kk)), lt(P(kk), P(self.k)))
        for off in self.offs:
            g = bnot(eq(j, P(kk) * self.c + off))
            if g is TRUE: continue
            if solver.check(pc, g) is not True: raise Recurrence()
        return _leaf(vget(self.v0, j), self.names[nm], idx[1:])
    def __call__(self, x):
        if isinstance(x, B) and x.op == 'app' and x.args[0] in self.names:
            return self.resolve(x.args[0], [self(y) for y in x.args[1:]])
        return Subst.__call__(self, x)
    def app(self, a):
        if a.name in self.names: return self.resolve(a.name, [self(y) for y in a.args])
        if not a.args: return P(a)
        r = self.memo.get(a)
        if r is not None: return r
        if a.name == 'sum':
            i = fresh_atom('i')
            r = psum(self(a.args[0]), i, self(open_b(a.args[1], a.args[2], P(i))))
        elif a.name in ('P', 'c'): r = self(a.args[0])
        else: r = rebuild(a.name, [self(y) for y in a.args])
        self.memo[a] = r
        return r
    def rapp(self, a):
        if a.name in self.names: return self.resolve(a.name, [self(y) for y in a.args])
        return Subst.rapp(self, a)
    def bseg(self, s):
        if s[0].name in self.names: return self.resolve(s[0].name, [self(y) for y in s[0].args])
        return Subst.bseg(self, s)

def solve_vec_recur(ex, v0, h, wr, names, k, N, nN, nK, c):
    """v[k+off] = f(v[k+off-1]) with f linear homogeneous: geometric closed form"""
    if len(wr) != 1 or c != 1: raise Fail('vector recurrence')
    off, val = wr[0]
    K = P(k)
    isG = isinstance(val, G)
    x = val.p if isG else val
    if not isinstance(x, Poly): raise Fail('vector recurrence on %s' % type(val).__name__)
    m = None
    a = x.atom()
    if a is not None and a.name == 'mod' and not has_ph(a.args[1]): m = a.args[1]; x = a.args[0]
    prev = K + off - 1
    lr = None
    for at in all_atoms(x):
        if at.name in names and at.args[0] == prev: lr = at
    if lr is None: raise Fail('vector recurrence (distance)')
    lin = P(0); rest = P(0)
    for mon, cc in x.t.items():
        if (lr, 1) in mon: lin = lin + Poly({tuple(t for t in mon if t[0] is not lr): cc})
        else: rest = rest + Poly({mon: cc})
    if has_ph(lin) or has_ph(rest) or not rest.is_zero() or occurs(k, lin): raise Fail('vector recurrence (shape)')
    start = vget(v0, off - 1)
    start = start.p if isG else start
    def build(M, n):
        i = fresh_atom('i')
        e = start * ppow(lin, P(i) + 1)
        if m is not None: e = mod(e, m)
        return vrange(Vec(n, v0.idx, v0.body, v0.ups), off, M, i, G(e) if isG else e)
    return build(N, nN), build(K, nK)

def solve_vec_range(ex, v0, h, ups, names, k, N, nN, nK):
    """iteration k writes exactly the w elements from a0 + k*w on (rows of a matrix)"""
    if len(ups) != 1: raise Fail('several range updates in loop')
    _, start, w, idx, val = ups[0]
    if isinstance(idx, Poly): idx = idx.atom()
    K = P(k)
    if occurs(k, w) or has_ph(start) or has_ph(w): raise Fail('range update in loop')
    a0 = subst(start, {k: P(0)})
    if not (start - a0 - w * K).is_zero(): raise Fail('range update in loop: start %r, length %r' % (start, w))
    if has_ph(val):
        S = RowResolver(v0, names, start, idx); val = S(val)
        if has_ph(val): raise Fail('range update in loop reads other rows')
    def build(M, n):
        i = fresh_atom('i')
        q, r = fdiv(P(i), w), mod(P(i), w)
        return vrange(Vec(n, v0.idx, v0.body, v0.ups), a0, M * w, i, subst(val, {k: q, idx: r}))
    return build(N, nN), build(K, nK)
class RowResolver(PhSubst):
    """reads of the loop-carried vector at the element being written: earlier iterations wrote other rows"""
    def __init__(self, v0, names, start, idx):
        def rd(nm):
            def f(*j):
                if not (j[0] - start - P(idx)).is_zero(): raise Fail('range update reads another element')
                return _leaf(vget(v0, j[0]), names[nm], j[1:])
            return f
        PhSubst.__init__(self, {nm: rd(nm) for nm in names}, {})

def invert(e, k, N, j):
    """the k in [0,N) with e(k) = j, for e a permutation of [0,N) built from known permutations; None if not of that form"""
    from externals import perm, pinv
    if e == P(k): return j
    a = e.atom()
    if a is not None and a.name == 'perm' and a.args[1] == N: return invert(a.args[2], k, N, pinv(a.args[0], N, j))
    if a is not None and a.name == 'pinv' and a.args[1] == N: return invert(a.args[2], k, N, perm(a.args[0], N, j))
    # e = A(k div c)*c + B(k mod c)
    for m in e.t:
        for x, _ in m:
            for y in ([x] if x.name in ('div', 'mod') else [z for w in x.args if isinstance(w, Poly) and w.atom() for z in [w.atom()] if z.name in ('div', 'mod')]):
                if y.args[0] != P(k): continue
                c = y.args[1]; q, r = fdiv(P(k), c), mod(P(k), c)
                rows = [n for n in {z.args[1] for z in all_atoms(e) if z.name in ('perm', 'pinv')} if n * c == N]
                if not rows: continue
                qa, ra = fresh_atom('q'), fresh_atom('r')
                f = subst(e, {q.atom(): P(qa), r.atom(): P(ra)})
                if occurs(k, f): continue
                A = Poly({mm: v for mm, v in f.t.items() if occurs(qa, Poly({mm: v}))}); B_ = f - A
                if occurs(ra, A): continue
                ca = fresh_atom('c'); A1 = [Poly({tuple(z for z in mm if P(z[0]) != c): v}) for mm, v in A.t.items()]
                A1 = sum(A1, P(0)) if all(len(x.t) == 1 for x in A1) else None
                if A1 is None or not (A1 * c - A).is_zero(): continue
                iq, ir = invert(A1, qa, rows[0], fdiv(j, c)), invert(B_, ra, c, mod(j, c))
                if iq is None or ir is None: continue
                return iq * c + ir
    return None
def solve_vec_scatter(ex, v0, h, ups, names, k, N, nN, nK):
    """v[f(k)] = e(k) for f a permutation of the whole index range"""
    if len(ups) == 1 and not has_ph(ups[0][2]) and not has_ph(ups[0][1]) and nN == nK:
        i = fresh_atom('i'); inv = invert(ups[0][1], k, N, P(i))
        if inv is not None:
            x = subst(ups[0][2], {k: inv})
            V = Vec(nN, v0.idx, v0.body, v0.ups)
            return vrange(V, P(0), N, i, x), vrange(V, P(0), N, i, vite(lt(inv, P(k)), x, vget(v0, P(i))))
    raise Fail('scattered vector writes %s' % str([u[1] for u in ups])[:300])

def _search_exit(ex, n, k, N, c, locs, ind, ph, st0, s_in, s1, breaks, rets, rel, loc_value):
    """loops that may leave early: the exit condition must not depend on loop-carried state."""
    K = P(k)
    conds = []
    for s in breaks: conds.append((rel(s), None, s, 'break'))
    for v, s in rets: conds.append((rel(s), v, s, 'ret'))
    for cnd, v, s, kind in conds:
        if has_ph(cnd): raise Fail('early exit depends on loop-carried state')
    # modified locations other than induction variables must be unchanged on both the exit and the normal path
    for l in locs:
        if l in ind: continue
        h = ph[l]
        if s1.alive and not (loc_value(l, s1) == h): raise Fail('early exit with loop-carried updates')
    anyexit = bor(*[x[0] for x in conds])
    i = fresh_atom('i')
    exq = bex(N, i, subst(anyexit, {k: P(i)}))
    base = st0.copy()
    fr = ex.frames[-1]
    outs = []
    # exits: exit values must not depend on k
    if len(conds) != 1: raise Fail('several early exits')
    cnd, v, s, kind = conds[0]
    changed = {}
    for l in locs:
        if l in ind: 
            if kind == 'break': raise Fail('break leaving the index live') if _live(ex, l) else None
            continue
        x = loc_value(l, s)
        h = ph[l]
        if x == h: continue
        if has_ph(x) or occurs(k, x): raise Fail('exit value depends on iteration')
        changed[l] = x
    if v is not None and (has_ph(v) or occurs(k, v)): raise Fail('returned value depends on iteration')
    ex.st = base
    se = base.copy(); ex.st = se
    ex.assume(exq)
    for l, x in changed.items(): ex.store(l, x)
    se = ex.st
    sn = base.copy(); ex.st = sn
    ex.assume(bnot(exq))
    for l in locs:
        if l in ind:
            s0, step = ind[l]
            ex.store(l, s0 + step * N if isinstance(s0, Poly) else s0.moved(step * N))
    sn = ex.st
    ex.loop_notes.append('%s: search loop, trip <= %r' % (where(n), N))
    if kind == 'ret':
        if se.alive and FALSE not in se.pc: fr.returns.append((v, se))
        ex.st = sn
        if FALSE in sn.pc: sn.alive = False
    else:
        ex.st = ex.merge(exq, se, sn, st0)
        for l in locs:
            if l in ind and False: pass
def _live(ex, l): return False

def race_free(h, v1, k=None):
    """parallel iterations are independent iff the only effect on shared h is a write at an index owned by k"""
    if isinstance(h, Vec) and isinstance(v1, Vec):
        return v1.n == h.n
    if isinstance(h, Struct) and isinstance(v1, Struct):
        return all(race_free(h.f[f], v1.f[f], k) for f in h.f)
    if k is not None and isinstance(h, Bytes) and isinstance(v1, Bytes) and h.segs:
        try:
            if solve_splice(h, h, v1, k, P(k)) is not None: return True      # each iteration owns its own slice
        except Exception: pass
    try:
        return h == v1
    except Exception: return False

def check_omp(ex, n, fs):
    ex.extra.setdefault('omp_loops', []).append(where(fs))
