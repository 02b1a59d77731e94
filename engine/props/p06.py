from props.common import *
from props.p16 import With, loop_vars
from props.p05 import exponent_of
from duo import mentions, is_app
import terms, externals
HARNESS = ['p06.cpp', 'p06b.cpp']
INC = ['crypto/setup.hpp', 'pke/calculate_dlog.hpp']
def prog(u=()): return program(INC, '', undef=u)
PRELOAD = [prog]
ASSUMPTIONS = ['the 64-bit table keys of the points met by a search are distinct', 'the number of baby steps and of giant steps are multiples of the number of build and search tasks (CheckDlogParameters: powers of two that are at least as large)', 'all exponents lie below the group order']
def key(ex, c): return P(app('key', c.me().p))
K = {'ECPoint::ToUint64': key}
class Conf:
    """symbolic configuration: any numbers of build/search tasks M, S; babysteps M*b, giantsteps S*d"""
    def __init__(s, task, u=()):
        s.r = r = Run(task, prog(u)); r.ex.unroll = 8
        s.M, s.S, s.b, s.d = (P(app('cfg' + x)) for x in ('M', 'S', 'b', 'd')); s.B = s.M * s.b; s.N = s.S * s.d
        s.L, s.T = r.sym('unsigned long', 'L'), r.sym('unsigned long', 'T')
        for x in (s.M, s.S, s.b, s.d): r.assume(le(1, x))
        r.ex.global_over = dict(r.ex.global_over, BUILD_TASK_NUM=s.M, SEARCH_TASK_NUM=s.S)
        s.g = r.sym('ECPoint', 'g')
    def __enter__(s):
        h = fdiv(s.L, P(2)); s.p0 = externals.pow2; s.d0 = terms.SPLITDIV[0]
        def pow2(e):
            e = P(e)
            if (e - h - s.T).is_zero(): return s.B
            if (e - s.L + h + s.T).is_zero(): return s.N
            return s.p0(e)
        def split(p, m):
            a = m.atom() if hasattr(m, 'atom') else None
            if a is None: return s.d0(p, m) if s.d0 else None
            q = p * ppow(m, -1)
            return s.d0(p, m) if occurs(a, q) and s.d0 else None if occurs(a, q) else (q, P(0))
        externals.pow2 = pow2; terms.SPLITDIV[0] = split; s.w = With(K); s.w.__enter__(); return s
    def __exit__(s, *a): externals.pow2 = s.p0; terms.SPLITDIV[0] = s.d0; s.w.__exit__(*a)
def globals_of(r): return {k: v for k, v in r.ex.st.mem.items() if k.startswith('glob:')}
def build(u):
    def f(task, ctx):
        s = Conf(task, u); r = s.r; fn = r.sym('std::string', 'fn'); g = s.g.p
        with s:
            # whatever table was loaded before
            z = r.ex.default('BigInt', True)
            r.call('BuildSaveTable', r.cell(s.g), s.L, s.T, r.cell(fn))
            G0 = globals_of(r)
            r.prove_eq('the giant step is -B*g', G0['glob:giantstep'].p, -g * s.B)
            anchors(task, r, s, 'built', G0['glob:vec_searchanchor'])
            r.no_race('no two iterations of a parallel loop write the same location')
            tab = r.ex.st.mem['file:%s' % (fn,)]; i = P(fresh_atom('i')); r.assume(band(le(0, i), lt(i, s.B)))
            r.prove_eq('baby-step entry i of the saved table is the key of i*g', bslice(tab, i * 8, P(8)), seg(app('le', P(app('key', g * i)), P(8)), P(8)))
            r.no_abort('building never aborts')
            # a table loaded before leaves traces in the globals
            j = fresh_atom('o'); old = SetV('map', (('c', P(app('oldn')), j, TRUE, P(app('oldkey', P(j))), P(app('oldval', P(j)))),))
            mc = [c for c in r.ex.st.mem if c == 'glob:encoding2index_map']
            r.ex.global_over['encoding2index_map'] = old
            if mc: r.ex.st.mem[mc[0]] = old
            r.ex.st.mem['glob:giantstep'] = r.sym('ECPoint', 'oldstep'); r.ex.st.mem['glob:vec_searchanchor'] = r.sym('std::vector<ECPoint>', 'oldanchors')
            r.call('LoadTable', r.cell(fn), s.L, s.T)
            G1 = globals_of(r); r.no_abort('loading a table that was just saved never aborts'); r.no_race('no race while loading')
            r.assume(nonzero(g * s.B)); r.prove_eq('the giant step is restored', G1['glob:giantstep'].p, -g * s.B)
            anchors(task, r, s, 'restored', G1['glob:vec_searchanchor'])
            m = G1['glob:encoding2index_map']; it = m.items
            ok = len(it) == 1 and it[0][0] == 'c'
            task.result('the map holds the entries of this table and nothing else', ok or None if not any(mentions(x, lambda y: is_app(y, 'oldkey')) for x in it) else False, str(m)[:300])
            if ok:
                _, n, a, c, k, v = it[0]
                r.prove('one entry per baby step', eq(n, s.B)); z = P(fresh_atom('z')); r.assume(band(le(0, z), lt(z, s.B)))
                r.prove('every baby step is entered', subst(c, {a: z})); r.prove_eq('entry i has the key of i*g', subst(k, {a: z}), P(app('key', g * z))); r.prove_eq('entry i holds i', subst(v, {a: z}), z)
        r.finish()
    return f
def nonzero(p): return bnot(X.val_eq(G(p), G(P(0))))
def anchors(task, r, s, what, v):
    r.prove('one anchor per search task (%s)' % what, eq(v.n, s.S)); j = P(fresh_atom('j')); r.assume(band(le(0, j), lt(j, s.S)))
    if what == 'restored': r.assume(nonzero(s.g.p * s.B * s.d * j))
    r.prove_eq('anchor j is -(j*d*B)*g (%s)' % what, vget(v, j).p, -s.g.p * s.B * s.d * j)
def dmap(s):
    """content of the loaded map (proved by the build task): the key of y*g is found exactly for 0 <= y < B and leads to y"""
    def y(k):
        a = P(k).atom()
        if a is None or a.name != 'key': raise Unsupported('lookup of something that is not the key of a point')
        q = exponent_of(a.args[0], s.g.p)
        if q is None: return P(app('logof', a.args[0]))
        return q
    return SetV('map', (('abs', s.B, lambda k: band(le(0, y(k)), lt(y(k), s.B)), y),))
def search(task, ctx):
    s = Conf(task); r = s.r; g = s.g.p; j, x = P(app('cfgj')), P(app('cfgx')); r.assume(band(le(0, j), lt(j, s.S), le(0, x), lt(x, s.B * s.N)))
    ex = r.ex; i = fresh_atom('i')
    ex.global_over.update(giantstep=G(-g * s.B), vec_searchanchor=Vec(s.S, i, G(-g * s.B * s.d * P(i))), encoding2index_map=dmap(s))
    bi, gi, find = r.cell(P(app('b0'))), r.cell(P(app('g0'))), r.cell(B_sym(r, 'F'))
    seen = []
    def rule(ex, n, evc, inc, body, pre):
        if seen: return False
        seen.append(1); st0 = ex.st.copy(); k = fresh_atom('k'); KK = P(k); fr = ex.frames[-1]; nr = len(fr.returns)
        def once(st):
            ex.st = st.copy(); c = to_bool(evc()); ex.assume(c); s_in = ex.st.copy(); br = ex.iter_body(body, inc, pre); rets = fr.returns[nr:]; del fr.returns[nr:]; return c, br, rets, ex.st
        c, br, rets, s1 = once(st0)
        # candidate invariant: what one iteration adds, it adds every time
        def cand(kk):
            st = st0.copy()
            for cell in st0.mem:
                a, b = st0.mem[cell], s1.mem.get(cell)
                if a == b or cell == find[0]: continue
                if isinstance(a, G): st.mem[cell] = G(a.p + (b.p - a.p) * kk)
                elif isinstance(a, Poly) and (b - a).is_const(): st.mem[cell] = a + (b - a) * kk
                elif isinstance(a, Poly): st.mem[cell] = P(app('any:' + cell, kk))
            return st
        ck = cand(KK); ck.pc = ck.pc + (le(0, KK),)
        c, br, rets, s2 = once(ck); want = cand(KK + 1); y = x - s.B * (j * s.d + KK); hit = band(le(0, y), lt(y, s.B))
        for cell in st0.mem:
            if st0.mem[cell] != s1.mem.get(cell) and isinstance(want.mem[cell], (G, Poly)) and not str(want.mem[cell]).startswith('any:'): task.prove('loop invariant is kept (%s)' % cell.split('#')[0], s2.pc, X.val_eq(s2.mem[cell], want.mem[cell]))
        task.prove('the loop runs over the giant steps of the slice', (le(0, KK),) + st0.pc, X.val_eq(c, lt(KK, s.d)) if False else band(bor(bnot(c), lt(KK, s.d)), bor(c, le(s.d, KK))))
        task.prove('a giant step that hits is not passed over', s2.pc, bnot(hit))
        for b in br: task.prove('the search is given up only when another task has succeeded', b.pc, to_bool(ex_load(ex, b, find)))
        for v, b in rets:
            task.prove('success is reported', b.pc, to_bool(v)); task.prove('success is reported only on a hit', b.pc, hit)
            task.prove('the baby-step index is right', b.pc, eq(ex_load(ex, b, bi), y)); task.prove('the giant-step index is right', b.pc, eq(ex_load(ex, b, gi), KK))
        task.result('the loop returns at a hit', bool(rets) or None, '')
        ex.st = cand(P(app('exit'))); ex.st.alive = True; return True
    ex.loop_rule = rule
    with s:
        res = r.call('SearchSlicedRange', j, r.cell(G(g * x)), r.cell(s.d), bi, gi, find)
        r.prove('no success is reported when all giant steps are passed', bnot(to_bool(res))) if seen else None
        r.no_abort('no abort')
    task.result('one search loop', len(seen) == 1 or None, '')
    r.finish()
def shanks(task, ctx):
    s = Conf(task); r = s.r; g = s.g.p; q, kk, y = P(app('cfgq')), P(app('cfgk')), P(app('cfgy')); ex = r.ex
    # every exponent of the range is (q*d + k)*B + y for one slice q, giant step k and baby step y (Euclidean division)
    x = (q * s.d + kk) * s.B + y; r.assume(band(le(0, q), lt(q, s.S), le(0, kk), lt(kk, s.d), le(0, y), lt(y, s.B)))
    ex.global_over.update(encoding2index_map=dmap(s))
    xv = r.cell(P(app('x0'))); F, other = r.sym('bool', 'F'), r.sym('bool', 'other'); calls = []; inbody = [False]; seen = []
    def contract(ex, c):
        """SearchSlicedRange (discharged by the search task): with a hit in slice i it reports it, unless it gives up because another task succeeded"""
        i = P(c.val(0)); calls.append((ex.st.pc, eq(P(c.val(2)), s.d), X.val_eq(c.val(1), G(g * x)), band(le(0, i), lt(i, s.S)), bnot(to_bool(c.val(5)))))
        hit = band(eq(i, q), bnot(to_bool(other))); t = P(app('t', i))
        ex.store(c.lv(3), ite(hit, y, P(app('bx', i)))); ex.store(c.lv(4), ite(hit, kk, P(app('gx', i))))
        return hit
    def rule(ex, n, evc, inc, body, pre):
        if seen: return False
        seen.append(1); calls.clear(); st0 = ex.st.copy(); k = fresh_atom('k'); KK = P(k); var = None
        for cand in loop_vars(ex, n, inc):
            if ex.load(cand) == P(0): var = cand
        fc = [c for c in st0.mem if c.startswith('FIND') or st0.mem[c] is FALSE and not c.startswith('glob')]
        if var is None or len(fc) != 1: seen.clear(); return False
        fl = (fc[0], ()); st = st0.copy(); ex.st = st; ex.store(var, KK); ex.store(fl, F); ex.assume(le(0, KK)); ex.assume(to_bool(evc())); br = ex.iter_body(body, inc, pre)
        st1 = ex.st; task.prove('the loop advances by one', st1.pc, eq(ex.load(var), KK + 1))
        tf, tx = to_bool(ex.load(fl)), ex.load(xv); win = band(bnot(to_bool(F)), eq(KK, q), bnot(to_bool(other)))
        task.prove('the flag is raised exactly by the task that finds the exponent, and never lowered', st1.pc, band(bor(bnot(tf), to_bool(F), win), bor(tf, bnot(win)), bor(tf, bnot(to_bool(F)))))
        task.prove('the exponent is set by the task that finds it', st1.pc + (win,), eq(tx, x)); task.prove('other tasks leave the result alone', st1.pc + (bnot(win),), eq(tx, P(app('x0'))))
        for b in br: task.result('the loop over the slices is not left early', None, '')
        for pc, *gs in calls:
            for nm, gl in zip(('every task searches d giant steps', 'every task searches for h', 'the slice exists', 'the flag is passed on'), gs): task.prove(nm, pc, gl)
        N = __import__('loops').trip(to_bool(ex_at(ex, st, evc, var, KK)), k, ex, st0)
        task.prove('every slice is searched', st0.pc, eq(N, s.S))
        # the slice of x exists and only it hits: afterwards the flag is raised and x is set
        ex.st = st0.copy(); ex.store(var, N); ex.store(fl, TRUE); ex.store(xv, x); return True
    ex.loop_rule = rule
    with s:
        with With({'SearchSlicedRange': contract}):
            res = r.call('ShanksDLOG', r.cell(s.g), r.cell(G(g * x)), s.L, s.T, xv)
        r.prove('success is reported', to_bool(res)); r.prove_eq('the exponent is returned', P(r.get(xv)), x); r.no_abort('no abort')
    task.result('one loop over the slices', len(seen) == 1 or None, '')
    r.finish()
def ex_at(ex, st, evc, var, KK):
    o = ex.st; ex.st = st.copy(); ex.store(var, KK)
    try: return evc()
    finally: ex.st = o
def ex_load(ex, st, lv):
    o = ex.st; ex.st = st
    try: return ex.load(lv)
    finally: ex.st = o
def B_sym(r, n): return r.sym('bool', n)
def tasks(tier):
    return [Task('build', build(())), Task('build-compressed', build(('+ECPOINT_COMPRESSED',))), Task('search', search), Task('shanks', shanks)]
