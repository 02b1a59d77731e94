from props.common import *
from duo import *
from props.p13 import blocks, choices, strings, at, prove_val, beq_
from props.p15 import draws, collfree, hb
HARNESS = ['p14.cpp', 'p14b.cpp']
INC = ['crypto/setup.hpp', 'mpc/psi/cwprf_psi.hpp', 'mpc/pso/mqrpmt_psi.hpp', 'mpc/pso/mqrpmt_psu.hpp', 'mpc/pso/mqrpmt_psi_card.hpp', 'mpc/pso/mqrpmt_psi_card_sum.hpp']
def prog(u=()): return program(INC, '', undef=u)
PRELOAD = [prog]
ASSUMPTIONS = ['the hash of a block to a group element and the truncation of a group element to the configured length are collision-free on the inputs of one run (the error the statement allows)',
               'the filter used inside the membership test answers exactly by membership (no false negatives: decided by P16; false positives: the error the statement allows)',
               'oblivious transfer extension enters through its contract (discharged by P13)']
# ---- contracts
def b2b(ex, c):
    """Hash::BlockToBytes writes 32 bytes that depend on the block only (discharged below)"""
    X.mem_write(ex, c.val(1), seg(app('h32', c.val(0)), 32), 'void'); return P(1)
HASH_C = {'Hash::BlockToBytes': b2b}
def hash_task(t, ctx):
    r = Run(t, prog()); buf = r.cell(Bytes(((app('old'), P(32)),)), 'buf'); b = R(app('x'))
    r.ex.ctypes[buf[0]] = 'unsigned char[32]'
    p = Ptr(buf[0], buf[1] + (('i', P(0)),))
    r.call('Hash::BlockToBytes', r.cell(b), p, P(32)); v = r.get(buf)
    r.prove('32 bytes', eq(v.length(), 32))
    t.result('the digest depends on the block only', not mentions(v, lambda y: is_app(y, 'old')) and mentions(v, lambda y: is_app(y, 'x')), str(v)[:300])
    r.finish()
BL = {}
def bloom_new(ex, c):
    if len(c) == 0:
        v = c.me(); f = dict(v.f); f.update({k: P(app('unset', k)) for k in ('random_seed', 'hash_num', 'table_size', 'projected_element_num', 'inserted_element_num')}); f['bit_table'] = EMPTY
        c.setme(Struct(v.cls, f)); return
    m = P(app('tbl', len(BL))); ex.assume(le(1, m)); ex.chan_party.peer.ex.assume(le(1, m))
    v = c.me(); f = dict(v.f); f.update(random_seed=P(1), hash_num=P(c.val(1)), table_size=m * 8, bit_table=Bytes(((app('bloom', P(0)), m),)), projected_element_num=P(c.val(0)), inserted_element_num=P(0))
    c.setme(Struct(v.cls, f))
def bloom_ins(ex, c):
    v = c.me(); x = c.val(0); b = v.f['bit_table']; a, m = b.segs[0]
    if a.name != 'bloom' or len(b.segs) != 1 or ex.loopk: raise Unsupported('insertion into a filter of unknown content')
    if not isinstance(x, Vec): x = Vec(P(1), None, x)
    k = len(BL) + 1; BL[k] = BL.get(a.args[0].const(), ()) + (x,)
    f = dict(v.f); f['bit_table'] = Bytes(((app('bloom', P(k)), m),)); c.setme(Struct(v.cls, f))
def bloom_has(ex, c):
    v = c.me(); x = c.val(0); b = v.f['bit_table']
    if not isinstance(b, Bytes) or len(b.segs) != 1 or b.segs[0][0] == 'rep' or b.segs[0][0].name != 'bloom': raise Unsupported('filter of unknown content')
    sets = BL.get(b.segs[0][0].args[0].const(), ())
    def mem(y):
        out = []
        for s in sets:
            j = fresh_atom('j'); out.append(bex(s.n, j, X.val_eq(vget(s, P(j)), y)))
        return bor(*out)
    if not isinstance(x, Vec): return mem(x)
    i = fresh_atom('i'); return Vec(x.n, i, ite(mem(vget(x, P(i))), P(1), P(0)))
BLOOM_C = {'BloomFilter::BloomFilter': bloom_new, 'BloomFilter::Insert': bloom_ins, 'BloomFilter::Contain': bloom_has, 'GenUniqueSaltVector': lambda ex, c: Vec(P(c.val(0)), None, P(0))}
# ---- the stated assumption on hashing, as a rewriting of equalities: truncated PRF values under the same keys agree iff the items do
def item_of(b, T):
    """(item, keys) of bytes that are at least T bytes of a PRF value"""
    if not isinstance(b, Bytes) or len(b.segs) != 1 or b.segs[0][0] == 'rep': return None
    a, n = b.segs[0]; off = None
    if a.name == 'sub':
        off, ln = a.args[1], a.args[2]; inner = a.args[0]
        if decide(le(T, ln)) is not True: return None
        if not isinstance(inner, Bytes) or len(inner.segs) != 1 or inner.segs[0][0] == 'rep': return None
        a = inner.segs[0][0]
    elif decide(le(T, n)) is not True: return None
    if a.name != 'x25': return None
    base = a.args[0]
    if not isinstance(base, Bytes) or len(base.segs) != 1 or base.segs[0][0] == 'rep' or base.segs[0][0].name != 'h32': return None
    return base.segs[0][0].args[0], (a.args[1], off)
def by_item(c, T):
    if not isinstance(c, B): return c
    if c.op == 'ex' or c.op == 'all':
        j = fresh_atom('j'); body = by_item(open_b(c.args[1], c.depth if False else c.args[2], P(j)) if len(c.args) > 2 else c.args[1], T)
        return (bex if c.op == 'ex' else ball)(c.args[0], j, body)
    if c.op == 'not': return bnot(by_item(c.args[0], T))
    if c.op == 'and': return band(*[by_item(x, T) for x in c.args])
    if c.op == 'or': return bor(*[by_item(x, T) for x in c.args])
    if c.op == 'app' and c.args[0] == 'beq':
        x, y = item_of(c.args[1], T), item_of(c.args[2], T)
        if x is not None and y is not None and x[1] == y[1]: return X.val_eq(x[0], y[0])
    if c.op == 'g0':
        r = g_items(c.args[0])
        if r is not None: return r
    return c
def g_items(p):
    """a*b*(hb(x)-hb(y)) vanishes iff x == y"""
    hs = {}
    for m, c in p.t.items():
        h = [a for a, e in m if a.name == 'G:hb' and e == 1]; k = tuple(sorted(((a.id, e) for a, e in m if a.name != 'G:hb'), key=str))
        if len(h) != 1 or not all(a.name == 'rnd' and a.args[1] == Q for a, e in m if a.name != 'G:hb'): return None
        hs[h[0]] = (k, c)
    if len(hs) != 2 or len(p.t) != 2: return None
    (x, (k1, c1)), (y, (k2, c2)) = hs.items()
    if k1 != k2 or c1 + c2 != 0 or abs(c1) != 1: return None
    return X.val_eq(x.args[0], y.args[0])
def order(c):
    """arguments of symmetric equalities in one order"""
    if not isinstance(c, B): return c
    if c.op in ('ex', 'all'):
        j = app('j%d' % c.args[2]); b = order(open_b(c.args[1], c.args[2], P(j))); return (bex if c.op == 'ex' else ball)(c.args[0], j, b)
    if c.op == 'not': return bnot(order(c.args[0]))
    if c.op in ('and', 'or'): return (band if c.op == 'and' else bor)(*[order(x) for x in c.args])
    if c.op == 'app' and c.args[0] in ('req', 'beq'): return bapp(c.args[0], *sorted(c.args[1:], key=repr))
    return c
def spec_member(Y_, x):
    j = fresh_atom('j'); return bex(Y_.n, j, X.val_eq(vget(Y_, P(j)), x))
def exact(r, name, c, Y_, x, T):
    r.ex.activate(); c2 = order(by_item(c, P(T))); s = order(spec_member(Y_, x))
    if c2 is s or c2 == s: r.task.result(name, True, None); return
    r.prove(name, biff(c2, s))
def psi(t, ctx):
    d = Duo(t, prog(), HASH_C); nx, ny, T = d.sym('unsigned long', 'nx'), d.sym('unsigned long', 'ny'), d.sym('unsigned long', 'T')
    d.assume(band(le(1, T), le(T, 32)))
    X_, Y_ = blocks('x', nx), blocks('y', ny)
    pps = []
    for p in (d.a, d.b):
        v = p.r.ex.default('cwPRFPSI::PP', True); v.f['SENDER_ITEM_NUM'] = ny; v.f['RECEIVER_ITEM_NUM'] = nx; v.f['TRUNCATE_LEN'] = T; pps.append(v)
    d.run(lambda p: p.r.call('cwPRFPSI::Send', p.io, p.r.cell(pps[0]), p.r.cell(Y_)), lambda p: p.r.call('cwPRFPSI::Receive', p.io, p.r.cell(pps[1]), p.r.cell(X_)))
    v = d.b.result; r = d.b.r; d.b.ex.activate()
    r.prove('every item is considered', eq(v.tot, nx))
    k = at(d, nx, d.b); c, x = v.at(k)
    r.prove_eq('what is delivered is the item itself', x, vget(X_, k))
    exact(r, 'an item is delivered exactly when the other set contains it', c, Y_, vget(X_, k), T)
    d.balanced(); r.no_abort('no abort'); d.finish()
def mqrpmt(u):
    def f(t, ctx):
        BL.clear()
        d = Duo(t, prog(u), {**HASH_C, **BLOOM_C}); nx, ny, s = d.sym('unsigned long', 'nx'), d.sym('unsigned long', 'ny'), d.sym('unsigned long', 'stat')
        d.assume(band(le(1, nx), le(1, ny), le(1, s)))
        X_, Y_ = blocks('x', nx), blocks('y', ny)
        pps = []
        for p in (d.a, d.b):
            v = p.r.ex.default('cwPRFmqRPMT::PP', True); v.f['SERVER_LEN'] = ny; v.f['CLIENT_LEN'] = nx; v.f['statistical_security_parameter'] = s; pps.append(v)
        cx, cy = [], []
        def fs(p): cy.append(p.r.cell(Y_)); return p.r.call('cwPRFmqRPMT::Server', p.io, p.r.cell(pps[0]), cy[0])
        def fc(p): cx.append(p.r.cell(X_)); p.r.call('cwPRFmqRPMT::Client', p.io, p.r.cell(pps[1]), cx[0])
        d.run(fs, fc)
        v = d.a.result; r = d.a.r; d.a.ex.activate()
        if isinstance(v, Bytes): v = bytes_to_vec(v)
        r.prove('one bit per item of the client', eq(v.n, nx))
        k = at(d, nx, d.a); b = to_int(vget(v, k))
        r.prove('the answers are bits', bor(eq(b, 0), eq(b, 1)))
        exact(r, 'a bit is set exactly when the server holds the item', solver_simpl(eq(b, 1)), Y_, vget(X_, k), 32)
        d.a.r.prove_eq("the server's items stay unchanged", d.a.r.get(cy[0]), Y_); d.b.r.prove_eq("the client's items stay unchanged", d.b.r.get(cx[0]), X_)
        d.balanced(); r.no_abort('no abort'); d.finish()
    return f
def solver_simpl(c): return c
# ---- protocols over the contracts of the membership test and of the transfer extension
def rpmt_client(ex, c):
    pp = ex.load(c.lv(1)); x = c.val(2)
    if decide(eq(pp.f['CLIENT_LEN'], x.n)) is not True: raise Unsupported('client set does not match the parameters')
    sub_send(ex, 'RPMT', (x, pp))
def rpmt_server(ex, c):
    y = c.val(2); pp = ex.load(c.lv(1)); x, pc = sub_recv(ex, 'RPMT')
    if decide(band(eq(pp.f['SERVER_LEN'], y.n), eq(pp.f['CLIENT_LEN'], x.n), eq(pc.f['SERVER_LEN'], y.n))) is not True: raise Unsupported('the parties\' parameters differ')
    i = fresh_atom('i'); return Vec(x.n, i, ite(spec_member(y, vget(x, P(i))), P(1), P(0)))
def mult128(ex, n):
    if decide(eq(mod(P(n), P(128)), 0)) is not True: raise Unsupported('number of transfers %r not a multiple of 128' % (n,))
def ot_send(two):
    def f(ex, c):
        n = P(c.val(len(c) - 1)); ms = (c.val(2), c.val(3)) if two else (None, c.val(2)); mult128(ex, n)
        for m in ms:
            if m is not None and decide(le(n, m.n)) is not True: raise Unsupported('fewer messages than transfers')
        sub_send(ex, 'OT', ms + (n,))
    return f
SEL = {}
def ot_recv(two):
    def f(ex, c):
        s = c.val(2); n = P(c.val(3)); mult128(ex, n); m0, m1, nn = sub_recv(ex, 'OT')
        if decide(eq(nn, n)) is not True: raise Unsupported('the parties run different numbers of transfers: %r, %r' % (nn, n))
        if isinstance(s, Bytes): s = bytes_to_vec(s)
        i = fresh_atom('i'); pc = ex.st.pc; ex.assume(band(le(0, P(i)), lt(P(i), n)))
        b = to_int(vget(s, P(i)))
        if decide(bor(eq(b, 0), eq(b, 1))) is not True: raise Unsupported('choices are not bits: %r' % (b,))
        if two: r = vite(eq(b, 1), vget(m1, P(i)), vget(m0, P(i))); ex.st.pc = pc; return Vec(n, i, r)
        ex.st.pc = pc
        k = len(SEL); SEL[k] = (n, i, eq(b, 1), m1); cnt = P(app('delivered', P(k))); ex.assume(le(0, cnt)); ex.assume(le(cnt, n))
        m = vget(m1, P(0)); j = fresh_atom('j')
        return Vec(cnt, j, seg(app('dlv', P(k), P(j)), m.length()) if isinstance(m, (Bytes, Vec)) else R(app('dlv', P(k), P(j))))
    return f
SUB = {'cwPRFmqRPMT::Client': rpmt_client, 'cwPRFmqRPMT::Server': rpmt_server, 'ALSZOTE::OnesidedSend': ot_send(False), 'ALSZOTE::OnesidedReceive': ot_recv(False),
       'ALSZOTE::OnesidedSendByteVector': ot_send(False), 'ALSZOTE::OnesidedReceiveByteVector': ot_recv(False), 'ALSZOTE::SendByteVector': ot_send(True), 'ALSZOTE::ReceiveByteVector': ot_recv(True)}
def pso(ns, kind):
    def f(t, ctx):
        SEL.clear()
        d = Duo(t, prog(), SUB); a, b = d.sym('unsigned long', 'a'), d.sym('unsigned long', 'b')
        d.assume(band(le(1, a), le(1, b)))
        pad = kind == 'bytes' or kind == 'card'
        nx, ny = (a, b) if pad else (a * 128, b * 128)
        X_, Y_ = blocks('x', nx), blocks('y', ny)
        pps = []
        for p in (d.a, d.b):
            v = p.r.ex.default(ns + '::PP', True); v.f['SENDER_ITEM_NUM'] = nx; v.f['RECEIVER_ITEM_NUM'] = ny
            v.f['mqrpmt_part'].f['SERVER_LEN'] = ny; v.f['mqrpmt_part'].f['CLIENT_LEN'] = nx; pps.append(v)
        extra = (); xs = X_
        if kind == 'bytes':
            L = d.sym('unsigned long', 'len'); d.assume(le(1, L)); extra = (L,)
            X_, Y_ = strings('x', nx, L), strings('y', ny, L)
            symm_b2b(d)
        if kind == 'sum':
            lb, lv = d.sym('unsigned long', 'lb'), d.sym('unsigned long', 'lv'); d.assume(le(1, lb))
            for v in pps: v.f['LOG_SUM_BOUND'] = lb * 8; v.f['LOG_VALUE_BOUND'] = lv
            i = fresh_atom('i'); V_ = Vec(nx, i, P(app('v', P(i))))
        def fs(p):
            if kind == 'sum': return p.r.call(ns + '::Send', p.io, p.r.cell(pps[0]), p.r.cell(X_), p.r.cell(V_))
            return p.r.call(ns + '::Send', p.io, p.r.cell(pps[0]), p.r.cell(X_), *extra, n=3 + len(extra))
        d.run(fs, lambda p: p.r.call(ns + '::Receive', p.io, p.r.cell(pps[1]), p.r.cell(Y_), *extra, n=3 + len(extra)))
        v = d.b.result; r = d.b.r; d.b.ex.activate()
        mem = lambda i: spec_member(hashed(Y_) if kind == 'bytes' else Y_, vget(hashed(X_) if kind == 'bytes' else X_, i))
        if kind in ('psi', 'psu', 'bytes'):
            if len(SEL) != 1: raise Unsupported('expected one transfer')
            n, i, c, m = SEL[0]
            k = at(d, n, d.b); c = subst(c, {i: k}); pc = r.ex.st.pc
            r.prove('every item of the sender is offered', le(nx, n))
            r.assume(lt(k, nx)); prove_val(r, 'what is offered is the item itself', vget(m, k), vget(X_, k))
            r.prove('an item is obtained exactly when ' + ('both sets contain it' if kind == 'psi' else 'only the sender holds it'), biff(c, mem(k) if kind == 'psi' else bnot(mem(k))))
            r.ex.st.pc = pc; (r.assume(le(nx, k)), r.prove('padding is never obtained', bnot(c))) if kind == 'bytes' else None; r.ex.st.pc = pc
            D = Vec(P(app('delivered', P(0))), None, None); j = fresh_atom('j'); dl = lambda q: seg(app('dlv', P(0), P(q)), extra[0]) if kind == 'bytes' else R(app('dlv', P(0), P(q)))
            if kind == 'psi':
                r.prove('the result has as many items as were obtained', eq(v.n, D.n)); q = at(d, D.n, d.b); prove_val(r, 'the result is what was obtained', vget(v, q), dl(q))
            else:
                r.prove('the result has the receiver\'s items and the obtained ones', eq(v.n, ny + D.n)); pc = r.ex.st.pc
                q = at(d, ny, d.b); prove_val(r, 'the receiver\'s items are in the result', vget(v, q), vget(Y_, q)); r.ex.st.pc = pc
                q = at(d, D.n, d.b); prove_val(r, 'the obtained items are in the result', vget(v, ny + q), dl(q)); r.ex.st.pc = pc
        i = fresh_atom('i'); card = lambda: psum(nx, i, ite(mem(P(i)), P(1), P(0)))
        if kind == 'card': r.prove('the result is the number of common items', eq(to_int(v), card()))
        if kind == 'sum':
            r.prove('the receiver learns the number of common items', eq(to_int(v), card()))
            s = d.a.result; r = d.a.r; d.a.ex.activate()
            r.prove('the sender learns the number of common items', eq(to_int(s.f['0']), card()))
            r.prove('the sender learns the sum over the common items', eq(SplitIte()(s.f['1']), mod(psum(nx, i, ite(mem(P(i)), vget(V_, P(i)), P(0))), X.pow2(lb * 8))))
        d.balanced(); r.no_abort('no abort'); d.finish()
    return f
class SplitIte(Ren):
    """ite(c, x + z, z) = ite(c, x, 0) + z, also under sums"""
    def __init__(self): super().__init__(set()); 
    def app(self, a):
        if a.name == 'sum':
            i = fresh_atom('i'); b = self(open_b(a.args[1], a.args[2], P(i))); n = self(a.args[0])
            return psum(n, i, b)
        if a.name == 'ite' and isinstance(a.args[1], Poly) and isinstance(a.args[2], Poly):
            x, y = self(a.args[1]), self(a.args[2]); z = Poly({m: v for m, v in y.t.items() if x.t.get(m) == v})
            return z + ite(a.args[0], x - z, y - z)
        if a.name in ('P', 'c') or not a.args: return P(a)
        if a.name == 'mod': return mod(self(a.args[0]), self(a.args[1]))
        return P(a)
def hashed(v):
    i = fresh_atom('i'); return Vec(v.n, i, R(app('hbytes', vget(v, P(i)))))
def symm_b2b(d):
    d.subc = dict(d.subc); d.subc['Hash::BytesToBlock'] = lambda ex, c: R(app('hbytes', c.val(0)))
def tasks(tier):
    T = [Task('Hash::BlockToBytes', hash_task), Task('cwPRFPSI', psi)]
    for nm, u in (('x25519', ()), ('x25519/permutation', ('BLOOMFILTER',)), ('p256', ('ENABLE_X25519_ACCELERATION',)), ('p256/permutation', ('ENABLE_X25519_ACCELERATION', 'BLOOMFILTER'))): T.append(Task('cwPRFmqRPMT/' + nm, mqrpmt(u)))
    T += [Task('mqRPMTPSI', pso('mqRPMTPSI', 'psi')), Task('mqRPMTPSU', pso('mqRPMTPSU', 'psu')), Task('mqRPMTPSU/byte strings', pso('mqRPMTPSU', 'bytes')), Task('mqRPMTPSIcard', pso('mqRPMTPSIcard', 'card')), Task('mqRPMTPSIcardsum', pso('mqRPMTPSIcardsum', 'sum'))]
    return T
