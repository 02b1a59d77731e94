from props.common import *
from duo import *
from props.p13 import blocks, at, prove_val, worst
HARNESS = ['p15.cpp']
INC = ['crypto/setup.hpp', 'mpc/oprf/ddh_oprf.hpp', 'mpc/peqt/peqt_from_ddh.hpp', 'mpc/oprf/ote_oprf.hpp']
def prog(): return program(INC)
PRELOAD = [prog]
ASSUMPTIONS = ['hash-to-point is a function of the block and collision-free', 'drawn keys and masks are non-zero modulo the order (fails with probability 1/order)', 'the permutation map given to the server is a permutation']
def hb(x): return P(app('G:hb', x))
def draws(*vs):
    return sorted({a for v in vs for a in all_atoms(v) if a.name == 'rnd' and a.args[1] == Q}, key=lambda a: a.id)
def nonzero(r, ds, xs):
    """the stated assumption, instantiated: no drawn scalar (nor a product of two) annihilates a hashed element"""
    for i, a in enumerate(ds):
        r.assume(bnot(g0(P(a))))
        for x in xs: r.assume(bnot(g0(hb(x)))); r.assume(bnot(g0(P(a) * hb(x))))
def collfree(r, ds, x, y):
    for i, a in enumerate(ds):
        r.assume(biff(g0(P(a) * (hb(x) - hb(y))), X.val_eq(x, y)))
        for b in ds[i + 1:]: r.assume(biff(g0(P(a) * P(b) * (hb(x) - hb(y))), X.val_eq(x, y)))
    r.assume(biff(g0(hb(x) - hb(y)), X.val_eq(x, y)))
def ddh(permuted):
    def f(t, ctx):
        d = Duo(t, prog()); n = d.sym('unsigned long', 'n'); X_ = blocks('x', n); i = fresh_atom('i')
        pm = Vec(n, i, X.perm('pi', n, P(i)) if permuted else P(i))
        pps = [p.r.call('DDHOPRF::Setup') for p in (d.a, d.b)]
        fs = lambda p: p.r.call('DDHOPRF::Server', p.io, p.r.cell(pps[0]), pm, n)
        fr = lambda p: p.r.call('DDHOPRF::Client', p.io, p.r.cell(pps[1]), p.r.cell(X_), n)
        d.run(fs, fr)
        key, v = d.a.result, d.b.result; r = d.a.r; d.a.ex.activate()
        e = r.call('DDHOPRF::Evaluate', r.cell(pps[0]), r.cell(key), r.cell(X_), n)
        r.prove('one value per input', band(eq(v.n, n), eq(e.n, n)))
        k = at(d, n); j = X.perm('pi', n, k) if permuted else k
        nonzero(r, draws(vget(v, j), vget(e, k), key), [vget(X_, k)])
        prove_val(r, 'the value the client obtains is the one the key owner evaluates', vget(v, j), vget(e, k))
        sec = lambda y: is_app(y, 'x')
        d.balanced(); d.a.r.no_abort('no abort'); d.finish()
    return f
def peqt(t, ctx):
    d = Duo(t, prog()); R_, C_ = d.sym('unsigned long', 'R'), d.sym('unsigned long', 'C')
    d.assume(band(le(1, R_), le(1, C_)))
    n = R_ * C_; X_, Y_ = blocks('x', n), blocks('y', n)
    d.run(lambda p: p.r.call('DDHPEQT::Send', p.io, p.r.cell(Y_), R_, C_), lambda p: p.r.call('DDHPEQT::Receive', p.io, p.r.cell(X_), R_, C_))
    pm, v = d.a.result, d.b.result; r = d.a.r; d.a.ex.activate()
    r.prove('one mark per position', band(eq(v.n, n), eq(pm.n, n)))
    i = fresh_atom('i'); j = fresh_atom('j')
    r.assume(band(le(0, P(i)), lt(P(i), R_), le(0, P(j)), lt(P(j), C_)))
    k = P(i) * C_ + P(j); r.assume(band(le(0, k), lt(k, n)))
    q = vget(pm, k)
    r.prove('the map stays inside the list', band(le(0, q), lt(q, n)))
    m = to_int(vget(v, q))
    same = X.val_eq(vget(X_, k), vget(Y_, k))
    collfree(r, draws(m), vget(X_, k), vget(Y_, k))
    r.prove('the position is marked exactly when the two elements agree', band(bor(eq(m, 0), eq(m, 1)), biff(eq(m, 1), same)))
    d.balanced(); r.no_abort('no abort'); d.finish()
def encode(t, ctx):
    r = Run(t, prog()); n = r.sym('unsigned long', 'n'); v = blocks('x', n); c = r.cell(v); key = R(app('key')); kc = r.cell(key)
    e = r.call('OTEOPRF::Encode', c, kc)
    r.prove('one encoding per input', eq(e.n, n))
    k = P(fresh_atom('k')); r.assume(band(le(0, k), lt(k, n)))
    h = X.sha256(X.enc_blk(vget(v, k))) if hasattr(X, 'sha256') else seg(app('sha256', X.enc_blk(vget(v, k))), 32)
    z = [X.dec_blk(bslice(h, P(o), P(16))) for o in (0, 16)]
    r.prove_eq('every input is encoded on its own, by the keyed function of its hash', vget(e, k), symm.aes(key, z[0]) ^ z[1])
    r.prove_eq('the inputs stay unchanged', r.get(c), v)
    r.no_race('no two iterations touch the same block'); r.finish()
def setup(t, ctx):
    r = Run(t, prog())
    for lg in range(3, 23):
        pp = r.call('OTEOPRF::Setup', P(lg), P(40))
        ok = [pp.f['INPUT_NUM'] == P(1 << lg), pp.f['MATRIX_HEIGHT'] == P(1 << lg), pp.f['LOG_MATRIX_HEIGHT'] == P(lg)]
        b = pp.f['BATCH_SIZE']
        ok += [b.is_const() and (1 << lg) % b.const() == 0 and b.const() >= 1]
        t.result('parameters for 2^%d inputs are consistent' % lg, all(ok), str(ok))
    r.finish()
def tasks(tier):
    return [Task('OTEOPRF/Encode', encode), Task('OTEOPRF/Setup', setup, bounded='2^3..2^22 inputs'), Task('DDHOPRF/permuted', ddh(True)), Task('DDHOPRF/plain', ddh(False)), Task('DDHPEQT', peqt)]
