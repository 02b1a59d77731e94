from props.common import *
from interp import CONTRACTS
HARNESS = ['p05.cpp', 'p05b.cpp']
INC = ['crypto/setup.hpp', 'pke/elgamal.hpp', 'pke/exponential_elgamal.hpp', 'pke/twisted_exponential_elgamal.hpp']
def prog(): return program(INC)
def prog2(): return program(INC, undef=('ENABLE_X25519_ACCELERATION',))
PRELOAD = [prog, prog2]
ASSUMPTIONS = ['the discrete-log search is used through its contract (exponent in range is found), decided by P06', 'secret keys are non-zero modulo the order (twisted scheme)',
               'x25519 scalar multiplication is commutative in the scalars']

def dlog_contract(ex, c):
    """ShanksDLOG(g, h, RANGE_LEN, TRADEOFF_NUM, x): if h = g*x for some 0 <= x < 2^RANGE_LEN, succeeds and returns that x"""
    g, h, L = c.val(0), c.val(1), c.val(2)
    q = exponent_of(h.p, g.p)
    if q is None: return NotImplemented
    ok = band(le(0, q), lt(q, pow2(L)))
    old = ex.load(c.lv(4))
    ex.store(c.lv(4), ite(ok, q, P(app('undef_x')) if not isinstance(old, Poly) else old))
    return ok
def pow2(L):
    return X.pow2(L)
def exponent_of(h, g):
    """symbolic q with h = q*g as polynomials (g a single monomial)"""
    s = g.single() if hasattr(g, 'single') else None
    a = g.atom()
    if g.is_const() and g.const() == 1: return h
    if a is None: return None
    q = h * ppow(P(a), -1)
    return None if occurs(a, q) else q

S1 = ['ExponentialElGamal', 'TwistedExponentialElGamal']
def setup(t, s, p=None):
    CONTRACTS['ShanksDLOG'] = dlog_contract
    r = Run(t, p or prog())
    r.pp = r.sym(s + '::PP', 'pp')
    if s != 'ElGamal': r.L = r.pp.f['MSG_LEN']
    return r
def inr(r, m): return band(le(0, m), lt(m, pow2(r.L)))
def twisted(s): return s.startswith('Tw')
def form(s, r, ct, pk, m, rho):
    """ct is the encryption of m under pk with randomness rho"""
    g = r.pp.f['g'].p
    if twisted(s): return band(g0(ct.f['X'].p - pk.p * rho), g0(ct.f['Y'].p - g * rho - r.pp.f['h'].p * m))
    return band(g0(ct.f['X'].p - g * rho), g0(ct.f['Y'].p - pk.p * rho - (m.p if isinstance(m, G) else g * m)))
def roundtrip(s, explicit):
    def f(t, ctx):
        r = setup(t, s)
        sk = r.sym('BigInt', 'sk'); pk = r.pp.f['g'] * sk; m = r.sym('BigInt', 'm')
        r.assume(inr(r, m))
        if explicit: ct = r.call(s + '::Enc', r.pp, pk, m, r.sym('BigInt', 'r'), sig='CT (const %s::PP &, const ECPoint &, const BigInt &, const BigInt &)' % s if 0 else 'CT(constPP&,constECPoint&,constBigInt&,constBigInt&)')
        else: ct = r.call(s + '::Enc', r.pp, pk, m, n=3)
        if explicit: r.prove('ciphertext form', form(s, r, ct, pk, m, var('r')))
        else:
            a = is_fresh(r, 'randomness is a fresh draw', (ct.f['Y'].p - r.pp.f['h'].p * m if twisted(s) else ct.f['X'].p) * ppow(r.pp.f['g'].p, -1), Q)
        x = r.call(s + '::Dec', r.pp, sk, ct)
        r.prove_eq('decryption returns the message', x, m); r.no_abort('decryption of a valid ciphertext never gives up'); r.finish()
    return f
def keygen(s):
    def f(t, ctx):
        r = setup(t, s)
        kp = r.call(s + '::KeyGen', r.pp)
        r.prove_eq('public key is g^sk', kp.f['0'], r.pp.f['g'] * kp.f['1']); is_fresh(r, 'secret key uniform', kp.f['1'], Q)
        pp = r.call(s + '::Setup', P(app('ML')), P(app('TR')))
        r.prove_eq('message length recorded', pp.f['MSG_LEN'], var('ML')); r.prove_eq('trade-off recorded', pp.f['TRADEOFF_NUM'], var('TR'))
        r.prove_eq('message space is 2^MSG_LEN', pp.f['MSG_SIZE'], pow2(var('ML')))
        r.finish()
    return f
def ct_of(s, r, pk, m, rho):
    g = r.pp.f['g']
    if twisted(s): return Struct(s + '::CT', {'X': pk * rho, 'Y': g * rho + r.pp.f['h'] * m})
    return Struct(s + '::CT', {'X': g * rho, 'Y': pk * rho + (m if isinstance(m, G) else g * m)})
def transforms(s):
    def f(t, ctx):
        r = setup(t, s)
        sk = r.sym('BigInt', 'sk'); pk = r.pp.f['g'] * sk; m = r.sym('BigInt', 'm'); rho = r.sym('BigInt', 'r'); r2 = r.sym('BigInt', 'r2')
        ct = ct_of(s, r, pk, m, rho)
        c2 = r.call(s + '::ReEnc', r.pp, pk, sk, ct, r2)
        r.prove('re-encryption is an encryption of the same message under the given randomness', form(s, r, c2, pk, m, r2))
        c3 = r.call(s + '::ReRand', r.pp, pk, ct)
        d = (c3.f['X'].p - ct.f['X'].p) * ppow((pk.p if twisted(s) else r.pp.f['g'].p), -1)
        is_fresh(r, 're-randomisation adds fresh randomness', d, Q)
        r.prove('re-randomisation keeps the plaintext', form(s, r, c3, pk, m, rho + d))
        m1, m2, ra, rb, k = [r.sym('BigInt', n) for n in ('m1', 'm2', 'ra', 'rb', 'k')]
        a, b = ct_of(s, r, pk, m1, ra), ct_of(s, r, pk, m2, rb)
        r.prove('sum', form(s, r, r.call(s + '::HomoAdd', a, b), pk, m1 + m2, ra + rb))
        r.prove('difference', form(s, r, r.call(s + '::HomoSub', a, b), pk, m1 - m2, ra - rb))
        r.prove('multiple', form(s, r, r.call(s + '::ScalarMul', a, k), pk, m1 * k, ra * k))
        # aliased operands
        ca = r.cell(a); r.prove('doubling (same object twice)', form(s, r, r.call(s + '::HomoAdd', ca, ca), pk, m1 * 2, ra * 2))
        r.prove_eq('operands unchanged', r.get(ca), a)
        e = r.call(s + '::operator==', a, b)
        r.prove('comparison is componentwise', biff(to_bool(e), band(g0(a.f['X'].p - b.f['X'].p), g0(a.f['Y'].p - b.f['Y'].p))))
        r.no_abort('no abort'); r.finish()
    return f
def mr(s):
    def f(t, ctx):
        r = setup(t, s)
        n = r.sym('size_t', 'n'); i = fresh_atom('i')
        sks = app('sk', P(i)); r.assume(le(1, n))
        pks = Vec(n, i, r.pp.f['g'] * P(sks)); m = r.sym('BigInt', 'm'); rho = r.sym('BigInt', 'r')
        r.assume(inr(r, m))
        ct = r.call(s + '::Enc', r.pp, pks, m, rho, sig='MRCT(constPP&,conststd::vector<ECPoint>&,constBigInt&,constBigInt&)')
        v = ct.f['vec_X' if twisted(s) else 'vec_Y']
        r.prove('one component per recipient', eq(v.n, n))
        j = P(app('j')); r.assume(band(le(0, j), lt(j, n)))
        one = Struct(s + '::CT', {'X': vget(v, j), 'Y': ct.f['Y']}) if twisted(s) else Struct(s + '::CT', {'X': ct.f['X'], 'Y': vget(v, j)})
        r.prove('every recipient obtains an encryption of the message under its key', form(s, r, one, vget(pks, j), m, rho))
        x = r.call(s + '::Dec', r.pp, P(app('sk', j)), one)
        r.prove_eq('every recipient decrypts to the message', x, m); r.no_abort('no abort'); r.finish()
    return f
def tw_point(t, ctx):
    s = 'TwistedExponentialElGamal'; r = setup(t, s)
    sk = r.sym('BigInt', 'sk'); pk = r.pp.f['g'] * sk; M = r.sym('ECPoint', 'M'); rho = r.sym('BigInt', 'r')
    ct = r.call(s + '::Enc', r.pp, pk, M, rho, sig='CT(constPP&,constECPoint&,constECPoint&,constBigInt&)')
    r.prove('form', band(g0(ct.f['X'].p - pk.p * rho), g0(ct.f['Y'].p - r.pp.f['g'].p * rho - M.p)))
    r.prove_eq('group-element message decrypts', r.call(s + '::DecECPoint', r.pp, sk, ct), M); r.finish()
def eg_plain(t, ctx):
    s = 'ElGamal'; r = setup(t, s, prog2())
    sk = r.sym('BigInt', 'sk'); pk = r.pp.f['g'] * sk; M = r.sym('ECPoint', 'M'); rho = r.sym('BigInt', 'r')
    ct = r.call(s + '::Enc', r.pp, pk, M, rho, n=4)
    r.prove('form', form(s, r, ct, pk, M, rho))
    r.prove_eq('decryption returns the message', r.call(s + '::Dec', r.pp, sk, ct), M)
    c2 = r.call(s + '::Enc', r.pp, pk, M, n=3)
    is_fresh(r, 'fresh randomness', c2.f['X'].p * ppow(r.pp.f['g'].p, -1), Q)
    r.prove_eq('decryption returns the message (fresh coins)', r.call(s + '::Dec', r.pp, sk, c2), M)
    c3 = r.call(s + '::ReRand', r.pp, pk, ct)
    d = (c3.f['X'].p - ct.f['X'].p) * ppow(r.pp.f['g'].p, -1)
    is_fresh(r, 're-randomisation adds fresh randomness', d, Q)
    r.prove('re-randomisation keeps the plaintext', form(s, r, c3, pk, M, rho + d))
    kp = r.call(s + '::KeyGen', r.pp)
    r.prove_eq('public key is g^sk', kp.f['0'], r.pp.f['g'] * kp.f['1']); is_fresh(r, 'secret key uniform', kp.f['1'], Q)
    b = r.call(s + '::CTtoByteArray', ct); c4 = r.call(s + '::ByteArraytoCT', b)
    r.prove_eq('byte-array round trip', c4, ct)
    r.finish()
def eg_x(t, ctx):
    s = 'ElGamal'; r = setup(t, s)
    i = fresh_atom('i')
    sk = seg(app('sk'), 32); m = Struct('EC25519Point', {'px': seg(app('m'), 32)}); rho = seg(app('r'), 32)
    pk = Struct('EC25519Point', {'px': X.x25(r.pp.f['g'].f['px'], (sk,))})
    ct = r.call(s + '::Enc', r.pp, pk, m, rho, n=4)
    r.prove_eq('decryption returns the message', r.call(s + '::Dec', r.pp, sk, ct), m)
    kp = r.call(s + '::KeyGen', r.pp)
    c2 = r.call(s + '::Enc', r.pp, kp.f['0'], m, n=3)
    r.prove_eq('decryption under a generated key returns the message', r.call(s + '::Dec', r.pp, kp.f['1'], c2), m)
    r.finish()
def tasks(tier):
    ts = []
    for s in S1:
        n = 'exp' if s[0] == 'E' else 'twisted'
        ts += [Task(n + '.dec-enc.fresh', roundtrip(s, False)), Task(n + '.dec-enc.explicit', roundtrip(s, True)), Task(n + '.keygen-setup', keygen(s)),
               Task(n + '.transforms', transforms(s)), Task(n + '.multi-recipient', mr(s))]
    return ts + [Task('twisted.group-message', tw_point), Task('elgamal.p256', eg_plain), Task('elgamal.x25519', eg_x)]
