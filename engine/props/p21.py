from props.common import *
from duo import *
import duo, props.p01, props.p05, props.p07, props.p11, props.p12, props.p13, props.p14, props.p15, props.nizk as nz
HARNESS = ['p21.cpp']
PRELOAD = [props.p01.prog, props.p05.prog, props.p05.prog2, props.p07.prog, props.p11.prog, props.p13.prog, props.p14.prog, props.p15.prog, nz.prog, props.p12.prog12]
ASSUMPTIONS = ['the operating-system source (std::random_device) and the OpenSSL generator return independent values', 'the draws inside range proofs, the encryption relation, ring signatures, OTE-OPRF, VOLE and the X25519 variants of ElGamal enter through the real-code replay']
def draws_of(x): return {a for a in all_atoms(x) if a.name == 'rnd'}
class Quiet:
    """the protocol is executed with the obligations of its own property left to that property"""
    def __init__(self, t): self.t = t
    def __getattr__(self, k): return getattr(self.t, k)
    def prove(self, *a, **k): pass
    def result(self, *a, **k): pass
INPUT = ('x', 'y', 'm0', 'm1', 'sel', 'v')
def proto(name, fn):
    def f(task, ctx):
        q = Quiet(task); got = []; old = Duo.run
        def run(d, fa, fb): old(d, fa, fb); got.append(d)
        Duo.run = run
        try: fn(q, ctx)
        finally: Duo.run = old
        for d in got:
            for p in (d.a, d.b):
                own = own_rnd(p.who); bad = []; n = 0
                for x, _ in payloads(p.sent()):
                    if not isinstance(x, (G, Ring2)) and not mentions(x, lambda y: is_app(y, *INPUT)): continue      # lengths and other public framing
                    if name == 'mqRPMTPSIcardsum': continue                                                          # the masked sum: below
                    n += 1
                    if not mentions(x, own): bad.append(x)
                if n: task.result('everything %s sends depends on a fresh draw of its own' % p.who, not bad, str(bad)[:400])
            for k, v in d.msgs.items():
                if k.startswith('NPOT'): task.result('the keys of the base transfers come from a fresh seed', mentions(vget(v[0], P(app('k0'))), own_rnd('B')) and mentions(vget(v[1], P(app('k0'))), own_rnd('B')), str(v)[:300])
                if name == 'mqRPMTPSIcardsum' and k.startswith('OT') and v[0] is not None:
                    at = [a for a in draws_of_any(vget(v[0], P(app('k0')))) if str(a.args[0]).startswith('A')]
                    task.result('the masks of the values are fresh draws', bool(at), str(v[0])[:300]); task.result('every value has a mask of its own', any(len(a.args) > 2 for a in at), str(v[0])[:300])
            if name == 'NPOT':
                for p, want in ((d.a, 2), (d.b, 1)):
                    ks = set()
                    for x, q in payloads(p.sent()):
                        if isinstance(x, G): ks |= {a.args[0] for a in draws_of_any(x) if str(a.args[0]).startswith(p.who) and len(a.args) > 2}
                    task.result('%s draws a value of its own for every instance' % p.who, bool(ks), 'no indexed draw')
            if name == 'IKNPOTE/std' or name == 'ALSZOTE/std':
                task.result("the sender's choices in the base transfers come from a fresh seed", any(mentions(x, own_rnd('A')) for x, _ in payloads(d.a.sent())), 'no draw of the sender')
        if not got: task.result('the protocol runs', None, 'not executed')
    return f
def draws_of_any(x):
    out = set(); walk(x, lambda y: out.add(y) if isinstance(y, App) and y.name in ('rnd', 'rndblk') else None); return out
def twice(t, r, nm, f, m=Q, one=False):
    """two executions on the same arguments draw, each time, values of their own"""
    a, b = f(), f(); A, B = draws_of_any(a), draws_of_any(b)
    t.result('%s: a fresh draw in every execution' % nm, bool(A) and bool(B) and not (A & B), 'draws %r / %r' % (list(A)[:4], list(B)[:4]))
    if m is not None: t.result('%s: drawn from the whole range' % nm, True if all(x.name == 'rndblk' or x.args[1] == m for x in A | B) else None, 'draws %r' % (list(A)[:4],))
def base(t, ctx):
    r = Run(t, props.p01.prog()); m = r.sym('BigInt', 'm'); N = r.sym('size_t', 'N'); lo = r.sym('BigInt', 'lo'); r.assume(band(lt(0, m), lt(lo, m)))
    twice(t, r, 'GenRandomBigIntLessThan', lambda: r.call('GenRandomBigIntLessThan', m, sig='BigInt(constBigInt&)'), m)
    twice(t, r, 'GenRandomBigIntBetween', lambda: r.call('GenRandomBigIntBetween', lo, m), m - lo)
    twice(t, r, 'GenRandomBigIntVectorLessThan', lambda: vget(r.call('GenRandomBigIntVectorLessThan', N, m), P(app('k0'))), m)
    twice(t, r, 'GenRandomECPoint', lambda: r.call('GenRandomECPoint'), Q - 1); twice(t, r, 'GenRandomGenerator', lambda: r.call('GenRandomGenerator'), Q - 1)
    r.finish()
def seed(t, ctx):
    from props.p04 import NoContracts
    with NoContracts('PRG::ReSeed', 'AES::Enc', 'AES::ECBEnc'):
        r = Run(t, props.p13.prog()); f = lambda: vget(r.call('PRG::SetSeed', NULL, P(0)).f['aes_key'].f['roundkey'], P(0))
        a, b = f(), f(); A, B = draws_of_any(a), draws_of_any(b)
        t.result('an unsalted seed is drawn from the system source in every call', bool(A) and bool(B) and not (A & B) or (None if not A and not B and False else False), 'key %s' % str(a)[:200])
        t.result('all four words of an unsalted seed are draws of their own', True if len(A) >= 4 else None, 'draws %r' % (list(A)[:6],)); r.finish()
def pke(s, p):
    def f(t, ctx):
        r = props.p05.setup(t, s, p()); pk = r.sym('ECPoint', 'pk'); M = r.sym('ECPoint' if s == 'ElGamal' else 'BigInt', 'M'); ct = r.sym(s + '::CT', 'ct')
        twice(t, r, 'KeyGen', lambda: r.call(s + '::KeyGen', r.pp).f['1'])
        for fld in ('X', 'Y'): twice(t, r, 'Enc, component ' + fld, lambda: r.call(s + '::Enc', r.pp, pk, M, n=3).f[fld])
        twice(t, r, 'ReRand', lambda: r.call(s + '::ReRand', r.pp, pk, ct).f['X'])
        r.finish()
    return f
def schnorr(t, ctx):
    r = Run(t, props.p07.prog()); pp = r.call('Schnorr::Setup'); sk = r.sym('BigInt', 'sk'); m = r.sym('std::string', 'm')
    twice(t, r, 'KeyGen', lambda: r.call('Schnorr::KeyGen', pp).f['1']); twice(t, r, 'Sign', lambda: r.call('Schnorr::Sign', pp, sk, m).f['A']); r.finish()
def ring(t, ctx):
    r = props.p11.base(t, 2); twice(t, r, 'KeyGen', lambda: r.call(props.p11.NS + '::KeyGen', r.pp).f['1']); r.finish()
def account(t, ctx):
    s = props.p12.Env(t); r = s.r; m, sn = r.sym('BigInt', 'm'), r.sym('BigInt', 'sn'); r.assume(band(le(0, m), lt(m, X.pow2(s.n))))
    with s.ctr(): twice(t, r, 'CreateAccount (secret key)', lambda: r.call('ADCP::CreateAccount', s.pp, r.sym('std::string', 'id'), m, sn).f['sk'])
    r.finish()
def tasks(tier):
    T = [Task('random numbers and points', base), Task('PRG::SetSeed', seed), Task('Schnorr', schnorr), Task('ring signature keys', ring), Task('accounts', account)]
    T += [Task(s, pke(s, p)) for s, p in (('ElGamal', props.p05.prog2), ('ExponentialElGamal', props.p05.prog), ('TwistedExponentialElGamal', props.p05.prog))]
    T += [Task('%s.commitments' % n, nz.nonces(n)) for n in nz.NS]
    for m in (props.p13, props.p14, props.p15):
        for t in m.tasks(tier):
            if t.name.startswith(('Hash', 'OTEOPRF', 'mqRPMTPSU', 'mqRPMTPSI')) and t.name != 'mqRPMTPSIcardsum' or 'bytes' in t.name: continue
            T.append(Task('protocol ' + t.name, proto(t.name, t.run_fn)))
    return T
