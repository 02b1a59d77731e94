"""Executable contracts (pre/postconditions) of repo functions, used at call sites instead of bodies and
discharged against the bodies by props/p01.py (verify_contract)."""
from terms import *
from values import *
from interp import CONTRACTS, Call, INT_TYPES
from externals import *
import externals as X

SPEC = {}      # key -> contract function ; every entry is discharged against the body by P01
def contract(*keys):
    def d(f):
        for k in keys:
            SPEC[k] = f; CONTRACTS[k] = f
        return f
    return d
def B1(f): return lambda ex, c: f(c.me())
def B2(f): return lambda ex, c: f(c.me(), c.val(0))
def B3(f): return lambda ex, c: f(c.me(), c.val(0), c.val(1))
def S(key, f):
    SPEC[key] = f; CONTRACTS[key] = f
def ref(f):
    def h(ex, c):
        r = f(ex, c)
        c.setme(r)
        return Ref(c.this)
    return h
def bool_cmp(op):
    def h(ex, c):
        a, b = c.me(), c.val(0)
        return {'==': eq(a, b), '!=': bnot(eq(a, b)), '<': lt(a, b), '>': lt(b, a), '<=': le(a, b), '>=': le(b, a)}[op]
    return h

add_ = B2(lambda a, b: a + b); sub_ = B2(lambda a, b: a - b); mul_ = B2(lambda a, b: a * b)
S('BigInt::Negate', B1(lambda a: -a))
S('BigInt::Add', add_); S('BigInt::Sub', sub_); S('BigInt::Mul', mul_)
S('BigInt::Div', B2(lambda a, b: P(app('bdiv', a, b))))
S('BigInt::DivAndTruncate', B2(lambda a, b: P(app('bdiv', a, b))))
S('BigInt::Exp', B2(lambda a, b: ppow(a, b)))
S('BigInt::Square', B1(lambda a: a * a))
S('BigInt::Mod', B2(lambda a, m: mod(a, m)))
S('BigInt::ModAdd', B3(lambda a, b, m: mod(a + b, m)))
S('BigInt::ModSub', B3(lambda a, b, m: mod(a - b, m)))
S('BigInt::ModMul', B3(lambda a, b, m: mod(a * b, m)))
S('BigInt::ModExp', B3(X.modexp))
S('BigInt::ModSquare', B2(lambda a, m: mod(a * a, m)))
S('BigInt::ModInverse', B2(X.modinv))
S('BigInt::ModSquareRoot', B2(lambda a, m: P(app('modsqrt', a, m))))
def c_modneg(ex, c):
    a, m = c.me(), c.val(0)
    return mod(-a, m)
S('BigInt::ModNegate', c_modneg)
S('BigInt::GCD', B2(lambda a, b: P(app('gcd', *sorted([a, b], key=hash)))))
S('BigInt::CompareTo', B2(lambda a, b: X.cmp3(a, b)))
S('BigInt::Lshift', B2(lambda a, n: a * pow2(n)))
S('BigInt::Rshift', B2(lambda a, n: fdiv(a, pow2(n))))
S('BigInt::operator- BigInt () const', B1(lambda a: -a))
S('BigInt::operator- BigInt (const BigInt &) const', sub_)
S('BigInt::operator+', add_); S('BigInt::operator*', mul_)
S('BigInt::operator/', B2(lambda a, b: P(app('bdiv', a, b))))
S('BigInt::operator%', B2(lambda a, m: mod(a, m)))
S('BigInt::operator>>', B2(lambda a, n: fdiv(a, pow2(n))))
S('BigInt::operator<<', B2(lambda a, n: a * pow2(n)))
S('BigInt::operator=', ref(lambda ex, c: c.val(0)))
S('BigInt::operator+=', ref(add_)); S('BigInt::operator*=', ref(mul_)); S('BigInt::operator-=', ref(sub_))
S('BigInt::operator/=', ref(B2(lambda a, b: P(app('bdiv', a, b)))))
S('BigInt::operator%=', ref(B2(lambda a, m: mod(a, m))))
S('BigInt::operator>>=', ref(B2(lambda a, n: fdiv(a, pow2(n)))))
S('BigInt::operator<<=', ref(B2(lambda a, n: a * pow2(n))))
for o in ('==', '!=', '<', '>', '<=', '>='): S('BigInt::operator' + o, bool_cmp(o))
S('BigInt::IsZero', B1(lambda a: eq(a, P(0)))); S('BigInt::IsOne', B1(lambda a: eq(a, P(1))))
S('BigInt::IsNonNegative', B1(lambda a: le(0, a)))
S('BigInt::IsBitSet', B2(lambda a, n: eq(mod(fdiv(a, pow2(n)), P(2)), P(1))))
S('BigInt::GetTheNthBit', B2(lambda a, n: mod(fdiv(a, pow2(n)), P(2))))
S('BigInt::GetLastNBits', B2(lambda a, n: mod(a, pow2(n))))
S('BigInt::GetBitLength', B1(lambda a: X.numbits(a)))
S('BigInt::GetByteLength', B1(lambda a: fdiv(X.numbits(a) + 7, P(8))))

def c_rand(ex, c):
    m = c.val(0)
    if isinstance(m, Ptr): m = bnval(ex, m)
    return X.rnd(ex, m)
S('GenRandomBigIntLessThan', c_rand)
S('GenRandomBigIntBetween', lambda ex, c: c.val(0) + X.rnd(ex, c.val(1) - c.val(0)))

# elliptic-curve points (as discrete logarithms with respect to the fixed generator)
S('ECPoint::Mul', B2(lambda A, k: A * k)); S('ECPoint::operator*', B2(lambda A, k: A * k))
S('ECPoint::Add', add_); S('ECPoint::operator+', add_)
S('ECPoint::Sub', sub_); S('ECPoint::operator- ECPoint (const ECPoint &) const', sub_)
S('ECPoint::Invert', B1(lambda A: G(-A.p))); S('ECPoint::operator- ECPoint () const', B1(lambda A: G(-A.p)))
S('ECPoint::operator=', ref(lambda ex, c: c.val(0)))
S('ECPoint::operator+=', ref(add_)); S('ECPoint::operator-=', ref(sub_)); S('ECPoint::operator*=', ref(B2(lambda A, k: A * k)))
S('ECPoint::CompareTo', B2(lambda A, C: g0(A.p - C.p))); S('ECPoint::operator==', B2(lambda A, C: g0(A.p - C.p)))
S('ECPoint::operator!=', B2(lambda A, C: bnot(g0(A.p - C.p))))
S('ECPoint::IsAtInfinity', B1(lambda A: g0(A.p)))
def c_clone(ex, c): c.setme(c.val(0))
S('ECPoint::Clone', c_clone)
def c_setinf(ex, c): c.setme(G(P(0)))
S('ECPoint::SetInfinity', c_setinf)
S('GetPointAtInfinity', lambda ex, c: G(P(0)))
def c_vecmul2(ex, c):
    A, a = c.val(0), c.val(1)
    i = fresh_atom('i')
    if decide(eq(A.n, a.n)) is not True: return NotImplemented
    return G(psum(A.n, i, vget(A, P(i)).p * vget(a, P(i))))
S('ECPointVectorMul ECPoint (const std::vector<ECPoint> &, std::vector<BigInt> &)', c_vecmul2)
def c_vecmul4(ex, c):
    A, a, s, e = c.val(0), c.val(1), c.val(2), c.val(3)
    i = fresh_atom('i')
    if decide(band(le(s, e), le(e, A.n), le(e, a.n))) is not True: return NotImplemented
    return G(psum(e - s, i, vget(A, s + P(i)).p * vget(a, s + P(i))))
S('ECPointVectorMul ECPoint (const std::vector<ECPoint> &, std::vector<BigInt> &, size_t, size_t)', c_vecmul4)

def silent(ex, c): return None
NOOP = []
for k in ('BigInt::Print', 'BigInt::PrintInDec', 'ECPoint::Print', 'PrintSplitLine', 'PrintBigIntVector', 'PrintECPointVector', 'Block::PrintBlocks',
          'Block::PrintBlock', 'PrintBytes', 'EC25519Point::Print', 'CRYPTO_CHECK', 'PrintBlocks'):
    CONTRACTS[k] = silent
    NOOP.append(k)
