from props.common import *
import contracts, re
from contracts import SPEC
from interp import Call, CONTRACTS, qt0, norm_type
HARNESS = ['p01.cpp']
INC = ['crypto/setup.hpp', 'crypto/ec_point.hpp', 'crypto/ec_25519.hpp', 'commitment/pedersen.hpp']
def prog(): return program(['crypto/setup.hpp', 'commitment/pedersen.hpp'])
PRELOAD = [prog]
ASSUMPTIONS = ['OpenSSL BN_*/EC_POINT_* functions meet their documentation (contracts in engine/externals.py) and do not fail for lack of memory',
               'moduli are positive; shift amounts and bit indices are non-negative and applied to non-negative numbers; exponents are non-negative; inverses are taken of units']
MODARG = {'Mod': 0, 'operator%': 0, 'operator%=': 0, 'ModAdd': 1, 'ModSub': 1, 'ModMul': 1, 'ModExp': 1, 'ModSquare': 0, 'ModInverse': 0, 'ModSquareRoot': 0, 'ModNegate': 0}
NONNEG = {'Rshift', 'operator>>', 'operator>>=', 'GetLastNBits', 'IsBitSet', 'GetTheNthBit', 'Lshift', 'operator<<', 'operator<<='}
def decls(key):
    name = key.split(' ')[0] if ' ' in key else key
    sig = key[len(name):].strip()
    out = []
    p = prog()
    for d in p.by_name.get(name, ()):
        if sig and re.sub(r'\s', '', sig) != re.sub(r'\s', '', qt0(d)): continue
        if not any(e['id'] == d['id'] for e in out): out.append(d)
    return out
def args_for(r, d, method):
    vals = []
    for i, t in enumerate(r.ptypes(d)):
        t = norm_type(t)
        if t == 'BIGNUM*': vals.append(Ptr(r.ex.new_cell(r.sym('BigInt', 'a%d' % i), 'bn'), (('bn', None),)))
        elif t == 'EC_POINT*': vals.append(Ptr(r.ex.new_cell(r.sym('ECPoint', 'a%d' % i), 'pt'), (('bn', None),)))
        else: vals.append(r.sym(t, 'a%d' % i))
    return vals
def pre(r, key, me, vals):
    m = key.split(' ')[0].split('::')[-1]
    if m in MODARG and MODARG[m] < len(vals): r.assume(lt(0, vals[MODARG[m]]))
    if m in NONNEG:
        r.assume(le(0, vals[0]))
        if isinstance(me, Poly): r.assume(le(0, me))
    if m in ('Exp',): r.assume(le(0, vals[0]))
    if m in ('ModExp',): r.assume(le(0, vals[0]))
    if m == 'GenRandomBigIntLessThan' and isinstance(vals[0], Poly): r.assume(lt(0, vals[0]))
    if m == 'GenRandomBigIntBetween': r.assume(lt(vals[0], vals[1]))
    if key.startswith('ECPointVectorMul'):
        r.assume(eq(vals[0].n, vals[1].n)) if len(vals) == 2 else r.assume(band(le(0, vals[2]), le(vals[2], vals[3]), le(vals[3], vals[0].n), le(vals[3], vals[1].n)))
def discharge(key, alias=False):
    """the body of the function meets its contract; operands are framed"""
    def f(t, ctx):
        ds = decls(key)
        if not ds: raise vc.Missing('function %s not found' % key)
        for d in ds:
            res = []
            for mode in ('contract', 'body'):
                r = Run(t, prog())
                q = r.prog.qual[d['id']]
                cls = q.split('::')[0] if '::' in q else None
                method = cls in ('BigInt', 'ECPoint')
                me = r.sym(cls, 'self') if method else None
                this = r.cell(me) if method else None
                vals = args_for(r, d, method)
                types = [norm_type(x) for x in r.ptypes(d)]
                cells = []
                for v, ty in zip(vals, types):
                    if alias and ty == cls: cells.append(this); continue
                    cells.append(r.cell(v))
                vals = [r.get(c) for c in cells]
                pre(r, key, me, vals)
                r.ex.activate()
                al = [('l', c) for c in cells]
                if mode == 'contract':
                    out = SPEC[key](r.ex, Call(r.ex, d, al, this))
                    if out is NotImplemented: raise Unsupported('contract not applicable')
                else:
                    r.ex.skip_contract = {key}
                    out = r.ex.call_decl(d, al, this=this)
                    t.functions.add(q)
                isref = isinstance(out, Ref)
                if isref:
                    if mode == 'body': t.result('%s returns a reference to the object' % q, True if out.l[0] == this[0] else None, None)
                    out = r.ex.load(out.l)
                if isinstance(out, B): out = to_int(out)
                res.append((out, r.get(this) if method else None, [r.get(c) for c in cells], r))
            (o1, m1, a1, _), (o2, m2, a2, r) = res
            nm = q + ('' if len(ds) == 1 else ' ' + qt0(d)) + (' (aliased operands)' if alias else '')
            if o1 is not None: r.prove_eq(nm + ': result', o2, o1)
            if method: r.prove_eq(nm + ': object afterwards', m2, m1)
            for i, (x, y) in enumerate(zip(a1, a2)):
                if isinstance(x, Ptr): x, y = r.ex.load(x.lv()), r.ex.load(y.lv())
                r.prove_eq(nm + ': operand %d afterwards' % i, y, x)
            r.no_abort(nm); r.finish()
    return f
def ctors(t, ctx):
    p = prog()
    for cls in ('BigInt', 'ECPoint'):
        for d in p.by_name.get(cls + '::' + cls, ()):
            r = Run(t, p); ts = [norm_type(x) for x in r.ptypes(d)]
            vals = args_for(r, d, True)
            cells = [r.cell(v) for v in vals]
            this = r.cell(P(app('old')) if cls == 'BigInt' else G(P(app('G:old'))))
            r.ex.call_decl(d, [('l', c) for c in cells], this=this, inline=True); t.functions.add(cls + '::' + cls)
            want = P(0) if cls == 'BigInt' else G(P(0))
            if len(ts) == 1: want = r.ex.load(vals[0].lv()) if isinstance(vals[0], Ptr) else vals[0]
            if len(ts) == 2: want = G(P(app('G:affine', *vals)))
            r.prove_eq('%s(%s): value of the new object' % (cls, ', '.join(ts)), r.get(this), want)
            for i, c in enumerate(cells):
                if not isinstance(vals[i], Ptr): r.prove_eq('%s(%s): operand %d unchanged' % (cls, ', '.join(ts), i), r.get(c), vals[i])
            r.finish()
VEC = [('BigIntVectorModAdd', lambda a, b, m: mod(a + b, m), 3), ('BigIntVectorModSub', lambda a, b, m: mod(a - b, m), 3), ('BigIntVectorModProduct', lambda a, b, m: mod(a * b, m), 3),
       ('BigIntVectorProduct', lambda a, b: a * b, 2)]
def vec2(name, spec, n):
    def f(t, ctx):
        r = Run(t, prog())
        N = r.sym('size_t', 'N')
        i = fresh_atom('i'); a = Vec(N, i, P(app('a', P(i)))); i2 = fresh_atom('i'); b = Vec(N, i2, P(app('b', P(i2))))
        m = r.sym('BigInt', 'm'); r.assume(lt(0, m))
        ca, cb = r.cell(a), r.cell(b)
        v = r.call(name, ca, cb, *([m] if n == 3 else []))
        chk(r, name, v, N, lambda j: spec(*([P(app('a', j)), P(app('b', j)), m][:n])))
        r.prove_eq(name + ': first operand unchanged', r.get(ca), a); r.prove_eq(name + ': second operand unchanged', r.get(cb), b)
        v2 = r.call(name, ca, ca, *([m] if n == 3 else []))
        chk(r, name + ' (aliased)', v2, N, lambda j: spec(*([P(app('a', j)), P(app('a', j)), m][:n])))
        r.no_abort(name); r.finish()
    return f
def chk(r, name, v, N, spec):
    r.prove(name + ': length', eq(v.n, N))
    j = fresh('j'); pc = (le(0, j), lt(j, N))
    st = r.ex.st.pc; r.ex.st.pc = st + pc
    x, y = vget(v, j), spec(j)
    r.prove(name + ': every element', X.val_eq(x, y))
    r.ex.st.pc = st
def vec1(t, ctx):
    r = Run(t, prog())
    N = r.sym('size_t', 'N'); i = fresh_atom('i'); a = Vec(N, i, P(app('a', P(i)))); c = r.sym('BigInt', 'cc'); m = r.sym('BigInt', 'm'); r.assume(lt(0, m))
    A = lambda j: P(app('a', j))
    chk(r, 'BigIntVectorModScalar', r.call('BigIntVectorModScalar', a, c, m), N, lambda j: mod(A(j) * c, m))
    chk(r, 'BigIntVectorScalar', r.call('BigIntVectorScalar', a, c), N, lambda j: A(j) * c)
    chk(r, 'BigIntVectorModNegate', r.call('BigIntVectorModNegate', a, m), N, lambda j: mod(-A(j), m))
    chk(r, 'BigIntVectorModInverse', r.call('BigIntVectorModInverse', a, m), N, lambda j: X.modinv(A(j), m))
    r.no_abort('no abort'); r.finish()
def inner(t, ctx):
    for name in ('BigIntVectorModInnerProduct', 'BigIntVectorInnerProduct'):
        r = Run(t, prog())
        N = r.sym('size_t', 'N'); i = fresh_atom('i'); a = Vec(N, i, P(app('a', P(i)))); i2 = fresh_atom('i'); b = Vec(N, i2, P(app('b', P(i2)))); m = r.sym('BigInt', 'm'); r.assume(lt(0, m))
        k = fresh_atom('k')
        r.prove_eq(name, r.call(name, a, b, m), mod(psum(N, k, P(app('a', P(k))) * P(app('b', P(k)))), m))
        r.no_abort(name); r.finish()
def ptvec(t, ctx):
    r = Run(t, prog())
    N = r.sym('size_t', 'N'); i = fresh_atom('i'); A = Vec(N, i, G(P(app('G:A', P(i))))); i2 = fresh_atom('i'); Bv = Vec(N, i2, G(P(app('G:B', P(i2))))); i3 = fresh_atom('i'); a = Vec(N, i3, P(app('a', P(i3)))); c = r.sym('BigInt', 'cc')
    gA = lambda j: G(P(app('G:A', j))); gB = lambda j: G(P(app('G:B', j)))
    chk(r, 'ECPointVectorAdd', r.call('ECPointVectorAdd', A, Bv), N, lambda j: gA(j) + gB(j))
    chk(r, 'ECPointVectorScalar', r.call('ECPointVectorScalar', A, c), N, lambda j: gA(j) * c)
    chk(r, 'ECPointVectorProduct', r.call('ECPointVectorProduct', A, a), N, lambda j: gA(j) * P(app('a', j)))
    r.no_abort('no abort'); r.no_race('no data race in the parallel loops'); r.finish()
def randoms(t, ctx):
    r = Run(t, prog())
    N = r.sym('size_t', 'N'); m = r.sym('BigInt', 'm'); r.assume(lt(0, m))
    v = r.call('GenRandomBigIntVectorLessThan', N, m)
    r.prove('vector of random numbers: length', eq(v.n, N))
    j = fresh('j'); st = r.ex.st.pc; r.ex.st.pc = st + (le(0, j), lt(j, N)); x = vget(v, j)
    is_fresh(r, 'vector of random numbers: every element a draw below the modulus', x, m)
    j2 = fresh('j'); t.result('vector of random numbers: draws of different positions are independent', True if vget(v, j) != vget(v, j2) else False, None)
    r.ex.st.pc = st
    v = r.call('GenRandomECPointVector', N)
    r.prove('vector of random points: length', eq(v.n, N))
    r.ex.st.pc = st + (le(0, j), lt(j, N)); x = vget(v, j).p
    is_fresh(r, 'random point: exponent is 1 plus a draw below q-1', x - 1, Q - 1)
    r.prove('random point is not the identity (exponent strictly between 0 and the order)', band(lt(0, x), lt(x, Q)), extra=(le(0, x - 1), lt(x - 1, Q - 1)))
    r.ex.st.pc = st
    g1 = r.call('GenRandomGenerator'); g2 = r.call('GenRandomECPoint')
    is_fresh(r, 'random generator', g1.p - 1, Q - 1); is_fresh(r, 'random curve point', g2.p - 1, Q - 1)
    t.result('two random points are independent', True if g1 != g2 else False, None)
    r.finish()
def strings(t, ctx):
    """byte-string conversions of numbers"""
    r = Run(t, prog())
    b = r.sym('std::string', 's'); x = r.cell(P(app('old')))
    r.call('BigInt::FromByteString', b, sig='void(conststd::string&)', this=x)
    r.prove_eq('FromByteString(string) is the big-endian value', r.get(x), X.dec_bn(b))
    bv = r.sym('std::vector<unsigned char>', 'v'); y = r.cell(P(app('old')))
    r.call('BigInt::FromByteVector', bv, this=y)
    r.prove_eq('FromByteVector is the big-endian value', r.get(y), X.dec_bn(bv))
    a = r.sym('BigInt', 'a'); r.assume(band(le(0, a), lt(a, P(1 << 256))))
    s = r.call('BigInt::ToByteVector', P(32), this=r.cell(a))
    r.prove_eq('ToByteVector is the padded big-endian encoding', s, X.enc_bn(a, P(32)))
    z = r.cell(P(app('old'))); r.call('BigInt::FromByteVector', s, this=z)
    r.prove_eq('ToByteVector / FromByteVector round trip', r.get(z), a)
    s2 = r.call('BigInt::ToByteString', this=r.cell(a), n=0)
    w = r.cell(P(app('old'))); r.call('BigInt::FromByteString', s2, sig='void(conststd::string&)', this=w)
    r.prove_eq('ToByteString / FromByteString round trip', r.get(w), a)
    u = r.sym('BigInt', 'u'); r.assume(band(le(0, u), lt(u, P(1 << 64))))
    r.prove_eq('ToUint64 is the value below 2^64', r.call('BigInt::ToUint64', this=r.cell(u)), u)
    r.finish()
def tasks(tier):
    ts = [Task('contract.' + k, discharge(k)) for k in SPEC]
    ts += [Task('contract.alias.' + k, discharge(k, True)) for k in SPEC if k.split('::')[0] in ('BigInt', 'ECPoint') and any(norm_type(x) == k.split('::')[0] for d in decls(k) for x in [qt0(c) for c in d.get('inner', ()) if c.get('kind') == 'ParmVarDecl'])]
    ts += [Task('constructors', ctors)] + [Task('vector.' + n, vec2(n, s, k)) for n, s, k in VEC] + [Task('vector.scalar', vec1), Task('vector.inner-product', inner), Task('vector.points', ptvec), Task('random', randoms), Task('byte-strings', strings)]
    return ts
