from props.common import *
from interp import CONTRACTS
import externals as X, symm, llvm, z3
HARNESS = ['p04.cpp']
INC = ['crypto/setup.hpp', 'crypto/prg.hpp', 'crypto/aes.hpp', 'crypto/otp.hpp']
def prog(): return program(INC)
PRELOAD = [prog]
ASSUMPTIONS = ['AES instructions behave as documented (aesenc/aesdec built from mutually inverse ShiftRows/SubBytes and linear MixColumns); agreement with AES-128 itself is compared against OpenSSL by the harness',
 'byte and block counts below 2^53 where the code computes them in floating point',
 'word-level routines: LLVM IR of clang -O1 from the current tree, bit-precise in z3']

# ------------------------------------------------------------------ word level (LLVM IR, bit-precise)
CODE = r'''
extern "C" void f_set(block*a,size_t n){ Block::SetBit(*a,n); }
extern "C" void f_clr(block*a,size_t n){ Block::ClearBit(*a,n); }
extern "C" void f_mask(block*a,size_t n){ *a=Block::GenMaskBlock(n); }
extern "C" bool f_less(block*a,block*b){ return Block::IsLessThan(*a,*b); }
extern "C" bool f_cmp(block*a,block*b){ return Block::Compare(*a,*b); }
extern "C" void f_mk(block*a,uint64_t h,uint64_t l){ *a=Block::MakeBlock(h,l); }
extern "C" int64_t f_lo(block*a){ return Block::BlockToInt64(*a); }
extern "C" void f_sparse(const uint8_t*in,size_t n,block*out,size_t m){ Block::FromSparseBytes(in,n,out,m); }
extern "C" void f_tr(const uint8_t*in,uint64_t r,uint64_t c,uint8_t*out){ BitMatrixTranspose(in,r,c,out); }
extern "C" uint32_t f_up(uint32_t x){ return upperpower2(x); }
extern "C" bool f_p2(size_t x){ return IsPowerOfTwo(x); }
'''
_ir = {}
def ir():
    if 'm' not in _ir: _ir['m'] = llvm.Mod(llvm.compile_ir(['crypto/block.hpp', 'utility/bit_operation.hpp', 'utility/routines.hpp'], CODE))
    return _ir['m']
def call(M, f, *a):
    r = M.run('@' + f, list(a))
    if r[0] == 'dead': raise vc.Aborts('the routine aborts')
    return r[1]
def zp(t, name, goal, hyps=()):
    st, d = llvm.valid(goal, hyps)
    t.result(name, st, d)
def i128(bs): return z3.Concat(*[llvm.bv(b, 8) for b in reversed(bs)])
def mask(n): return z3.LShR(z3.BitVecVal(1 << 127, 128), z3.ZeroExt(64, n))
def bit_ops(t, ctx):
    t.functions |= {'Block::GenMaskBlock', 'Block::SetBit', 'Block::ClearBit'}
    for f, spec, nm in (('f_set', lambda a, m: a | m, 'SetBit sets exactly bit n'), ('f_clr', lambda a, m: a & ~m, 'ClearBit clears exactly bit n'), ('f_mask', lambda a, m: m, 'GenMaskBlock is the block with exactly bit n')):
        M = llvm.Mach(ir()); p, a = llvm.sym_bytes(M, 16, 'a'); n = z3.BitVec('n', 64)
        M.assumed = [z3.ULT(n, 128)]
        call(M, f, p, n)
        zp(t, nm, i128(llvm.out_bytes(M, p, 16)) == spec(i128(a), mask(n)), M.assumed)
def order(t, ctx):
    t.functions |= {'Block::IsLessThan', 'Block::Compare'}
    def lt_(M, x, y): return llvm.bv(call(M, 'f_less', x[0], y[0]), 1) == 1
    M = llvm.Mach(ir()); a, b, c = [llvm.sym_bytes(M, 16, k) for k in 'abc']
    A, B_, C_ = i128(a[1]), i128(b[1]), i128(c[1])
    ab, ba, aa, bc, ac = lt_(M, a, b), lt_(M, b, a), lt_(M, a, a), lt_(M, b, c), lt_(M, a, c)
    zp(t, 'the block order is irreflexive', z3.Not(aa))
    zp(t, 'two blocks are incomparable exactly when equal', z3.Not(z3.Or(ab, ba)) == (A == B_))
    zp(t, 'the block order is asymmetric', z3.Not(z3.And(ab, ba)))
    zp(t, 'the block order is transitive', z3.Implies(z3.And(ab, bc), ac))
    zp(t, 'Compare of two blocks is equality', (llvm.bv(call(M, 'f_cmp', a[0], b[0]), 1) == 1) == (A == B_))
def make(t, ctx):
    t.functions |= {'Block::MakeBlock', 'Block::BlockToInt64'}
    M = llvm.Mach(ir()); p = M.new(16, 'o'); h, l = z3.BitVec('h', 64), z3.BitVec('l', 64)
    call(M, 'f_mk', p, h, l)
    zp(t, 'MakeBlock puts the words in order', i128(llvm.out_bytes(M, p, 16)) == z3.Concat(h, l))
    zp(t, 'BlockToInt64 returns the low word', llvm.bv(call(M, 'f_lo', p), 64) == l)
def sparse(m):
    def f(t, ctx):
        t.functions.add('Block::FromSparseBytes')
        M = llvm.Mach(ir()); p, a = llvm.sym_bytes(M, 128 * m, 'in'); q = M.new(16 * m, 'o')
        call(M, 'f_sparse', p, 128 * m, q, m)
        o = llvm.out_bytes(M, q, 16 * m)
        g = [z3.Extract(i % 8, i % 8, o[i // 8]) == z3.If(a[i] != 0, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)) for i in range(128 * m)]
        zp(t, 'bit i of the packed blocks is byte i of the sparse form', z3.And(*g))
    return f
def transpose(shapes):
    def f(t, ctx):
        t.functions.add('BitMatrixTranspose')
        for R_, C_ in shapes:
            nm = 'output bit (c,r) is input bit (r,c) for a %dx%d matrix' % (R_, C_)
            M = llvm.Mach(ir()); n = R_ * C_ // 8
            p, a = llvm.sym_bytes(M, n, 'in'); q = M.new(n, 'o')
            try: call(M, 'f_tr', p, R_, C_, q)
            except llvm.U as e:
                t.result(nm, False if 'out-of-bounds' in str(e) else None, str(e)); continue
            o = llvm.out_bytes(M, q, n)
            bit = lambda v, i: z3.Extract(i % 8, i % 8, v[i // 8])
            zp(t, nm, z3.And(*[bit(o, c * R_ + r) == bit(a, r * C_ + c) for r in range(R_) for c in range(C_)]))
    return f
def words(t, ctx):
    t.functions |= {'upperpower2', 'IsPowerOfTwo'}
    M = llvm.Mach(ir()); x = z3.BitVec('x', 32); r = llvm.bv(call(M, 'f_up', x), 32)
    rng = [z3.UGE(x, 1), z3.ULE(x, 1 << 31)]
    zp(t, 'upperpower2 is a power of two', z3.And(r != 0, (r & (r - 1)) == 0), rng)
    zp(t, 'upperpower2 is the smallest power of two not below x', z3.And(z3.UGE(r, x), z3.ULT(z3.LShR(r, 1), x)), rng)
    y = z3.BitVec('y', 64); b = llvm.bv(call(M, 'f_p2', y), 1) == 1
    zp(t, 'IsPowerOfTwo accepts exactly the powers of two', b == z3.Or(*[y == (1 << i) for i in range(64)]))

# ------------------------------------------------------------------ AES / PRG / OTP (terms)
class NoContracts:
    """discharge the symmetric contracts themselves: their bodies, not the contracts, are executed"""
    def __init__(self, *keep): self.keep = keep
    def __enter__(self):
        self.old = {k: CONTRACTS.pop(k) for k in list(symm.SYMM) if k in CONTRACTS and k not in self.keep}
    def __exit__(self, *a): CONTRACTS.update(self.old)
class Without(NoContracts):
    def __init__(self, *drop): self.drop = drop
    def __enter__(self): self.old = {k: CONTRACTS.pop(k) for k in self.drop if k in CONTRACTS}
def symkey(name='rk'):
    i = fresh_atom('i'); return Struct('AES::Key', {'roundkey': Vec(P(11), i, R(app(name, P(i)))), 'ROUND_NUM': P(10)})
def blk(name): return R(app(name))
def aes_single(t, ctx):
    with NoContracts():
        r = Run(t, prog()); k = symkey(); d = r.cell(blk('x'))
        dk = r.call('AES::DeriveDecKeyFromEncKey', k)
        r.call('AES::Enc', k, d); r.call('AES::Dec', dk, d)
        r.prove_eq('Dec inverts Enc for every key schedule and block', r.get(d), blk('x'))
        d2 = r.cell(blk('x')); r.call('AES::Dec', dk, d2); r.call('AES::Enc', k, d2)
        r.prove_eq('Enc inverts Dec', r.get(d2), blk('x'))
        s = blk('salt'); ek = r.call('AES::GenEncKey', s)
        r.prove_eq('the first round key is the salt', vget(ek.f['roundkey'], P(0)), s)
        r.prove('ten rounds', eq(ek.f['ROUND_NUM'], 10))
        r.prove_eq('the expanded key depends on nothing but the salt', r.call('AES::GenEncKey', s), ek)
        gd = r.call('AES::GenDecKey', s); dd = r.call('AES::DeriveDecKeyFromEncKey', ek)
        for j in range(11): r.prove_eq('GenDecKey is the decryption key of GenEncKey (round %d)' % j, vget(gd.f['roundkey'], P(j)), vget(dd.f['roundkey'], P(j)))
        r.finish()
def one(r, k, x, fn='AES::Enc'):
    d = r.cell(x); r.call(fn, k, d); return r.get(d)
def seg_eq(r, name, got, i0, n, spec, before):
    """got[i0+k] == spec(k) for k < n, everything else unchanged"""
    k = fresh_atom('k'); hy = [band(le(0, P(k)), lt(P(k), n))]
    pc = r.ex.st.pc
    r.assume(hy[0]); r.prove_eq(name, vget(got, i0 + P(k)), spec(P(k))); r.ex.st.pc = pc
    j = fresh_atom('j'); r.assume(band(le(0, P(j)), lt(P(j), before.n))); r.assume(bor(lt(P(j), i0), le(i0 + n, P(j))))
    r.prove_eq('blocks outside the range stay unchanged', vget(got, P(j)), vget(before, P(j))); r.ex.st.pc = pc
def ecb(fn, single, key, out=False, dec=False):
    def f(t, ctx):
        with NoContracts():
            r = Run(t, prog()); k = symkey()
            if dec: k = r.call('AES::DeriveDecKeyFromEncKey', k)
            n = r.sym('unsigned long', 'n'); off = r.sym('unsigned long', 'off')
            v = r.sym('std::vector<__m128i>', 'v'); r.assume(le(off + n, v.n)); c = r.cell(v)
            i = fresh_atom('i')
            if out:
                w = r.sym('std::vector<__m128i>', 'w'); r.assume(le(off + n, w.n)); d = r.cell(w)
                r.call(fn, k, Ptr(c[0], (('i', off),)), n, Ptr(d[0], (('i', off),)))
                r.prove_eq('the input stays unchanged', r.get(c), v)
                got, before = r.get(d), w
            else:
                r.call(fn, k, Ptr(c[0], (('i', off),)), n)
                got, before = r.get(c), v
            seg_eq(r, 'every block is processed by %s on its own' % single, got, off, n, lambda kk: one(r, k, vget(v, off + kk), single), before)
            r.no_race('no two iterations touch the same block')
            r.finish()
    return f
def cbc(n):
    def f(t, ctx):
        with NoContracts():
            r = Run(t, prog()); k = symkey(); dk = r.call('AES::DeriveDecKeyFromEncKey', k)
            v = Vec.of_list([blk('x%d' % i) for i in range(n)]); c = r.cell(v)
            r.call('AES::CBCEnc', k, Ptr(c[0], (('i', P(0)),)), P(n))
            prev = None
            for i in range(n):
                prev = one(r, k, blk('x%d' % i) if prev is None else blk('x%d' % i) ^ prev)
                r.prove_eq('CBC chaining, block %d' % i, vget(r.get(c), P(i)), prev)
            r.call('AES::CBCDec', dk, Ptr(c[0], (('i', P(0)),)), P(n))
            for i in range(n): r.prove_eq('CBCDec inverts CBCEnc, block %d' % i, vget(r.get(c), P(i)), blk('x%d' % i))
            r.finish()
    return f
def prg_blocks(t, ctx):
    with NoContracts('AES::FastECBEnc', 'AES::Enc', 'AES::ECBEnc', 'AES::GenEncKey'):
        r = Run(t, prog()); n = r.sym('unsigned long', 'n'); c0 = r.sym('unsigned long', 'c0'); s = blk('salt')
        sd = r.cell(Struct('PRG::Seed', {'counter': c0, 'aes_key': symm.genkey(s)}))
        v = r.call('PRG::GenRandomBlocks', sd, n)
        r.prove('the requested number of blocks', eq(v.n, n))
        k = fresh_atom('k'); pc = r.ex.st.pc; r.assume(band(le(0, P(k)), lt(P(k), n)))
        r.prove_eq('block i is the keyed permutation of (position + i)', vget(v, P(k)), symm.prg_block(s, c0 + P(k))); r.ex.st.pc = pc
        r.prove('the position advances by the number of blocks', eq(r.get(sd).f['counter'], c0 + n))
        r.prove_eq('the key stays unchanged', vget(r.get(sd).f['aes_key'].f['roundkey'], P(3)), vget(symm.genkey(s).f['roundkey'], P(3)))
        r.finish()
def prg_seed(t, ctx):
    with NoContracts('AES::GenEncKey'):
        r = Run(t, prog()); s = blk('s'); idn = r.sym('unsigned long', 'idn'); c = r.cell(s)
        a = r.call('PRG::SetSeed', Ptr(c[0]), idn)
        exp = symm.genkey(s ^ X.mkblk(P(0), idn))
        for j in (0, 5, 10): r.prove_eq('a salted seed is determined by salt and identifier (round key %d)' % j, vget(a.f['aes_key'].f['roundkey'], P(j)), vget(exp.f['roundkey'], P(j)))
        r.prove('a fresh seed starts at position 0', eq(a.f['counter'], 0))
        r.prove('ten rounds', eq(a.f['aes_key'].f['ROUND_NUM'], 10))
        d = r.cell(Struct('PRG::Seed', {'counter': r.sym('unsigned long', 'cc'), 'aes_key': symkey()}))
        r.call('PRG::ReSeed', d, Ptr(c[0]), idn)
        for j in (0, 5, 10): r.prove_eq('reseeding replaces key and position (round key %d)' % j, vget(r.get(d).f['aes_key'].f['roundkey'], P(j)), vget(exp.f['roundkey'], P(j)))
        r.prove('reseeding resets the position', eq(r.get(d).f['counter'], 0))
        r.finish()
def seeded(r):
    s = blk('salt'); c0 = r.sym('unsigned long', 'c0')
    return s, c0, r.cell(Struct('PRG::Seed', {'counter': c0, 'aes_key': symm.genkey(s)}))
def stream_bytes(s, c0, n):
    i = fresh_atom('i'); return brep(n, i, X.enc_blk(symm.prg_block(s, c0 + P(i))))
def prg_bytes(mode):
    def f(t, ctx):
        r = Run(t, prog()); s, c0, sd = seeded(r)
        if mode == 'vec':
            n = r.sym('unsigned long', 'n'); v = r.call('PRG::GenRandomBytes', sd, n, n=2)
        else:
            v0 = r.sym('std::string', 'buf'); n = v0.length(); c = r.cell(v0)
            r.call('PRG::GenRandomBytes', sd, Ptr(c[0], (('i', P(0)),)), n, n=3); v = r.get(c)
        v = v if isinstance(v, Bytes) else X.vec_to_bytes(v)
        r.prove('the requested number of bytes', eq(v.length(), n))
        m = X.ceildiv(n, 16) if hasattr(X, 'ceildiv') else fdiv(n + 15, P(16))
        r.prove('the bytes are the first n bytes of the block stream at the position', beq(v, bslice(stream_bytes(s, c0, m), P(0), n)))
        r.prove('the position advances by the number of blocks used', eq(r.get(sd).f['counter'], c0 + m))
        r.finish()
    return f
def prg_bits(t, ctx):
    r = Run(t, prog()); s, c0, sd = seeded(r); n = r.sym('unsigned long', 'n')
    sd2 = r.cell(r.get(sd))
    with Without('PRG::GenRandomBits'): v = r.call('PRG::GenRandomBits', sd, n)
    r.prove('the position advances by the number of blocks used', eq(r.get(sd).f['counter'], c0 + fdiv(n + 15, P(16))))
    w = r.call('PRG::GenRandomBytes', sd2, n, n=2)
    v = X.bytes_to_vec(v) if isinstance(v, Bytes) else v
    r.prove('the requested number of bits', eq(v.n, n))
    k = fresh_atom('k'); r.assume(band(le(0, P(k)), lt(P(k), n)))
    x = to_int(vget(v, P(k)))
    r.prove('every entry is 0 or 1', bor(eq(x, 0), eq(x, 1)))
    r.prove_eq('every entry is the low bit of the byte stream', x, mod(byte_at(w if isinstance(w, Bytes) else X.vec_to_bytes(w), P(k)), P(2)))
    r.finish()
def prg_matrix(t, ctx):
    r = Run(t, prog()); s, c0, sd = seeded(r); a = r.sym('unsigned long', 'a'); b = r.sym('unsigned long', 'b')
    v = r.call('PRG::GenRandomBitMatrix', sd, a * 128, b * 8)
    r.prove('the matrix has ROW_NUM*COLUMN_NUM bits', eq(v.n * 128, a * 128 * b * 8)); r.finish()
def otp(kind):
    ty = {'vec': 'std::vector<unsigned char>', 'str': 'std::string'}[kind]
    def f(t, ctx):
        r = Run(t, prog()); k = r.cell(blk('key')); m = r.sym(ty, 'm'); mc = r.cell(m)
        sig = 'string' if kind == 'str' else 'vector'
        c = r.call('OTP::Enc', k, mc, sig=sig)
        cc = r.cell(c); d = r.call('OTP::Dec', k, cc, sig=sig)
        r.prove('ciphertext and message have the same length', eq(len_of(c), m.length()))
        eqb(r, 'decryption returns the message', d, m)
        r.prove_eq('the message is not modified', r.get(mc), m)
        if kind == 'vec':
            ks = stream_bytes(blk('key'), P(0), fdiv(m.length() + 15, P(16)))
        r.finish()
    return f
def len_of(c): return c.length() if isinstance(c, Bytes) else c.n
def eqb(r, name, a, b):
    k = fresh_atom('k'); pc = r.ex.st.pc
    r.prove(name + ' (length)', eq(len_of(a), len_of(b)))
    r.assume(band(le(0, P(k)), lt(P(k), len_of(b))))
    g = lambda v: byte_at(v, P(k)) if isinstance(v, Bytes) else vget(v, P(k))
    r.prove_eq(name + ' (every byte)', g(a), g(b)); r.ex.st.pc = pc
def blockvec(fn, spec, nargs=2):
    def f(t, ctx):
        r = Run(t, prog()); a = r.sym('std::vector<__m128i>', 'a')
        if nargs == 2: b = Vec(a.n, None, None); j = fresh_atom('i'); b = Vec(a.n, j, R(app('b', P(j))))
        else: b = blk('b')
        v = r.call(fn, a, b)
        r.prove('length', eq(v.n, a.n))
        k = fresh_atom('k'); r.assume(band(le(0, P(k)), lt(P(k), a.n)))
        r.prove_eq('every element', vget(v, P(k)), spec(vget(a, P(k)), vget(b, P(k)) if nargs == 2 else b)); r.finish()
    return f
def xor_bytes(t, ctx):
    for ty in ('std::vector<unsigned char>', 'std::string'):
        r = Run(t, prog()); a = r.sym(ty, 'a'); b = r.sym(ty, 'b', b=a.length())
        v = r.call('XOR', a, b, sig='string' if 'string' in ty else 'vector')
        r.prove('length', eq(len_of(v), a.length()))
        v2 = r.call('XOR', v, b, sig='string' if 'string' in ty else 'vector')
        eqb(r, 'XOR twice is the identity', v2, a)
        r.finish()
def tasks(tier):
    th = tier == 'thorough'
    T = [Task('word/bits', bit_ops), Task('word/order', order), Task('word/make', make), Task('word/powers', words),
         Task('word/sparse1', sparse(1), bounded='1 block (blocks are independent)'), Task('word/sparse2', sparse(2), bounded='2 blocks')]
    rows = [8, 16, 24, 32, 40, 48] if not th else list(range(8, 136, 8))
    for r_ in rows:
        T.append(Task('word/transpose%d' % r_, transpose([(r_, c) for c in (rows if not th else [8, 16, 24, 32, 64, 128])]), bounded='matrix shapes up to %dx%d, all contents' % (rows[-1], rows[-1])))
    T.append(Task('word/transpose128', transpose([(128, 16), (128, 128)] if not th else [(128, 128), (128, 256), (256, 128)]), bounded='shapes used by the OT extensions, all contents'))
    T += [Task('AES/block', aes_single), Task('AES/ECBEnc', ecb('AES::ECBEnc', 'AES::Enc', 0)), Task('AES/ECBDec', ecb('AES::ECBDec', 'AES::Dec', 0, dec=True)),
          Task('AES/FastECBEnc', ecb('AES::FastECBEnc', 'AES::Enc', 0)), Task('AES/FastECBEnc-out', ecb('AES::FastECBEnc', 'AES::Enc', 0, out=True))]
    T += [Task('AES/CBC%d' % n, cbc(n), bounded='%d blocks, all contents and keys' % n) for n in ((1, 2, 3, 5) if not th else range(1, 17))]
    T += [Task('PRG/blocks', prg_blocks), Task('PRG/seed', prg_seed), Task('PRG/bytes', prg_bytes('vec')), Task('PRG/bytes-buffer', prg_bytes('buf')), Task('PRG/bits', prg_bits), Task('PRG/matrix', prg_matrix)]
    T += [Task('OTP/bytes', otp('vec')), Task('OTP/string', otp('str')), Task('XOR', xor_bytes),
          Task('Block/XOR', blockvec('Block::XOR', lambda a, b: a ^ b)), Task('Block/AND', blockvec('Block::AND', lambda a, b: a & b)), Task('Block/FixXOR', blockvec('Block::FixXOR', lambda a, b: a ^ b, 1))]
    return T
