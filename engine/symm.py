"""Contracts of the symmetric layer (AES, PRG, hash-to-point), used at call sites by the protocol properties.
Discharged against the bodies by P04 (AES, PRG) / P19 (hash-to-point) unless said otherwise."""
from terms import *
from values import *
from interp import CONTRACTS
import externals as X
from externals import GLOBALS, mem_read, EXT, bfun, REBUILD

# AES instructions as documented: aesenc(x,k) = MC(SR(SB(x)))^k etc.; MC/IMC are GF(2)-linear and mutually inverse
def lin(name, inv):
    def f(x):
        r = R0
        for mon in x.t:
            m = Ring2(frozenset([mon]))
            a = m.atom() if mon else None
            if a is not None and a.name == inv: r = r ^ a.args[0]
            else: r = r ^ R(app(name, m))
        return r
    return f
MC = lin('aesMC', 'aesIMC'); IMC = lin('aesIMC', 'aesMC')
def SB(x):
    a = x.atom()
    return a.args[0] if a is not None and a.name == 'aesISB' else R(app('aesSB', x))
def ISB(x):
    a = x.atom()
    return a.args[0] if a is not None and a.name == 'aesSB' else R(app('aesISB', x))
RREBUILD.update({'aesMC': MC, 'aesIMC': IMC, 'aesSB': SB, 'aesISB': ISB})
bfun('_mm_aesenc_si128', lambda a, k: MC(SB(a)) ^ k)
bfun('_mm_aesenclast_si128', lambda a, k: SB(a) ^ k)
bfun('_mm_aesdec_si128', lambda a, k: IMC(ISB(a)) ^ k)
bfun('_mm_aesdeclast_si128', lambda a, k: ISB(a) ^ k)
bfun('_mm_aesimc_si128', lambda a: IMC(a))
def kg(ex, args, n):
    a = X.toblk(ex.rv(args[0])); i = ex.rv(args[1])
    return R(app('aeskeygen', a, P(i)))
EXT['__builtin_ia32_aeskeygenassist128'] = kg
EXT['_mm_aeskeygenassist_si128'] = kg
for b in ('__builtin_ia32_shufps', '__builtin_ia32_pshufd', '__builtin_ia32_psrldqi128_byteshift', '__builtin_ia32_pslldqi128_byteshift'):
    EXT[b] = (lambda b: lambda ex, args, n: R(app(b, *[X.toblk(ex.rv(a)) for a in args])))(b)

def genkey(salt):
    i = fresh_atom('i')
    return Struct('AES::Key', {'roundkey': Vec(P(11), i, R(app('aesrk', salt, P(i)))), 'ROUND_NUM': P(10)})
def key_salt(key):
    """the salt a well-formed encryption key was expanded from"""
    rk = key.f['roundkey']
    if key.f['ROUND_NUM'] != P(10): return None
    salt = None
    for i in range(11):
        x = vget(rk, P(i))
        a = x.atom() if isinstance(x, Ring2) else None
        if a is None or a.name != 'aesrk' or a.args[1] != P(i): return None
        if salt is None: salt = a.args[0]
        elif salt != a.args[0]: return None
    return salt
def aes(salt, x):
    for mon in salt.t:
        for a in mon:
            if a.name == 'spread':
                c = a.args[0]
                r1 = Ring2(_assume(salt, a, True)); r0 = Ring2(_assume(salt, a, False))
                return rite(c, aes(r1, x), aes(r0, x))
    return R(app('aesE', salt, x))
def _assume(r, a, v):
    t = set()
    for mon in r.t:
        if a in mon:
            if v: t ^= {mon - {a}}
        else: t ^= {mon}
    return t
RREBUILD['aesE'] = aes
def C(k):
    def d(f): CONTRACTS[k] = f; SYMM[k] = f; return f
    return d
SYMM = {}
@C('AES::GenEncKey')
def c_genkey(ex, c): return genkey(c.val(0))
@C('AES::Enc')
def c_enc(ex, c):
    s = key_salt(c.val(0))
    if s is None: return NotImplemented
    ex.store(c.lv(1), aes(s, ex.load(c.lv(1))))
def block_array(ex, p):
    """(container lvalue, start index) of a block pointer"""
    if not isinstance(p, Ptr): return None
    lv = p.lv()
    if lv[1] and lv[1][-1][0] == 'i': return (lv[0], lv[1][:-1]), lv[1][-1][1]
    v = ex.load(lv)
    return (lv, P(0)) if isinstance(v, Vec) else (lv, None)
def map_blocks(ex, key, src, n, dst, f=aes):
    s = key_salt(key)
    if s is None: return NotImplemented
    if P(n).is_zero(): return None
    a, i0 = block_array(ex, src); b, j0 = block_array(ex, dst)
    if i0 is None or j0 is None:
        if P(n) == P(1): ex.store(dst.lv(), f(s, ex.load(src.lv()))); return None
        return NotImplemented
    va = ex.load(a); vb = ex.load(b)
    if not isinstance(va, Vec) or not isinstance(vb, Vec): return NotImplemented
    k = fresh_atom('i')
    if P(n).is_const() and P(n).const() <= 64:
        vals = [f(s, vget(va, i0 + j)) for j in range(P(n).const())]
        for j, x in enumerate(vals): vb = vset(vb, j0 + j, x)
        ex.store(b, vb)
        return None
    pc = ex.st.pc; ex.assume(band(le(0, P(k)), lt(P(k), n)))
    x = f(s, vget(va, i0 + P(k)))
    ex.st.pc = pc
    ex.store(b, vrange(vb, j0, n, k, x))
@C('AES::ECBEnc')
def c_ecb(ex, c): return map_blocks(ex, c.val(0), c.val(1), c.val(2), c.val(1))
@C('AES::FastECBEnc')
def c_fecb(ex, c):
    d = c.val(3) if len(c) > 3 else NULL
    return map_blocks(ex, c.val(0), c.val(1), c.val(2), c.val(1) if isinstance(d, Null) else d)
@C('PRG::ReSeed')
def c_reseed(ex, c):
    salt = c.val(1)
    b = X.dec_blk(mem_read(ex, salt, P(16), X.pt_elem(ex, salt)))
    key = genkey(b ^ X.mkblk(P(0), P(c.val(2)) if len(c) > 2 else P(0)))
    ex.store(c.lv(0), Struct('PRG::Seed', {'counter': P(0), 'aes_key': key}))
@C('PRG::SetSeed')
def c_setseed(ex, c):
    salt = c.val(0) if len(c) > 0 else NULL
    ident = P(c.val(1)) if len(c) > 1 else P(0)
    if isinstance(salt, Null):
        ex.extra['nrnd'] = ex.extra.get('nrnd', 0) + 1
        b = R(app('rndblk', '%s%d' % (ex.extra.get('who', ''), ex.extra['nrnd']), *ex.loopk))
    elif isinstance(salt, Ptr): b = X.dec_blk(mem_read(ex, salt, P(16), X.pt_elem(ex, salt)))
    else: return NotImplemented
    return Struct('PRG::Seed', {'counter': P(0), 'aes_key': genkey(b ^ X.mkblk(P(0), ident))})
def prg_block(salt, n): return aes(salt, X.mkblk(P(0), n))
@C('PRG::GenRandomBlocks')
def c_genblocks(ex, c):
    seed = c.val(0); n = P(c.val(1))
    s = key_salt(seed.f['aes_key'])
    if s is None: return NotImplemented
    i = fresh_atom('i')
    ex.store(c.lv(0), seed.set('counter', seed.f['counter'] + n))
    return Vec(n, i, prg_block(s, seed.f['counter'] + P(i)))
@C('Hash::StringToECPoint')
def c_s2p(ex, c): return G(P(app('G:hp', c.val(0))))
@C('Hash::BlockToECPoint')
def c_b2p(ex, c): return G(P(app('G:hb', c.val(0))))
GLOBALS['AES::fixed_enc_key'] = lambda ex: genkey(R0)

# ------------------------------------------------------------------ bits of blocks
# bit q of a block as an all-ones/all-zero block, and the block with given bits: both are Boolean-ring homomorphisms
def bitp(x, q):
    r = R0
    for mon in x.t:
        f = R1
        for a in mon:
            if a.name in ('spread', 'bit'): f = f & R(a)
            elif a.name == 'pack': f = f & open_b(a.args[0], a.args[1], q)
            else: f = f & R(app('bit', R(a), q))
        r = r ^ f
    return r
def pack(k, x):
    r = R0
    for mon in x.t:
        f = R1
        for a in mon:
            if not occurs(k, a): f = f & R(a); continue
            if a.name == 'bit' and a.args[1] == P(k) and not occurs(k, a.args[0]): f = f & a.args[0]; continue
            b, d = close(R(a), k); f = f & R(app('pack', b, d))
        r = r ^ f
    return r
def _rb_pack(b, d):
    k = fresh_atom('k'); return pack(k, open_b(b, d, P(k)))
RREBUILD['pack'] = _rb_pack; RREBUILD['bit'] = bitp
def exact(ex, p, c):
    """p / c when that is exact"""
    r = fdiv(p, P(c))
    return r if r * c == p else None
@C('Block::FromSparseBytes')
def c_sparse(ex, c):
    """bit i of the packed blocks is set iff byte i of the sparse form is not 0"""
    n = P(c.val(3))
    if P(c.val(1)) != n * 128: return NotImplemented
    src = c.val(0); lv = src.lv(); i0 = P(0)
    if lv[1] and lv[1][-1][0] == 'i': i0 = lv[1][-1][1]; lv = (lv[0], lv[1][:-1])
    v = ex.load(lv)
    if isinstance(v, Bytes): v = bytes_to_vec(v)
    if not isinstance(v, Vec): return NotImplemented
    d, j0 = block_array(ex, c.val(2))
    if j0 is None: return NotImplemented
    i = fresh_atom('i'); q = fresh_atom('q'); pc = ex.st.pc
    ex.assume(band(le(0, P(i)), lt(P(i), n), le(0, P(q)), lt(P(q), 128)))
    x = pack(q, spread(bnot(eq0(to_int(vget(v, i0 + P(i) * 128 + P(q)))))))
    ex.st.pc = pc
    ex.store(d, vrange(ex.load(d), j0, n, i, x))
@C('BitMatrixTranspose')
def c_transpose(ex, c):
    """output bit (c,r) is input bit (r,c); contract for shapes that are multiples of 128"""
    rows, cols = P(c.val(1)), P(c.val(2))
    a, b = exact(ex, rows, 128), exact(ex, cols, 128)
    if a is None or b is None: return NotImplemented
    s, i0 = block_array(ex, c.val(0)); d, j0 = block_array(ex, c.val(3))
    if i0 is None or j0 is None or not i0.is_zero(): return NotImplemented
    v = ex.load(s)
    if not isinstance(v, Vec): return NotImplemented
    r = fresh_atom('r'); g = fresh_atom('g'); q = fresh_atom('q'); pc = ex.st.pc
    ex.assume(band(le(0, P(r)), lt(P(r), cols), le(0, P(g)), lt(P(g), a), le(0, P(q)), lt(P(q), 128)))
    ex.assume(band(le(0, fdiv(P(r), P(128))), lt(fdiv(P(r), P(128)), b)))
    x = pack(q, bitp(vget(v, (P(g) * 128 + P(q)) * b + fdiv(P(r), P(128))), mod(P(r), P(128))))
    ex.st.pc = pc
    i = fresh_atom('i')
    x = subst(x, {r: fdiv(P(i), a), g: mod(P(i), a)})
    ex.store(d, vrange(ex.load(d), j0, cols * a, i, x))
@C('Hash::FastBlocksToBlock')
def c_fbh(ex, c):
    v = c.val(0)
    if not isinstance(v, Vec): return NotImplemented
    i = fresh_atom('i'); pc = ex.st.pc; ex.assume(band(le(0, P(i)), lt(P(i), v.n)))
    x = vget(v, P(i)); ex.st.pc = pc
    b, d = close(x, i)
    return R(app('fbh', v.n, b, d))
def _rb_fbh(n, b, d):
    i = fresh_atom('i'); x, d = close(open_b(b, d, P(i)), i); return R(app('fbh', n, x, d))
RREBUILD['fbh'] = _rb_fbh
@C('PRG::GenRandomBits')
def c_bits(ex, c):
    seed = c.val(0); n = P(c.val(1)); s = key_salt(seed.f['aes_key'])
    if s is None: return NotImplemented
    cnt = seed.f['counter']; i = fresh_atom('i')
    ex.store(c.lv(0), seed.set('counter', cnt + fdiv(n + 15, P(16))))
    return Vec(n, i, ite(bapp('prgbit', s, cnt, P(i)), P(1), P(0)))
