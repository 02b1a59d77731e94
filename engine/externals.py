"""Trusted contracts of external functions (libc, libstdc++, OpenSSL, SSE/AES intrinsics) and the call dispatcher."""
import re
from terms import *
from values import *
from interp import (norm_type, qt, qt0, targs, is_ref, is_int, is_ptr, is_byte, INT_TYPES, Call, CONTRACTS, where, wrap_const,
                    Frame, _Box, find_first)
import solver

EXT = {}
def ext(*names):
    def d(f):
        for n in names: EXT[n] = f
        return f
    return d

BNLEN = 32
MAXBN = 1 << 256

# ---------------------------------------------------------------- globals
GLOBALS = {
    'order': lambda ex: Ptr(ex.new_cell(Q, 'order'), (('bn', None),)),
    'generator': lambda ex: Ptr(ex.new_cell(G(P(1)), 'gen'), (('bn', None),)),
    'group': Opaque('group'),
    'curve_params_p': lambda ex: Ptr(ex.new_cell(var('field_p'), 'fp'), (('bn', None),)),
    'curve_params_q': lambda ex: Ptr(ex.new_cell(var('field_q'), 'fq'), (('bn', None),)),
    'bn_ctx': Vec(P(8), None, Opaque('ctx')),
    'ec_ctx': Opaque('ctx'),
    'BN_BYTE_LEN': P(BNLEN), 'INT_BYTE_LEN': P(8),
    'POINT_BYTE_LEN': P(2 * BNLEN + 1), 'POINT_COMPRESSED_BYTE_LEN': P(BNLEN + 1),
    'bn_0': P(0), 'bn_1': P(1), 'bn_2': P(2), 'bn_3': P(3),
    'Block::zero_block': R0, 'Block::all_one_block': R1, 'Block::all_zero_block': R0,
}

# ---------------------------------------------------------------- encodings
def enc_le(v, n):
    """n-byte little-endian memory image of an integer"""
    if isinstance(v, B): v = to_int(v)
    if isinstance(v, Ring2): return enc_blk(v)
    v = P(v)
    if v.is_const(): return Bytes(((v.const() % (1 << (8 * n))).to_bytes(n, 'little'),))
    if n == 1: return byte_of(v)
    a = v.atom()
    if a is not None and a.name == 'unle' and a.args[0].length() == P(n): return a.args[0]
    return seg(app('le', v, n), n)
def dec_le(b):
    n = b.length()
    if b.is_const(): return P(int.from_bytes(b.const(), 'little'))
    if len(b.segs) == 1 and isinstance(b.segs[0], tuple) and b.segs[0][0] != 'rep':
        a = b.segs[0][0]
        if a.name == 'le' and P(a.args[1]) == n: return a.args[0]
        if a.name == 'byte': return a.args[0]
        if a.name == 'bite': return ite(a.args[0], dec_le(a.args[1]), dec_le(a.args[2]))
    if n == P(1): return byte_at(b, P(0))
    return P(app('unle', b))
REBUILD['unle'] = dec_le
BREBUILD['le'] = enc_le
def enc_blk(r):
    a = r.atom()
    if a is not None and a.name == 'unblk': return a.args[0]
    if r == R0: return Bytes((bytes(16),))
    if r == R1: return Bytes((b'\xff' * 16,))
    return seg(app('blk', r), 16)
def dec_blk(b):
    if b.is_const():
        if b.const() == bytes(16): return R0
        if b.const() == b'\xff' * 16: return R1
    if len(b.segs) == 1 and isinstance(b.segs[0], tuple) and b.segs[0][0] != 'rep':
        a = b.segs[0][0]
        if a.name == 'blk': return a.args[0]
        if a.name == 'bite': return rite(a.args[0], dec_blk(a.args[1]), dec_blk(a.args[2]))
    return R(app('unblk', b))
RREBUILD['unblk'] = dec_blk
BREBUILD['blk'] = enc_blk
def enc_pt(g, form):
    n = 33 if form[0] == 'c' else 65
    a = g.p.atom()
    if a is not None and a.name == 'G:unpt':
        b = a.args[0]
        if b.length() == P(n): return b
    return seg(app('pt', g.p, form), n)
BREBUILD['pt'] = lambda p, form: enc_pt(G(p), form)
def dec_pt(b):
    if len(b.segs) == 1 and isinstance(b.segs[0], tuple) and b.segs[0][0] != 'rep':
        a = b.segs[0][0]
        if a.name == 'pt': return G(gite(g0(a.args[0]), P(0), a.args[0]))
        if a.name == 'bite': return G(ite(a.args[0], dec_pt(a.args[1]).p, dec_pt(a.args[2]).p))
    return G(P(app('G:unpt', b)))
REBUILD['G:unpt'] = lambda b: dec_pt(b).p
def bn_bounded(v, n=BNLEN):
    v = P(v)
    if v.is_const(): return 0 <= v.const() < 256 ** n
    a = v.atom()
    if a is None: return decide(band(le(0, v), lt(v, P(256 ** n)))) is True
    if a.name == 'mod' and a.args[1] == Q: return n >= BNLEN
    if a.name == 'rnd' and isinstance(a.args[1], Poly): return n >= BNLEN and (a.args[1] == Q or bn_bounded(a.args[1] - 1, n) or a.args[1] == Q - 1)
    if a.name in ('H', 'order', 'unbn', 'HB'): return n >= BNLEN
    if a.name == 'ite': return bn_bounded(a.args[1], n) and bn_bounded(a.args[2], n)
    return decide(band(le(0, v), lt(v, P(256 ** n)))) is True
def enc_bn(v, n):
    v = P(v); n = P(n)
    if v.is_const() and n.is_const() and 0 <= v.const() < 256 ** n.const():
        return Bytes((v.const().to_bytes(n.const(), 'big'),))
    a = v.atom()
    if a is not None and a.name == 'unbn' and a.args[0].length() == n: return a.args[0]
    return seg(app('bnpad', v, n), n)
BREBUILD['bnpad'] = enc_bn
def dec_bn(b):
    if b.is_const(): return P(int.from_bytes(b.const(), 'big'))
    if len(b.segs) == 1 and isinstance(b.segs[0], tuple) and b.segs[0][0] != 'rep':
        a = b.segs[0][0]
        if a.name in ('bnpad',): return a.args[0]
        if a.name == 'bnmin': return a.args[0]
        if a.name == 'bite': return ite(a.args[0], dec_bn(a.args[1]), dec_bn(a.args[2]))
    # leading constant zeros
    if len(b.segs) > 1 and isinstance(b.segs[0], bytes) and not any(b.segs[0]): return dec_bn(Bytes(b.segs[1:]))
    return P(app('unbn', b))
REBUILD['unbn'] = dec_bn
INJ['bnpad'] = lambda x, y: eq(x[0], y[0]) if x[1] == y[1] else bapp('beq?', *x, *y)
INJ['pt'] = lambda x, y: g0(x[0] - y[0]) if x[1] == y[1] else FALSE
INJ['le'] = lambda x, y: eq(x[0], y[0]) if x[1] == y[1] else FALSE
INJ['byte'] = lambda x, y: eq(x[0], y[0])
INJ['blk'] = lambda x, y: req(x[0], y[0])

# ---------------------------------------------------------------- helpers
def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr', 'ExprWithCleanups', 'CXXFunctionalCastExpr', 'MaterializeTemporaryExpr'):
        n = n['inner'][0]
    return n
def strip_casts(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr', 'CXXStaticCastExpr', 'CXXConstCastExpr'):
        if n.get('castKind') in ('ArrayToPointerDecay',): return n
        if n.get('castKind') in ('UserDefinedConversion',): return n
        n = n['inner'][0]
    return n
def pointee(n):
    t = norm_type(qt(strip_casts(n)))
    if t.endswith('*'): return t[:-1].strip()
    m = re.match(r'(.*?)\[(.*?)\](.*)$', t)
    if m: return (m.group(1) + m.group(3)).strip()
    return t
def bnval(ex, p):
    if isinstance(p, Ptr): 
        v = ex.load(p.lv())
        if isinstance(v, B): v = to_int(v)
        if not isinstance(v, Poly): raise Unsupported('BIGNUM* to %s' % type(v).__name__)
        return v
    raise Unsupported('BIGNUM* is %r' % (p,))
def ptval(ex, p):
    if isinstance(p, Ptr):
        v = ex.load(p.lv())
        if isinstance(v, G): return v
        raise Unsupported('EC_POINT* to %s' % type(v).__name__)
    raise Unsupported('EC_POINT* is %r' % (p,))
def esize(ex, t):
    try: return ex.sizeof(t)
    except Unsupported: return None

def pt_elem(ex, p):
    """element type name of the memory a pointer points into, from the value stored there"""
    lv = p.lv()
    v = ex.load((lv[0], lv[1][:-1])) if lv[1] and lv[1][-1][0] == 'i' else ex.load(lv)
    if isinstance(v, Bytes): return 'unsigned char'
    if isinstance(v, Ring2): return '__m128i'
    if isinstance(v, Vec):
        x = vget(v, P(0))
        if isinstance(x, Ring2): return '__m128i'
        if isinstance(x, Poly): return 'unsigned char'
    raise Unsupported('element type of pointer')
def declared(ex, p, et):
    """element type at p: a pointer to void or bytes takes the declared type of the object it points into"""
    if not isinstance(p, Ptr) or et not in ('void', '', 'char', 'unsigned char') and esize(ex, et) is not None: return et
    t = ex.ctypes.get(p.cell)
    for k, a in p.path:
        if t is None: return et
        if k == 'i':
            m = re.match(r'(.*?)\[[^\]]*\](.*)$', t)
            t = (m.group(1) + m.group(2)).strip() if m else targs(t)[0] if t.startswith(('std::vector<', 'std::array<')) else None
        elif k == 'f':
            q, rec = ex.rec(ex.rtype(t)); nt = None
            for c in (rec or {}).get('inner', ()):
                if c.get('kind') == 'FieldDecl' and c.get('name') == a: nt = norm_type(qt(c))
            t = nt
        else: return et
    if t is None: return et
    m = re.match(r'(.*?)\[[^\]]*\](.*)$', t)
    if m: t = (m.group(1) + m.group(2)).strip()
    if t.startswith('std::vector<'): return et
    return ex.rtype(t)
def mem_read(ex, p, n, et):
    """n bytes at pointer p whose container's element type is et"""
    n = P(n); et = declared(ex, p, et)
    if n.is_zero(): return EMPTY
    if not isinstance(p, Ptr): raise Unsupported('memory read through %r' % (p,))
    lv = p.lv()
    if lv[1] and lv[1][-1][0] == 'i':
        cell, path = lv
        cont = ex.load((cell, path[:-1])); idx = path[-1][1]
        if isinstance(cont, Bytes): return bslice(cont, idx, n)
        if isinstance(cont, Vec):
            x = vget(cont, idx) if not (cont.n.is_zero()) else UNDEF
            es = elem_size(ex, cont, et)
            if es is None: raise Unsupported('memory image of vector of %s' % et)
            if es == 1: return vec_to_bytes(vslice(cont, idx, n))
            if n.is_const():
                if n.const() == es or n.const() % es == 0:
                    r = EMPTY
                    for k in range(n.const() // es): r = r + img(vget(cont, idx + k), es)
                    return r
                if n.const() < es: return bslice(img(x, es), P(0), n)
                raise Unsupported('partial element read')
            cnt = fdiv(n, P(es))
            j = fresh_atom('i')
            if cnt * es == n or decide(eq(cnt * es, n)) is True: return brep(cnt, j, img(vget(cont, idx + P(j)), es))
            return bslice(brep(fdiv(n + (es - 1), P(es)), j, img(vget(cont, idx + P(j)), es)), P(0), n)
    v = ex.load(lv)
    if isinstance(v, Bytes): return bslice(v, P(0), n)
    if isinstance(v, Vec): return mem_read(ex, Ptr(p.cell, p.path + (('i', P(0)),)), n, et)
    es = esize(ex, et)
    if isinstance(v, Ring2): es = 16
    if es is None: raise Unsupported('memory image of ' + et)
    if isinstance(v, Struct): return bslice(img_struct(ex, v, et), P(0), n)
    if v is UNDEF: return seg(app('undefmem', n), n)
    b = img(v, es)
    return bslice(b, P(0), n)
def img(v, es):
    if isinstance(v, Ring2): return enc_blk(v)
    if isinstance(v, (Poly, B)): return enc_le(v, es)
    if isinstance(v, Bytes): return v
    if isinstance(v, Vec): return vec_to_bytes(v)
    if isinstance(v, Struct):
        r = EMPTY
        for k, x in v.f.items(): r = r + img(x, 8)
        return r
    if v is UNDEF: return seg(app('undefmem', P(es)), es)
    raise Unsupported('memory image of %s' % type(v).__name__)
def img_struct(ex, v, et):
    q, rec = ex.rec(et)
    r = EMPTY
    for c in rec.get('inner', ()):
        if c.get('kind') == 'FieldDecl': r = r + img(v.f[c['name']], ex.sizeof(qt(c)))
    return r
def elem_size(ex, cont, et):
    if isinstance(cont, Vec) and cont.n.is_const() and cont.n.const() > 0:
        x = vget(cont, P(0))
    else:
        x = cont.body if cont.body is not UNDEF else (cont.ups[0][-1] if cont.ups else UNDEF)
    if isinstance(x, Ring2): return 16
    if isinstance(x, Bytes):
        l = x.length()
        return l.const() if l.is_const() else None
    if et in ('void', ''): return 1
    return esize(ex, et)

def unimg(b, t, ex):
    t = ex.rtype(t)
    if t == '__m128i': return dec_blk(b)
    if t == 'bool': return to_bool(dec_le(b))
    if t in INT_TYPES: return dec_le(b)
    if re.match(r'.*\[\d+\]$', t): return b
    q, r = ex.rec(t)
    if r is not None:
        f = {}; off = 0
        for c in r.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                s = ex.sizeof(qt(c))
                f[c['name']] = unimg(bslice(b, P(off), P(s)), qt(c), ex); off += s
        return Struct(q, f)
    raise Unsupported('unimage ' + t)
def mem_write(ex, p, b, et):
    n = b.length(); et = declared(ex, p, et)
    if n.is_zero(): return
    if not isinstance(p, Ptr): raise Unsupported('memory write through %r' % (p,))
    lv = p.lv()
    if lv[1] and lv[1][-1][0] == 'i':
        cell, path = lv
        cl = (cell, path[:-1])
        cont = ex.load(cl); idx = path[-1][1]
        if isinstance(cont, Bytes):
            ex.store(cl, bsplice(cont, idx, b)); return
        if isinstance(cont, Vec):
            es = elem_size(ex, cont, et)
            if es is None: raise Unsupported('memory write to vector of %s' % et)
            if es == 1 and not isinstance(vget(cont, idx) if cont.n.is_const() and cont.n.const() else UNDEF, Ring2):
                if idx.is_zero() and (n == cont.n or decide(eq(n, cont.n)) is True):
                    ex.store(cl, b); return
                if n.is_const() and n.const() <= 64:
                    v = cont
                    for k in range(n.const()): v = vset(v, idx + k, byte_at(b, P(k)))
                    ex.store(cl, v); return
                ex.store(cl, bsplice(vec_to_bytes(cont), idx, b)); return
            if n.is_const() and n.const() % es == 0 and n.const() // es <= 4096:
                v = cont
                for k in range(n.const() // es): v = vset(v, idx + k, unimg(bslice(b, P(k * es), P(es)), et, ex))
                ex.store(cl, v); return
            if len(b.segs) == 1 and b.segs[0][0] == 'rep':
                j = fresh_atom('i')
                body = open_b(b.segs[0][2], b.segs[0][3], P(j))
                if body.length() == P(es):
                    ex.store(cl, vrange(cont, idx, b.segs[0][1], j, unimg(body, et, ex))); return
            cnt = fdiv(n, P(es))
            j = fresh_atom('i')
            if not (cnt * es == n or decide(eq(cnt * es, n)) is True): raise Unsupported('memory write of part of an element')
            ex.store(cl, vrange(cont, idx, cnt, j, unimg(bslice(b, P(j) * es, P(es)), et, ex))); return
    v = ex.load(lv)
    if isinstance(v, Vec): return mem_write(ex, Ptr(p.cell, p.path + (('i', P(0)),)), b, et)
    if isinstance(v, Bytes):
        ex.store(lv, bsplice(v, P(0), b)); return
    es = esize(ex, et)
    if isinstance(v, Ring2): es = 16; et = '__m128i'
    if es is None: raise Unsupported('memory write to ' + et)
    if n == P(es): ex.store(lv, unimg(b, et, ex)); return
    if n.is_const() and n.const() < es:
        old = img(v, es) if v is not UNDEF else seg(app('undefmem', P(es)), es)
        ex.store(lv, unimg(b + bslice(old, n, P(es) - n), et, ex)); return
    raise Unsupported('memory write of %r bytes to %s' % (n, et))

def mem_copy(ex, dst, src, n, dt, st_):
    """memcpy with element-wise fast path"""
    n = P(n)
    if isinstance(dst, Ptr) and isinstance(src, Ptr):
        def cont(p):
            lv = p.lv()
            if lv[1] and lv[1][-1][0] == 'i':
                c = ex.load((lv[0], lv[1][:-1]))
                if isinstance(c, Vec): return (lv[0], lv[1][:-1]), c, lv[1][-1][1]
            else:
                v = ex.load(lv)
                if isinstance(v, Vec): return lv, v, P(0)
            return None
        a, b = cont(dst), cont(src)
        if a and b:
            es, es2 = elem_size(ex, a[1], dt), elem_size(ex, b[1], st_)
            x = elem_size_val(a[1]); y = elem_size_val(b[1])
            if es == es2 and es and (type(x) is type(y) or x is UNDEF):
                cnt = fdiv(n, P(es)) if es != 1 else n
                j = fresh_atom('i')
                if cnt * es == n or decide(eq(cnt * es, n)) is True:
                    if a[2].is_zero() and cnt == a[1].n and b[2].is_zero() and cnt == b[1].n: ex.store(a[0], b[1])
                    else: ex.store(a[0], vrange(a[1], a[2], cnt, j, vget(b[1], b[2] + P(j))))
                    return
        la, lb = dst.lv(), src.lv()
        try:
            va, vb = ex.load(la), ex.load(lb)
            s1, s2 = esize(ex, dt), esize(ex, st_)
            if isinstance(vb, Ring2): s2 = 16
            if isinstance(va, Ring2): s1 = 16
            if n.is_const() and s1 == s2 == n.const() and isinstance(vb, (Poly, B, Ring2, Struct)) and not (la[1] and la[1][-1][0] == 'i' and isinstance(ex.load((la[0], la[1][:-1])), Bytes)):
                ex.store(la, vb); return
        except Unsupported: pass
    mem_write(ex, dst, mem_read(ex, src, n, st_), dt)
def elem_size_val(v):
    if v.n.is_const() and v.n.const() > 0: return vget(v, P(0))
    return v.body if v.body is not UNDEF else (v.ups[0][-1] if v.ups else UNDEF)

# ---------------------------------------------------------------- operators
def in_range(ex, v, w, signed):
    v = P(v)
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    if v.is_const(): return lo <= v.const() <= hi
    a = v.atom()
    if a is not None:
        if a.name == 'at' and lo <= 0 and hi >= 255: return True
        if a.name == 'ite' and all(x.is_const() for x in a.args[1:]): return all(lo <= x.const() <= hi for x in a.args[1:])
        if a.name == 'ite' and all(in_range(ex, x, w, signed) for x in a.args[1:]): return True
        if a.name == 'mod' and a.args[1].is_const(): 
            if lo <= 0 and a.args[1].const() - 1 <= hi: return True
        if a.name == 'r2i' and w >= 8 and not signed:
            if r2i_width(a.args[0]) <= w: return True
    return ex.decide(band(le(lo, v), le(v, hi))) is True
def r2i_width(r):
    w = 0
    for m in r.t:
        ws = [128]
        for a in m:
            if a.name == 'i2r':
                ia = a.args[0].atom()
                if ia is not None and ia.name == 'at': ws.append(8)
                elif ia is not None and ia.name == 'ite' and all(x.is_const() and 0 <= x.const() < 256 for x in ia.args[1:]): ws.append(8)
                elif ia is not None and ia.name == 'byteval': ws.append(8)
                elif ia is not None and ia.name == 'ite' and all(x.atom() is not None and x.atom().name in ('at', 'r2i') and (x.atom().name == 'at' or r2i_width(x.atom().args[0]) <= 8) for x in ia.args[1:]): ws.append(8)
            elif a.name == 'kst': ws.append(max(1, a.args[0].const().bit_length()))
        w = max(w, min(ws))
    return w

def pow2(k):
    k = P(k)
    if k.is_const(): return P(1 << k.const()) if k.const() >= 0 else P(app('float', '2^%d' % k.const()))
    return ppow(P(2), k)
def log2_exact(p):
    p = P(p)
    if p.is_const() and p.const() > 0 and p.const() & (p.const() - 1) == 0: return P(p.const().bit_length() - 1)
    s = p.single()
    if s and s[0] == 1 and len(s[1]) == 1 and s[1][0][0].name == 'c' and s[1][0][0].args[0] == P(2):
        return P(s[1][0][1])
    if s and s[0] > 0 and s[0] & (s[0] - 1) == 0 and len(s[1]) == 1 and s[1][0][0].name == 'c' and s[1][0][0].args[0] == P(2):
        return P(s[1][0][1]) + (s[0].bit_length() - 1)
    return None

def binop(ex, op, a, b, t, n):
    if isinstance(a, Ref): a = ex.load(a.l)
    if isinstance(b, Ref): b = ex.load(b.l)
    if op in ('==', '!='):
        r = equal(ex, a, b)
        return r if op == '==' else bnot(r)
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if op == '+':
            if isinstance(b, Ptr): a, b = b, a
            return ptr_add(ex, a, to_int(b))
        if op == '-':
            if isinstance(b, Ptr):
                if a.cell == b.cell and a.path[:-1] == b.path[:-1] and a.path and b.path: return a.path[-1][1] - b.path[-1][1]
                raise Unsupported('pointer difference')
            return ptr_add(ex, a, -to_int(b))
        if op in ('<', '>', '<=', '>=') and isinstance(a, Ptr) and isinstance(b, Ptr) and a.cell == b.cell and a.path[:-1] == b.path[:-1]:
            return binop(ex, op, a.path[-1][1], b.path[-1][1], t, n)
        raise Unsupported('pointer op ' + op)
    if isinstance(a, Opaque) or isinstance(b, Opaque):
        if op in ('<', '>', '<=', '>='): raise Unsupported('comparison of opaque values')
        return Opaque('arith')
    if isinstance(a, Ring2) or isinstance(b, Ring2):
        if not isinstance(a, Ring2): a = i2r(to_int(a))
        if not isinstance(b, Ring2): b = i2r(to_int(b))
        if op == '^': return a ^ b
        if op == '&': return a & b
        if op == '|': return a | b
        raise Unsupported('block op ' + op)
    if op in ('^', '&', '|') and isinstance(a, B) and isinstance(b, B):
        if op == '^': return bnot(biff(a, b))
        return band(a, b) if op == '&' else bor(a, b)
    if a is UNDEF or b is UNDEF:
        raise Unsupported('use of an uninitialised value at ' + where(n))
    a = to_int(a); b = to_int(b)
    isf = t in ('double', 'float', 'long double')
    if op == '+': return wrap_const(a + b, t)
    if op == '-': return wrap_const(a - b, t)
    if op == '*': return wrap_const(a * b, t)
    if op == '<': return lt(a, b)
    if op == '>': return lt(b, a)
    if op == '<=': return le(a, b)
    if op == '>=': return le(b, a)
    if op == '/':
        if isf: return fquot(a, b)
        if b.is_const() and b.const() > 0:
            if t in INT_TYPES and INT_TYPES[t][1] and not a.is_const():
                if ex.decide(le(0, a)) is True: return fdiv(a, b)
                return tdiv(a, b)
            return fdiv(a, b)
        la, lb = log2_exact(a), log2_exact(b)
        if la is not None and lb is not None and not (la.is_const() and lb.is_const()):
            if ex.decide(le(lb, la)) is True: return pow2(la - lb)
        s = b.single()
        if s and s[0] == 1:
            qq = a * ppow(b, -1)
            if all(all(isinstance(e, int) and e > 0 for _, e in m) for m in qq.t): return qq
        return fdiv(a, b)
    if op == '%':
        if b.is_const() and b.const() > 0 and t in INT_TYPES and INT_TYPES[t][1] and not a.is_const():
            if ex.decide(le(0, a)) is not True: return a - tdiv(a, b) * b
        if a.is_const() and b.is_const() and b.const():
            x, y = a.const(), b.const()
            import math
            return P(int(math.fmod(x, y)) if x < 0 or y < 0 else x % y)
        return mod(a, b)
    if op == '<<':
        if a.is_const() and b.is_const():
            return wrap_const(P(a.const() << max(0, b.const())), t)
        r = a * pow2(b)
        w = INT_TYPES.get(t, (64, 0))[0]
        if in_range(ex, r, w, INT_TYPES.get(t, (64, False))[1]): return r
        if w <= 32 and b.is_const(): 
            ex.assumed.add('left shifts do not overflow their type'); return r
        ex.assumed.add('left shifts do not overflow their type')
        return r
    if op == '>>':
        if a.is_const() and b.is_const(): return P(a.const() >> b.const())
        return fdiv(a, pow2(b))
    if op == '&':
        if a.is_const() and b.is_const(): return P(a.const() & b.const())
        if a.is_const(): a, b = b, a
        if b.is_const():
            m = b.const()
            if m == 0: return P(0)
            at_ = a.atom()
            if m > 0 and m & (m + 1) == 0:
                if at_ is None or at_.name != 'r2i': return mod(a, P(m + 1))
            if m > 0 and m & (m - 1) == 0 and (at_ is None or at_.name != 'r2i'):
                return mod(fdiv(a, P(m)), P(2)) * m
        # mask 2^k - 1
        lg = log2_exact(b + 1)
        if lg is not None and not lg.is_const(): return mod(a, b + 1)
        lg = log2_exact(b)
        if lg is not None and not lg.is_const(): return mod(fdiv(a, b), P(2)) * b
        lg = log2_exact(a)
        if lg is not None and not lg.is_const(): return mod(fdiv(b, a), P(2)) * a
        return r2i(i2r(a) & i2r(b))
    if op in ('^', '|'):
        if a.is_const() and b.is_const():
            return P(a.const() ^ b.const()) if op == '^' else P(a.const() | b.const())
        if a.is_zero(): return b
        if b.is_zero(): return a
        return r2i(i2r(a) ^ i2r(b)) if op == '^' else r2i(i2r(a) | i2r(b))
    raise Unsupported('binary ' + op)

def ptr_add(ex, p, d):
    d = P(d)
    if d.is_zero(): return p
    if p.path and p.path[-1][0] == 'i':
        # view of a different element size?
        if p.view is not None:
            et = None
            try: cont = ex.load((p.cell, p.path[:-1]))
            except Unsupported: cont = None
            vs = esize(ex, p.view) if p.view not in ('void',) else 1
            cs = None
            if isinstance(cont, Bytes): cs = 1
            elif isinstance(cont, Vec):
                x = elem_size_val(cont)
                if isinstance(x, Ring2): cs = 16
                elif isinstance(x, Bytes) and x.length().is_const(): cs = x.length().const()
            if vs and cs and vs != cs:
                if vs % cs == 0: d = d * (vs // cs)
                else: raise Unsupported('sub-element pointer arithmetic')
        return Ptr(p.cell, p.path[:-1] + (('i', p.path[-1][1] + d),), p.view)
    return p.moved(d)

def fquot(a, b):
    if b.is_const() and a.is_const() and b.const() and a.const() % b.const() == 0: return P(a.const() // b.const())
    if b == P(1): return a
    if b.is_const() and b.const() and all(c % b.const() == 0 for c in a.t.values()): return fdiv(a, b)
    return P(app('fq', a, b))
def float_to_int(ex, v):
    if isinstance(v, B): return to_int(v)
    a = v.atom()
    if a is not None:
        if a.name == 'fq': return fdiv(a.args[0], a.args[1])
        if a.name == 'log2f' and a.args[0].is_const() and 0 < a.args[0].const() < 2**40: return P(a.args[0].const().bit_length() - 1)
        if a.name == 'float':
            try: return P(int(float(a.args[0])))
            except Exception: pass
    if any(x.name in ('fq', 'float', 'log2f', 'lnf') for x in v.atoms()):
        # linear combination of a quotient: sum with common denominator
        r = fsum(v)
        if r is not None: return fdiv(r[0], r[1])
        return P(app('trunc', v))
    return v
def fsum(v):
    """v = num/den with integer polys"""
    den = P(1)
    ats = set()
    for m in v.t:
        for a, e in m:
            if a.name == 'fq':
                if e != 1: return None
                ats.add(a)
            if a.name in ('float', 'log2f', 'lnf'): return None
    if len({a.args[1] for a in ats}) != 1: return None
    den = list(ats)[0].args[1]
    r = P(0)
    for m, c in v.t.items():
        f = P(c); hit = False
        for a, e in m:
            if a.name == 'fq':
                if hit: return None
                f = f * a.args[0]; hit = True
            else: f = f * Poly({((a, e),): 1})
        r = r + (f if hit else f * den)
    return r, den
def bitnot(ex, v, t):
    if isinstance(v, Ring2): return ~v
    v = to_int(v)
    w, s = INT_TYPES.get(t, (32, True))
    if v.is_const(): return wrap_const(P(~v.const()), t)
    if s: return -v - 1
    return P((1 << w) - 1) - v

def equal(ex, a, b):
    if isinstance(a, Ptr) or isinstance(b, Ptr) or a is NULL or b is NULL:
        if a is NULL and b is NULL: return TRUE
        if a is NULL or b is NULL:
            x = b if a is NULL else a
            if isinstance(x, Ptr): return FALSE
            if isinstance(x, Opaque): return FALSE
            if isinstance(x, Poly): return eq(x, P(0))
            raise Unsupported('null comparison')
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a == b: return TRUE
            if a.cell == b.cell and len(a.path) == len(b.path) and a.path and a.path[:-1] == b.path[:-1] and a.path[-1][0] == 'i':
                return eq(a.path[-1][1], b.path[-1][1])
            if a.cell != b.cell: return FALSE
        raise Unsupported('pointer comparison')
    return val_eq(a, b)
def val_eq(a, b):
    if isinstance(a, B) and isinstance(b, B): return biff(a, b)
    if isinstance(a, (B, Poly)) and isinstance(b, (B, Poly)):
        if isinstance(a, B) and b == P(0): return bnot(a)
        if isinstance(b, B) and a == P(0): return bnot(b)
        return eq(to_int(a), to_int(b))
    if isinstance(a, Stream) and isinstance(b, Stream): return band(beq(a.b, b.b), eq(a.pos, b.pos))
    if isinstance(a, G) and isinstance(b, G): return g0(a.p - b.p)
    if isinstance(a, Ring2) and isinstance(b, Ring2): return req(a, b)
    if isinstance(a, (Bytes, Vec)) and isinstance(b, Bytes) or isinstance(a, Bytes) and isinstance(b, Vec):
        return beq(vec_to_bytes(a), vec_to_bytes(b))
    if isinstance(a, Struct) and isinstance(b, Struct):
        return band(*[val_eq(a.f[k], b.f[k]) for k in a.f])
    if isinstance(a, Vec) and isinstance(b, Vec):
        i = fresh_atom('i')
        return band(eq(a.n, b.n), ball(a.n, i, val_eq(vget(a, P(i)), vget(b, P(i)))))
    if isinstance(a, Opaque) and a == b: return TRUE
    raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

# ---------------------------------------------------------------- dispatch
def callee(n):
    c = n['inner'][0]
    while c.get('kind') in ('ImplicitCastExpr', 'ParenExpr'): c = c['inner'][0]
    return c

def dispatch(ex, n):
    k = n['kind']
    pr = ex.prog
    if k == 'CXXMemberCallExpr':
        me = callee(n)
        if me.get('kind') != 'MemberExpr': raise Unsupported('member call through ' + me.get('kind', '?'))
        mid = me.get('referencedMemberDecl')
        args = n['inner'][1:]
        obj = me['inner'][0]
        if mid in pr.alldecls:
            fn = pr.definition(mid)
            if fn is None:
                d = pr.alldecls[mid]
                return implicit_method(ex, d, obj, me, args)
            this = obj_lv(ex, obj, me.get('isArrow'))
            return ex.call_decl(fn, ex.eval_args(fn, args), this=this)
        return std_method(ex, n, me, obj, args)
    c = callee(n)
    if c.get('kind') == 'MemberExpr' and c.get('referencedMemberDecl') in pr.alldecls:
        fn = pr.definition(c['referencedMemberDecl'])
        if fn is not None: return ex.call_decl(fn, ex.eval_args(fn, n['inner'][1:]))
    if c.get('kind') == 'DeclRefExpr':
        rd = c['referencedDecl']
        args = n['inner'][1:]
        if rd['id'] in pr.alldecls:
            d = pr.alldecls[rd['id']]
            fn = pr.definition(rd['id'])
            if d['kind'] == 'CXXMethodDecl' and k == 'CXXOperatorCallExpr':
                if fn is None:
                    if d.get('name') == 'operator=':
                        return assign(ex, args[0], args[1])
                    raise Unsupported('undefined method ' + d.get('name', ''))
                if fn.get('isImplicit') or fn.get('explicitlyDefaulted'):
                    if d.get('name') == 'operator=': return assign(ex, args[0], args[1])
                this = ex.lv(args[0])
                if d.get('name') == 'operator()' and fn is not None and is_lambda_call(ex, this): 
                    return lambda_call(ex, ex.load(this), args[1:])
                return ex.call_decl(fn, ex.eval_args(fn, args[1:]), this=this)
            if fn is None:
                q = pr.qual.get(rd['id'])
                cc = CONTRACTS.get(q)
                if cc is not None: return cc(ex, Call(ex, d, ex.eval_args(d, args), None))
                if rd['name'] in EXT: return EXT[rd['name']](ex, args, n)
                raise Unsupported('no definition of ' + str(q))
            return ex.call_decl(fn, ex.eval_args(fn, args))
        name = rd.get('name', '')
        if k == 'CXXOperatorCallExpr': return std_operator(ex, n, name, args, rd)
        return external(ex, n, name, args, rd)
    if k == 'CXXOperatorCallExpr':
        raise Unsupported('operator call through ' + c.get('kind', '?'))
    raise Unsupported('call through ' + c.get('kind', '?') + ' at ' + where(n))

def obj_lv(ex, obj, arrow):
    if arrow:
        p = ex.rv(obj)
        if not isinstance(p, Ptr): raise Unsupported('-> through %s' % type(p).__name__)
        return p.lv()
    return ex.lv(obj)
def is_lambda_call(ex, lv):
    try: return isinstance(ex.load(lv), Struct) and ex.load(lv).cls == 'lambda'
    except Unsupported: return False
def lambda_call(ex, v, argnodes):
    node = v.f['node'].x
    m = None
    for c in node['inner']:
        if c.get('kind') == 'CXXRecordDecl':
            for x in c['inner']:
                if x.get('kind') == 'CXXMethodDecl' and x.get('name') == 'operator()': m = x
    if m is None: raise Unsupported('lambda')
    args = ex.eval_args(m, argnodes)
    return ex.call_decl(m, args)
def implicit_method(ex, d, obj, me, args):
    if d.get('name') == 'operator=':
        lv = obj_lv(ex, obj, me.get('isArrow'))
        ex.store(lv, ex.rv(args[0])); return Ref(lv)
    if d.get('name', '').startswith('~'): return None
    raise Unsupported('undefined method ' + d.get('name', ''))
def assign(ex, a, b):
    v = ex.rv(b)
    if isinstance(v, Ref): v = ex.load(v.l)
    lv = ex.lv(a)
    ex.store(lv, v)
    return Ref(lv)

# ---------------------------------------------------------------- construct / new
def construct(ex, n):
    t = ex.rtype(qt(n))
    args = [a for a in n.get('inner', ())]
    ct = n.get('ctorType', {}).get('qualType', '')
    m = re.match(r'(.*?)\[(\d+)\](.*)$', t)
    if m and not args:
        return Vec(P(int(m.group(2))), None, ex.construct_default(m.group(1).strip()))
    q, r = ex.rec(t)
    if r is not None:
        # copy / move of the same class
        if len(args) == 1:
            at = ex.rtype(qt(args[0]))
            if at == t or ex.rec(at)[0] == q:
                return ex.rv(args[0])
        ctor = ex.find_ctor(q, r, ct)
        if t in ex.abstract or q in ex.abstract: return abstract_ctor(ex, q, r, ct, args)
        if ctor is not None:
            v = ex.default(t, zero=False)
            cell = ex.new_cell(v, 'obj')
            ex.run_ctor(ctor, (cell, ()), ex.eval_args(ctor, args))
            if not ex.st.alive: return v
            return ex.st.mem[cell]
        if not args: 
            if n.get('zeroing'): return ex.default(t, True)
            return ex.construct_default(t)
        raise Unsupported('constructor %s of %s' % (ct, t))
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    return std_construct(ex, t, ct, args, n)
def abstract_ctor(ex, q, r, ct, args):
    if q == 'BigInt':
        if not args: return P(0)
        v = ex.rv(args[0])
        if isinstance(v, (Poly, B)): return to_int(v)
        if isinstance(v, Ptr): return bnval(ex, v)
    if q == 'ECPoint':
        if not args: return G(P(0))
        if len(args) == 1:
            v = ex.rv(args[0])
            if isinstance(v, G): return v
            if isinstance(v, Ptr): return ptval(ex, v)
        if len(args) == 2:
            x, y = ex.rv(args[0]), ex.rv(args[1])
            return G(P(app('G:affine', x, y)))
    raise Unsupported('abstract constructor %s %s' % (q, ct))

def std_construct(ex, t, ct, args, n):
    if t == 'std::string':
        if not args: return EMPTY
        v = ex.rv(args[0])
        if len(args) == 1:
            return as_bytes(ex, v)
        w = ex.rv(args[1])
        if isinstance(v, Ptr):
            if isinstance(w, Ptr): return range_bytes(ex, v, w)
            return mem_read(ex, v, to_int(w), 'char')
        if isinstance(v, Bytes): return bslice(v, P(0), to_int(w))
        return rep_byte(to_int(v), to_int(w))
    if t.startswith('std::vector<') or t.startswith('std::array<') or t.startswith('std::initializer_list<'):
        a = targs(t); et = ex.rtype(a[0])
        if not args: return ex.default(t, False)
        if len(args) == 1:
            at = ex.rtype(qt(args[0]))
            v = ex.rv(args[0])
            if isinstance(v, (Vec, Bytes, Filt)): return v
            if isinstance(v, (Poly, B)): return fill_vec(ex, et, to_int(v), default_elem(ex, et))
            if v is UNDEF: raise Unsupported('uninitialised size')
        if len(args) == 2:
            v = ex.rv(args[0]); w = ex.rv(args[1])
            if isinstance(v, Ptr) and isinstance(w, Ptr): return range_vec(ex, v, w)
            return fill_vec(ex, et, to_int(v), coerce_elem(ex, et, w))
        raise Unsupported('vector constructor ' + ct)
    if t.startswith('std::tuple<') or t.startswith('std::pair<'):
        if len(args) == 1 and ex.rtype(qt(args[0])).startswith(('std::tuple', 'std::pair')): return ex.rv(args[0])
        return Struct('tuple', {str(i): ex.rv(a) for i, a in enumerate(args)}) if args else ex.default(t)
    if 'stream' in t and not args: return ex.default(t)
    if ('fstream' in t or 'ifstream' in t or 'ofstream' in t) and args:
        s = ex.default(t)
        cell = ex.new_cell(s, 'fs')
        stream_open(ex, (cell, ()), ex.rv(args[0]), t)
        return ex.st.mem[cell]
    if t.startswith('__gnu_cxx::__normal_iterator') or t.startswith('std::unique_ptr') or '_iterator' in t:
        return ex.rv(args[0]) if args else UNDEF
    if t.startswith('std::unordered') or t.startswith('std::set') or t.startswith('std::map'):
        if not args: return ex.default(t)
        return ex.rv(args[0])
    if t.startswith('std::chrono') or t.startswith('std::fpos') or t.startswith('std::random_device') or t.startswith('std::thread') or t.startswith('std::future') or t.startswith('std::allocator'):
        if t.startswith('std::fpos') and args: return ex.rv(args[0])
        return Opaque(t)
    if len(args) == 1: return ex.rv(args[0])
    if not args: return ex.default(t, True)
    raise Unsupported('construct ' + t)

def as_bytes(ex, v):
    if isinstance(v, Ref): v = ex.load(v.l)
    if isinstance(v, Bytes): return v
    if isinstance(v, Vec): return vec_to_bytes(v)
    if isinstance(v, Ptr):
        x = ex.load((v.cell, v.path[:-1])) if v.path and v.path[-1][0] == 'i' else ex.load(v.lv())
        if isinstance(x, Bytes):
            # NUL-terminated string constant
            if v.path and v.path[-1][0] == 'i' and not v.path[-1][1].is_zero(): x = bslice(x, v.path[-1][1], x.length() - v.path[-1][1])
            return x
        if isinstance(x, Opaque): return seg(app('text:' + x.what), var('textlen'))
    if isinstance(v, Opaque): return seg(app('text:' + v.what), var('textlen'))
    raise Unsupported('string from %s' % type(v).__name__)
def rep_byte(n, c):
    n = P(n)
    if n.is_const() and P(c).is_const(): return Bytes((bytes([P(c).const() % 256]) * n.const(),))
    return seg(app('fill', n, P(c)), n)
def default_elem(ex, et):
    if et in INT_TYPES: return FALSE if et == 'bool' else P(0)
    if et == '__m128i': return R0
    q, r = ex.rec(et)
    if r is not None and et not in ex.abstract: return ex.construct_default(et)
    return ex.default(et, True)
def coerce_elem(ex, et, v):
    if et == 'bool' and isinstance(v, Poly): return to_bool(v)
    return v
def fill_vec(ex, et, n, x):
    n = P(n)
    if is_byte(et) and n.is_const() and isinstance(x, Poly) and x.is_const() and n.const() <= 4096:
        return Bytes((bytes([x.const() % 256]) * n.const(),))
    return Vec(n, None, x)
def range_bytes(ex, a, b):
    v = ex.load((a.cell, a.path[:-1]))
    i, j = a.path[-1][1], b.path[-1][1]
    return bslice(v if isinstance(v, Bytes) else vec_to_bytes(v), i, j - i)
def range_vec(ex, a, b):
    if a.cell != b.cell: raise Unsupported('iterator range over different containers')
    v = ex.load((a.cell, a.path[:-1]))
    i, j = a.path[-1][1], b.path[-1][1]
    if isinstance(v, Bytes): return bslice(v, i, j - i)
    return vslice(v, i, j - i)

def newexpr(ex, n):
    t = ex.rtype(qt(n))
    et = t[:-1].strip()
    if n.get('isArray'):
        size = None
        for c in n.get('inner', ()):
            if size is None: size = to_int(ex.rv(c))
        zero = any(c.get('kind') in ('InitListExpr', 'ImplicitValueInitExpr') for c in n.get('inner', ())[1:])
        if is_byte(et): v = (Bytes((bytes(size.const()),)) if zero and size.is_const() else seg(app('undef', size), size))
        elif ex.rec(et)[1] is not None: v = Vec(size, None, default_elem(ex, et))
        else: v = Vec(size, None, ex.default(et, zero))
        return Ptr(ex.new_cell(v, 'new'), (('i', P(0)),))
    inner = n.get('inner', ())
    v = ex.rv(inner[0]) if inner else ex.default(et)
    return Ptr(ex.new_cell(v, 'new'), ())

# ---------------------------------------------------------------- std operators and methods
def is_ostream(ex, v): return isinstance(v, Opaque)

def std_operator(ex, n, name, args, rd):
    t0 = ex.rtype(qt(args[0]))
    if name == 'operator<<':
        lv = ex.lv(args[0]) if args[0].get('valueCategory') != 'prvalue' else (ex.new_cell(ex.rv(args[0]), 't'), ())
        v = ex.load(lv)
        if isinstance(v, Stream):
            x = args[1]
            tx = ex.rtype(qt(x))
            b = text_of(ex, x, tx)
            ex.store(lv, v)
            stream_write(ex, lv, b)
        return Ref(lv)
    if name == 'operator>>':
        lv = ex.lv(args[0]); v = ex.load(lv)
        if isinstance(v, Stream):
            dst = ex.lv(args[1])
            ex.store(dst, stream_parse(ex, lv, ex.rtype(qt(args[1]))))
            return Ref(lv)
        raise Unsupported('operator>> on %s' % type(v).__name__)
    if name == 'operator[]':
        base = ex.lv(args[0]); 
        v = ex.load(base)
        if isinstance(v, SetV):
            key = ex.rv(args[1])
            return Ref((base[0], base[1] + (('map', key),)))
        if isinstance(v, Ptr):
            return Ref(ex.deref(v, to_int(ex.rv(args[1])), n))
        idx = to_int(ex.rv(args[1]))
        return Ref((base[0], base[1] + (('i', idx),)))
    if name == 'operator=':
        lt = ex.rtype(qt(args[0]))
        rhs = args[1]
        if lt.startswith('std::tuple'):
            v = ex.rv(rhs)
            tl = ex.rv(args[0])
            if isinstance(tl, Struct) and tl.cls == 'tie':
                for (k, ref), x in zip(tl.f.items(), v.f.values()): ex.store(ref.x, x)
                return None
            lv = ex.lv(args[0]); ex.store(lv, v); return Ref(lv)
        v = ex.rv(rhs)
        if isinstance(v, Ref): v = ex.load(v.l)
        if lt == 'std::string': 
            v = as_bytes(ex, v) if not isinstance(v, Poly) else byte_of(v)
        lv = ex.lv(args[0])
        if lt.startswith('std::_Bit_reference'): v = to_bool(v)
        ex.store(lv, v)
        return Ref(lv)
    if name in ('operator+=',):
        lv = ex.lv(args[0]); v = ex.load(lv)
        w = ex.rv(args[1])
        if isinstance(v, Bytes):
            w = byte_of(w) if isinstance(w, Poly) else as_bytes(ex, w)
            ex.store(lv, v + w); return Ref(lv)
        r = binop(ex, '+', v, w, 'long', n); ex.store(lv, r); return Ref(lv)
    if name in ('operator-=',):
        lv = ex.lv(args[0]); r = binop(ex, '-', ex.load(lv), ex.rv(args[1]), 'long', n); ex.store(lv, r); return Ref(lv)
    if name in ('operator++', 'operator--'):
        lv = ex.lv(args[0]); v = ex.load(lv)
        r = ex.incdec(v, name[-2:], 'long'); ex.store(lv, r)
        return Ref(lv) if len(args) == 1 else v
    if name in ('operator|=', 'operator&=', 'operator^='):
        lv = ex.lv(args[0]); r = binop(ex, name[-2], ex.load(lv), ex.rv(args[1]), 'int', n); ex.store(lv, r); return Ref(lv)
    if name in ('operator==', 'operator!='):
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if isinstance(a, Struct) and a.cls == 'mapit' or isinstance(b, Struct) and b.cls == 'mapit':
            r = mapit_eq(ex, a, b)
        elif isinstance(a, Bytes) or isinstance(b, Bytes):
            r = beq(as_bytes(ex, a), as_bytes(ex, b))
        else: r = equal(ex, a, b)
        return r if name == 'operator==' else bnot(r)
    if name in ('operator+', 'operator-', 'operator<', 'operator>', 'operator<=', 'operator>='):
        if len(args) == 1: return Opaque('neg')
        a, b = ex.rv(args[0]), ex.rv(args[1])
        if isinstance(a, Bytes) or isinstance(b, Bytes) or (isinstance(a, Ptr) and 'string' in ex.rtype(qt(n))):
            def tob(x): return byte_of(x) if isinstance(x, Poly) else as_bytes(ex, x)
            if name == 'operator+': return tob(a) + tob(b)
            return bapp('str' + name[8:], tob(a), tob(b))
        return binop(ex, name[8:], a, b, 'long', n)
    if name == 'operator*':
        p = ex.rv(args[0])
        if isinstance(p, Struct) and p.cls == 'mapit': return p
        return Ref(ex.deref(p, P(0), n))
    if name == 'operator->':
        p = ex.rv(args[0])
        return p
    if name == 'operator!':
        v = ex.rv(args[0])
        return bnot(to_bool(v))
    if name == 'operator()':
        if 'hash<' in t0: return P(app('stdhash', as_bytes(ex, ex.rv(args[1]))))
        if 'random_device' in t0 or 'mersenne' in t0: return rnd(ex, P(1 << 32))
        f = ex.load(ex.lv(args[0]))
        if isinstance(f, Struct) and f.cls == 'lambda': return lambda_call(ex, f, args[1:])
    if name == 'operator bool': return to_bool(ex.rv(args[0]))
    raise Unsupported('std %s on %s at %s' % (name, t0, where(n)))

def rnd(ex, m, kind='rnd'):
    ex.extra['nrnd'] = ex.extra.get('nrnd', 0) + 1
    return P(app(kind, '%s%d' % (ex.extra.get('who', ''), ex.extra['nrnd']), P(m), *ex.loopk))

def text_of(ex, x, t):
    v = ex.rv(x)
    if isinstance(v, Ref): v = ex.load(v.l)
    if isinstance(v, Bytes): return v
    if isinstance(v, Ptr): return as_bytes(ex, v)
    if isinstance(v, (Poly, B)):
        if is_byte(t): return byte_of(to_int(v))
        p = to_int(v)
        return seg(app('dec', p), app_len('declen', p))
    if isinstance(v, Opaque):
        if v.what.startswith('fn'): return Bytes((b'\n',))
        return seg(app('text:' + v.what), var('textlen'))
    if isinstance(v, Vec): return vec_to_bytes(v)
    raise Unsupported('text of %s' % type(v).__name__)
def app_len(name, p): return P(app(name, p))
solver.RANGES['declen'] = (1, 20)

METH = {}
def meth(*names):
    def d(f):
        for n in names: METH[n] = f
        return f
    return d

def std_method(ex, n, me, obj, args):
    name = me['name']
    t = ex.rtype(qt(obj))
    if me.get('isArrow') and t.endswith('*'): t = t[:-1].strip()
    if name.startswith('~'): return None
    if t.startswith('std::chrono') or 'time_point' in t or 'duration' in t:
        ex.rv_or_lv(obj); return Opaque('duration')
    if name.startswith('operator '):   # conversion
        v = ex.rv(obj)
        if name == 'operator bool': return to_bool(v)
        return v
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    base = obj_lv(ex, obj, me.get('isArrow'))
    v = ex.load(base)
    if isinstance(v, Ptr) and (t.startswith('std::unique_ptr') or t.startswith('std::shared_ptr')):
        if name == 'get': return v
    if isinstance(v, Opaque):
        if name in ('str',): return seg(fresh_atom('text:sstream'), fresh('textlen'))
        if name in ('lock', 'unlock', 'flush', 'join', 'str', 'precision', 'setf', 'count', 'fill', 'width'): return Opaque(name)
        raise Unsupported('%s.%s' % (t, name))
    f = METH.get(name)
    if f is None: raise Unsupported('%s::%s at %s' % (t, name, where(n)))
    return f(ex, base, v, args, t, n)

@meth('size', 'length')
def m_size(ex, base, v, args, t, n):
    if isinstance(v, (Vec, Bytes, Filt)): return v.length()
    if isinstance(v, SetV): return set_size(ex, v)
    raise Unsupported('size of %s' % type(v).__name__)
def set_size(ex, v):
    if not v.items: return P(0)
    if v.kind == 'map' and len(v.items) == 1 and v.items[0][0] == 'abs': return v.items[0][1]
    return P(app('setsize', v))
solver.RANGES['setsize'] = (0, None)
@meth('empty')
def m_empty(ex, base, v, args, t, n): return eq(m_size(ex, base, v, args, t, n), P(0))
@meth('begin', 'cbegin')
def m_begin(ex, base, v, args, t, n):
    if isinstance(v, SetV): return Struct('mapit', {'b': _Box(base), 'pos': P(0)})
    return Ptr(base[0], base[1] + (('i', P(0)),))
@meth('end', 'cend')
def m_end(ex, base, v, args, t, n):
    if isinstance(v, SetV): return Struct('mapit', {'end': TRUE})
    return Ptr(base[0], base[1] + (('i', v.length()),))
@meth('data', 'c_str')
def m_data(ex, base, v, args, t, n): return Ptr(base[0], base[1] + (('i', P(0)),))
@meth('front')
def m_front(ex, base, v, args, t, n): return Ref((base[0], base[1] + (('i', P(0)),)))
@meth('back')
def m_back(ex, base, v, args, t, n): return Ref((base[0], base[1] + (('i', v.length() - 1),)))
@meth('at')
def m_at(ex, base, v, args, t, n): return Ref((base[0], base[1] + (('i', to_int(ex.rv(args[0]))),)))
@meth('clear')
def m_clear(ex, base, v, args, t, n):
    ex.store(base, EMPTY if isinstance(v, Bytes) and t == 'std::string' else SetV(v.kind) if isinstance(v, SetV) else Vec(P(0), None, UNDEF))
@meth('reserve', 'shrink_to_fit', 'max_load_factor', 'rehash')
def m_reserve(ex, base, v, args, t, n): 
    for a in args: ex.rv(a)
@meth('resize')
def m_resize(ex, base, v, args, t, n):
    m = to_int(ex.rv(args[0]))
    if t == 'std::string':
        l = v.length()
        if m == l: return
        if ex.decide(le(m, l)) is True: ex.store(base, bslice(v, P(0), m)); return
        fillc = to_int(ex.rv(args[1])) if len(args) > 1 else P(0)
        ex.store(base, v + rep_byte(m - l, fillc)); return
    et = ex.rtype(targs(t)[0])
    fill = ex.rv(args[1]) if len(args) > 1 else default_elem(ex, et)
    if isinstance(v, Bytes):
        if v.length() == m: return
        if v.length().is_zero(): ex.store(base, fill_vec(ex, et, m, fill)); return
        if ex.decide(le(m, v.length())) is True: ex.store(base, bslice(v, P(0), m)); return
        v = bytes_to_vec(v)
    if v.n.is_zero() and is_byte(et): ex.store(base, fill_vec(ex, et, m, fill)); return
    ex.store(base, vresize(v, m, fill))
@meth('assign')
def m_assign(ex, base, v, args, t, n):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    if isinstance(a, Ptr) and isinstance(b, Ptr): ex.store(base, range_vec(ex, a, b))
    elif t == 'std::string': ex.store(base, mem_read(ex, a, to_int(b), 'char') if isinstance(a, Ptr) else rep_byte(to_int(a), to_int(b)))
    else: ex.store(base, fill_vec(ex, ex.rtype(targs(t)[0]), to_int(a), b))
@meth('push_back', 'emplace_back')
def m_push(ex, base, v, args, t, n):
    et = ex.rtype(targs(t)[0]) if '<' in t else 'char'
    if t == 'std::string': ex.store(base, v + byte_of(to_int(ex.rv(args[0])))); return
    x = ex.rv(args[0]) if args else default_elem(ex, et)
    if isinstance(x, Ref): x = ex.load(x.l)
    if et == 'BigInt' and isinstance(x, Ptr): x = bnval(ex, x)
    if et == 'ECPoint' and isinstance(x, Ptr): x = ptval(ex, x)
    if isinstance(v, Bytes): v = bytes_to_vec(v)
    x = coerce_elem(ex, et, x)
    ex.store(base, vpush(v, x))
    return Ref((base[0], base[1] + (('i', v.n),)))
@meth('pop_back')
def m_pop(ex, base, v, args, t, n):
    ex.store(base, Vec(v.n - 1, v.idx, v.body, v.ups) if isinstance(v, Vec) else bslice(v, P(0), v.length() - 1))
@meth('substr')
def m_substr(ex, base, v, args, t, n):
    s = to_int(ex.rv(args[0]))
    return bslice(v, s, to_int(ex.rv(args[1])) if len(args) > 1 else v.length() - s)
@meth('append')
def m_append(ex, base, v, args, t, n):
    a = ex.rv(args[0])
    b = as_bytes(ex, a) if len(args) == 1 else mem_read(ex, a, to_int(ex.rv(args[1])), 'char') if isinstance(a, Ptr) else rep_byte(to_int(a), to_int(ex.rv(args[1])))
    ex.store(base, v + b); return Ref(base)
@meth('swap')
def m_swap(ex, base, v, args, t, n):
    o = ex.lv(args[0]); w = ex.load(o)
    ex.store(o, v); ex.store(base, w)
@meth('insert', 'emplace')
def m_insert(ex, base, v, args, t, n):
    if isinstance(v, SetV):
        x = ex.rv(args[0]) if len(args) == 1 else Struct('tuple', {str(i): ex.rv(a) for i, a in enumerate(args)})
        if v.kind == 'map':
            ex.store(base, map_put(ex, v, x.f['0'], x.f['1'], False)); return Opaque('ins')
        ex.store(base, SetV(v.kind, v.items + (('e', TRUE, x, None),)))
        return Opaque('ins')
    vals = [ex.rv(a) for a in args]
    if len(vals) == 3 and all(isinstance(x, Ptr) for x in vals):
        at_ = vals[0].path[-1][1]
        ins = range_vec(ex, vals[1], vals[2])
        if isinstance(v, Bytes): v = bytes_to_vec(v)
        if isinstance(ins, Bytes): ins = bytes_to_vec(ins)
        if at_ == v.n:
            ex.store(base, vconcat(v, ins)); return
        if at_.is_zero(): ex.store(base, vconcat(ins, v)); return
        ex.store(base, vconcat(vconcat(vslice(v, P(0), at_), ins), vslice(v, at_, v.n - at_))); return
    if len(vals) == 2 and isinstance(vals[0], Ptr):
        at_ = vals[0].path[-1][1]
        if at_ == v.n: ex.store(base, vpush(v, vals[1])); return
        one = Vec.of_list([vals[1]])
        ex.store(base, vconcat(vconcat(vslice(v, P(0), at_), one), vslice(v, at_, v.n - at_))); return
    raise Unsupported('insert')
def vconcat(a, b):
    if a.n.is_zero(): return b
    if b.n.is_zero(): return a
    if a.n.is_const() and b.n.is_const() and a.n.const() + b.n.const() <= 512: return Vec.of_list(a.conc() + b.conc())
    j = fresh_atom('i')
    r = vresize(a, a.n + b.n, UNDEF) if a.idx is None and not a.ups else Vec(a.n + b.n, a.idx, a.body, a.ups)
    return vrange(r, a.n, b.n, j, vget(b, P(j)))
@meth('erase')
def m_erase(ex, base, v, args, t, n):
    if isinstance(v, SetV): raise Unsupported('erase from a set')
    p = ex.rv(args[0]); i = p.path[-1][1]
    cnt = P(1)
    if len(args) > 1: cnt = ex.rv(args[1]).path[-1][1] - i
    if isinstance(v, Bytes): ex.store(base, bslice(v, P(0), i) + bslice(v, i + cnt, v.length() - i - cnt)); return p
    ex.store(base, vconcat(vslice(v, P(0), i), vslice(v, i + cnt, v.n - i - cnt)))
    return p
@meth('find', 'count')
def m_find(ex, base, v, args, t, n):
    if isinstance(v, SetV):
        key = ex.rv(args[0])
        c = set_contains(ex, v, key)
        if n['inner'][0]['name'] == 'count': return ite(c, P(1), P(0))
        return Struct('mapit', {'found': c, 'key': key, 'b': _Box(base)})
    raise Unsupported('find on %s' % type(v).__name__)
def set_contains(ex, v, key):
    if len(v.items) == 1 and v.items[0][0] == 'abs': return v.items[0][2](key)
    c = []
    for it in v.items:
        if it[0] == 'e': c.append(band(it[1], val_eq(it[2], key)))
        else:
            j = fresh_atom('i')
            m = {it[2]: P(j)}
            c.append(bex(it[1], j, band(subst(it[3], m), val_eq(subst(it[4], m), key))))
    return bor(*c)
def mapit_eq(ex, a, b):
    f = lambda x: isinstance(x, Struct) and 'end' in x.f
    if f(a): a, b = b, a
    if f(b) and 'found' in a.f: return bnot(a.f['found'])
    if f(b) and 'pos' in a.f: return FALSE
    raise Unsupported('iterator comparison')
def map_lookup(ex, v, key):
    if len(v.items) == 1 and v.items[0][0] == 'abs': return v.items[0][3](key)
    r = None
    for it in v.items:      # later entries override
        if it[0] == 'e':
            c = band(it[1], val_eq(it[2], key))
            r = it[3] if r is None else vite(c, it[3], r)
        else: raise Unsupported('map lookup in comprehension')
    if r is None: return P(0)
    return r
def map_store(ex, v, key, val): return map_put(ex, v, key, val, True)
def map_put(ex, v, key, val, over):
    return SetV(v.kind, v.items + (('e', TRUE, key, val),))

# ---------------------------------------------------------------- file streams
def fskey(name): return 'file:' + repr(name)
@meth('open')
def m_open(ex, base, v, args, t, n):
    stream_open(ex, base, ex.rv(args[0]), t)
def stream_open(ex, base, name, t):
    name = as_bytes(ex, name)
    k = fskey(name)
    if 'ofstream' in t or 'basic_ofstream' in t:
        ex.st.mem[k] = EMPTY
        if ex.log is not None: ex.log.append((k, ()))
        ex.store(base, Stream(EMPTY, name, TRUE, 'w'))
    else:
        if k not in ex.st.mem: ex.st.mem[k] = seg(app('filecontent', name), app_len('filelen', name))
        ex.store(base, Stream(ex.st.mem[k], name, TRUE, 'r'))
solver.RANGES['filelen'] = (0, None)
@meth('close')
def m_close(ex, base, v, args, t, n): return None
@meth('is_open', 'good')
def m_isopen(ex, base, v, args, t, n): return v.ok
@meth('eof', 'fail')
def m_eof(ex, base, v, args, t, n): return bnot(v.ok)
def stream_write(ex, base, b):
    v = ex.load(base)
    if not isinstance(v, Stream): raise Unsupported('write to %s' % type(v).__name__)
    ex.store(base, v.at(b=v.b + b))
    if v.name is not None:
        k = fskey(v.name)
        ex.store((k, ()), ex.st.mem[k] + b)
@meth('write')
def m_write(ex, base, v, args, t, n):
    p = ex.rv(args[0]); cnt = to_int(ex.rv(args[1]))
    stream_write(ex, base, mem_read(ex, p, cnt, pointee(args[0])))
    return Ref(base)
@meth('read')
def m_read(ex, base, v, args, t, n):
    p = ex.rv(args[0]); cnt = to_int(ex.rv(args[1]))
    b = bslice(v.b, v.pos, cnt)
    ex.store(base, v.at(pos=v.pos + cnt))
    mem_write(ex, p, b, pointee(args[0]))
    return Ref(base)
@meth('tellg', 'tellp')
def m_tellg(ex, base, v, args, t, n):
    if isinstance(v, Stream): return v.pos if v.mode == 'r' else v.b.length()
    return Opaque('pos')
def json_name(n):
    while n.get('inner') and 'referencedDecl' not in n and n.get('kind') != 'MemberExpr': n = n['inner'][0]
    if n.get('kind') == 'MemberExpr': return n.get('name')
    return (n.get('referencedDecl') or {}).get('name')
@meth('seekg')
def m_seekg(ex, base, v, args, t, n):
    off = to_int(ex.rv(args[0]))
    if len(args) == 2:
        w = json_name(args[1])
        off = off + (v.b.length() if w == 'end' else v.pos if w == 'cur' else P(0))
        if w not in ('end', 'cur', 'beg'): raise Unsupported('seekg')
    ex.store(base, v.at(pos=off))
    return Ref(base)
def stream_parse(ex, lv, t):
    v = ex.load(lv)
    segs = list(v.rest().segs)
    while segs and isinstance(segs[0], bytes) and segs[0].strip() == b'' : segs.pop(0)
    if segs and isinstance(segs[0], tuple) and segs[0][0] != 'rep' and segs[0][0].name == 'dec':
        nxt = segs[1] if len(segs) > 1 else None
        if nxt is None or (isinstance(nxt, bytes) and not chr(nxt[0]).isdigit()):
            x = segs[0][0].args[0]
            ex.store(lv, v.at(b=Bytes(tuple(segs[1:])), pos=P(0)))
            return x
    if segs and isinstance(segs[0], bytes):
        m = re.match(rb'\s*(\d+)(.*)$', segs[0], re.S)
        if m and (m.group(2) or len(segs) == 1):
            ex.store(lv, v.at(b=Bytes((m.group(2),) + tuple(segs[1:])), pos=P(0)))
            return P(int(m.group(1)))
    raise Unsupported('formatted read')

# ---------------------------------------------------------------- external functions
def external(ex, n, name, args, rd):
    f = EXT.get(name)
    args = [a for a in args if a['kind'] != 'CXXDefaultArgExpr']
    if f is None:
        if name.startswith('ERR_') or name.startswith('omp_set') or name in IGNORED:
            for a in args: pass
            return Opaque(name)
        raise Unsupported('external function %s at %s' % (name, where(n)))
    ex.externs_used.add(name)
    return f(ex, args, n)
IGNORED = {'printf', 'fprintf', 'setbuf', 'setlocale', 'BN_CTX_free', 'EC_GROUP_free', 'free', 'setfill', 'setw', 'setprecision', 'perror', 'close', 'setsockopt', 'usleep', 'setvbuf', 'BN_CTX_new', 'EC_GROUP_precompute_mult', 'EVP_MD_CTX_free', 'operator delete'}

# ---- stdio over a connection.  fwrite/fread transfer the whole request unless the connection fails (ISO C); inside
# a retry loop the count is arbitrary (0 <= s <= request); send/recv/read/write may always be partial
def io_cell(ex, a):
    p = ex.rv(a)
    if isinstance(p, Ptr): return p.lv() if hasattr(p, 'lv') else (p.cell, p.path)
    raise Unsupported('stream pointer %s' % type(p).__name__)
def io_count(ex, cnt, always):
    if ex.iochoices is None and not always: return cnt
    s = fresh_atom('io')
    ex.assume(band(le(0, P(s)), le(P(s), cnt)))
    if ex.iochoices is not None: ex.iochoices.append((s, cnt))
    return P(s)
@ext('fwrite')
def x_fwrite(ex, args, n):
    p = ex.rv(args[0]); sz = to_int(ex.rv(args[1])); cnt = to_int(ex.rv(args[2])); c = io_cell(ex, args[3])
    if not sz.is_const(): raise Unsupported('fwrite item size')
    k = io_count(ex, cnt, False)
    v = ex.load(c)
    if not isinstance(v, Stream): raise Unsupported('fwrite to %s' % type(v).__name__)
    ex.store(c, v.at(b=v.b + mem_read(ex, p, k * sz, pointee(args[0]))))
    return k
@ext('fread')
def x_fread(ex, args, n):
    p = ex.rv(args[0]); sz = to_int(ex.rv(args[1])); cnt = to_int(ex.rv(args[2])); c = io_cell(ex, args[3])
    if not sz.is_const(): raise Unsupported('fread item size')
    k = io_count(ex, cnt, False)
    v = ex.load(c)
    if not isinstance(v, Stream): raise Unsupported('fread from %s' % type(v).__name__)
    b = bslice(v.b, v.pos, k * sz)
    ex.store(c, v.at(pos=v.pos + k * sz))
    mem_write(ex, p, b, pointee(args[0]))
    return k
@ext('fflush')
def x_fflush(ex, args, n):
    try: c = io_cell(ex, args[0])
    except Unsupported: return P(0)
    v = ex.load(c)
    if isinstance(v, Stream):
        k = 'flushed:' + c[0]
        if k not in ex.st.mem: ex.st.mem[k] = P(0)
        ex.store((k, ()), v.b.length())
    return P(0)
@ext('exit', 'abort', '__assert_fail', 'terminate')
def x_exit(ex, args, n):
    ex.aborts.append((ex.st.pc, 'exit', where(n)))
    ex.st.alive = False
    return None
@ext('now')
def x_now(ex, args, n): return Opaque('time')
@ext('time')
def x_time(ex, args, n): return P(app('time'))
@ext('srand')
def x_srand(ex, args, n): return None
@ext('rand')
def x_rand(ex, args, n): return rnd(ex, P(1 << 31))
@ext('omp_get_thread_num')
def x_tn(ex, args, n): return P(0)
@ext('omp_get_num_threads', 'omp_get_max_threads')
def x_nt(ex, args, n): return P(8)
@ext('move', 'forward', 'ref', 'cref', 'addressof', '__addressof')
def x_move(ex, args, n):
    if len(args) == 3: return x_copy(ex, args, n)
    if args[0].get('valueCategory') in ('lvalue', 'xvalue'):
        return Ref(ex.lv(args[0]))
    return ex.rv(args[0])
@ext('get')
def x_get(ex, args, n):
    lv = ex.lv(args[0]); v = ex.load(lv)
    # index from the type of the callee: get<i>
    t = qt(callee(n)); 
    idx = None
    m = re.search(r'tuple_element_t<(\d+)', t) or re.search(r'__tuple_element_t<(\d+)', t) or re.search(r'tuple_element<(\d+)', t)
    if m: idx = m.group(1)
    if idx is None: raise Unsupported('std::get index')
    return Ref((lv[0], lv[1] + (('f', idx),)))
@ext('tie')
def x_tie(ex, args, n): return Struct('tie', {str(i): _Box(ex.lv(a)) for i, a in enumerate(args)})
@ext('make_pair', 'make_tuple')
def x_mkpair(ex, args, n):
    r = {}
    for i, a in enumerate(args):
        v = ex.rv(a)
        r[str(i)] = ex.load(v.l) if isinstance(v, Ref) else v
    return Struct('tuple', r)
@ext('max', 'min')
def x_max(ex, args, n):
    nm = callee(n)['referencedDecl']['name']
    a, b = to_int(ex.rv(args[0])), to_int(ex.rv(args[1]))
    c = le(b, a) if nm == 'max' else le(a, b)
    d = ex.decide(c)
    if d is None and ex.decide(le(a, b) if nm == 'max' else le(b, a)) is True: return b
    return a if d is True else b if d is False else ite(c, a, b)
@ext('swap')
def x_swap(ex, args, n):
    a, b = ex.lv(args[0]), ex.lv(args[1])
    va, vb = ex.load(a), ex.load(b)
    ex.store(a, vb); ex.store(b, va)
@ext('copy')
def x_copy(ex, args, n):
    a, b, d = ex.rv(args[0]), ex.rv(args[1]), ex.rv(args[2])
    src = range_vec(ex, a, b)
    if isinstance(d, Struct) and d.cls == 'backins':
        lv = d.f['l'].x; v = ex.load(lv)
        if isinstance(v, Bytes): v = bytes_to_vec(v)
        if isinstance(src, Bytes): src = bytes_to_vec(src)
        ex.store(lv, vconcat(v, src)); return d
    cl = (d.cell, d.path[:-1]); di = d.path[-1][1]
    cont = ex.load(cl)
    m = src.length()
    if isinstance(cont, Bytes) and isinstance(src, Bytes): ex.store(cl, bsplice(cont, di, src))
    else:
        if isinstance(cont, Bytes): cont = bytes_to_vec(cont)
        if isinstance(src, Bytes): src = bytes_to_vec(src)
        if di.is_zero() and src.n == cont.n: ex.store(cl, src)
        elif src.n.is_const() and src.n.const() <= 64:
            for k in range(src.n.const()): cont = vset(cont, di + k, vget(src, P(k)))
            ex.store(cl, cont)
        else:
            j = fresh_atom('i')
            ex.store(cl, vrange(cont, di, src.n, j, vget(src, P(j))))
    return Ptr(d.cell, d.path[:-1] + (('i', di + m),), d.view)
@ext('copy_n')
def x_copy_n(ex, args, n):
    a = ex.rv(args[0]); m = to_int(ex.rv(args[1])); d = ex.rv(args[2])
    mem_copy(ex, d, a, m, 'elem', 'elem')
@ext('back_inserter')
def x_bi(ex, args, n): return Struct('backins', {'l': _Box(ex.lv(args[0]))})
@ext('inserter')
def x_ins(ex, args, n): return Struct('backins', {'l': _Box(ex.lv(args[0]))})
@ext('fill')
def x_fill(ex, args, n):
    a, b, x = ex.rv(args[0]), ex.rv(args[1]), ex.rv(args[2])
    cl = (a.cell, a.path[:-1]); cont = ex.load(cl)
    m = b.path[-1][1] - a.path[-1][1]
    if isinstance(cont, Bytes):
        if a.path[-1][1].is_zero() and m == cont.length():
            if m.is_const(): ex.store(cl, rep_byte(m, to_int(x)))
            else: ex.store(cl, Vec(m, None, to_int(x)))
            return
        cont = bytes_to_vec(cont)
    j = fresh_atom('i')
    ex.store(cl, vrange(cont, a.path[-1][1], m, j, x) if not (a.path[-1][1].is_zero() and m == cont.n) else Vec(m, None, x))
@ext('equal')
def x_equal(ex, args, n):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    x = range_vec(ex, a, b)
    c = ex.rv(args[2])
    cc = ex.load((c.cell, c.path[:-1]))
    m = x.length()
    y = bslice(cc, c.path[-1][1], m) if isinstance(cc, Bytes) else vslice(cc, c.path[-1][1], m)
    return val_eq(x, y)
@ext('find')
def x_find(ex, args, n):
    a, b, x = ex.rv(args[0]), ex.rv(args[1]), ex.rv(args[2])
    raise Unsupported('std::find')
@ext('reverse')
def x_reverse(ex, args, n):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    cl = (a.cell, a.path[:-1]); cont = ex.load(cl)
    if isinstance(cont, Bytes): cont = bytes_to_vec(cont)
    i0 = a.path[-1][1]; m = b.path[-1][1] - i0
    j = fresh_atom('i')
    if i0.is_zero() and m == cont.n:
        if m.is_const() and m.const() <= 512: ex.store(cl, Vec.of_list(list(reversed(cont.conc())))); return
        ex.store(cl, Vec(m, j, vget(cont, m - 1 - P(j)))); return
    ex.store(cl, vrange(cont, i0, m, j, vget(cont, i0 + m - 1 - P(j))))
def perm(tag, n, i):
    """an arbitrary permutation of [0,n) and its inverse pinv"""
    a = P(i).atom()
    if a is not None and a.name == 'pinv' and a.args[0] == tag and a.args[1] == P(n): return a.args[2]
    return P(app('perm', tag, P(n), P(i)))
def pinv(tag, n, j):
    a = P(j).atom()
    if a is not None and a.name == 'perm' and a.args[0] == tag and a.args[1] == P(n): return a.args[2]
    return P(app('pinv', tag, P(n), P(j)))
REBUILD['perm'] = perm; REBUILD['pinv'] = pinv
@ext('shuffle')
def e_shuffle(ex, args, n):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    base = (a.cell, a.path[:-1]); v = ex.load(base)
    if isinstance(v, Bytes): v = bytes_to_vec(v)
    if not isinstance(v, Vec) or not a.path[-1][1].is_zero() or b.path[-1][1] != v.n: raise Unsupported('shuffle of a part')
    if ex.loopk: raise Unsupported('shuffle in a loop')
    ex.extra['nshuf'] = ex.extra.get('nshuf', 0) + 1
    tag = 'sh%s%d' % (ex.extra.get('who', ''), ex.extra['nshuf']); i = fresh_atom('i')
    pc = ex.st.pc; ex.assume(band(le(0, P(i)), lt(P(i), v.n))); x = vget(v, perm(tag, v.n, P(i))); ex.st.pc = pc
    ex.store(base, Vec(v.n, i, x))
@ext('to_string')
def x_to_string(ex, args, n):
    v = to_int(ex.rv(args[0]))
    if v.is_const(): return Bytes((str(v.const()).encode(),))
    return seg(app('dec', v), app_len('declen', v))
@ext('strlen')
def x_strlen(ex, args, n): return as_bytes(ex, ex.rv(args[0])).length()
# math
@ext('log2')
def x_log2(ex, args, n):
    v = to_int(ex.rv(args[0]))
    l = log2_exact(v)
    return l if l is not None else P(app('log2f', v))
@ext('log')
def x_log(ex, args, n): return P(app('lnf', to_int(ex.rv(args[0]))))
@ext('pow')
def x_pow(ex, args, n):
    b, e = to_int(ex.rv(args[0])), to_int(ex.rv(args[1]))
    if b.is_const() and b.const() == 2: return pow2(e)
    if e.is_const() and e.const() >= 0: return ppow(b, e.const())
    return ppow(b, e)
@ext('sqrt')
def x_sqrt(ex, args, n): return P(app('sqrtf', to_int(ex.rv(args[0]))))
@ext('ceil')
def x_ceil(ex, args, n):
    v = to_int(ex.rv(args[0]))
    if not any(a.name in ('fq', 'float', 'log2f', 'lnf', 'sqrtf') for a in v.atoms()): return v
    a = v.atom()
    if a is not None and a.name == 'log2f' and a.args[0].is_const() and 0 < a.args[0].const() < 2**40: return P((a.args[0].const() - 1).bit_length())
    r = fsum(v)
    if r is not None: return fdiv(r[0] + r[1] - 1, r[1])
    return P(app('ceilf', v))
@ext('floor')
def x_floor(ex, args, n): return float_to_int(ex, to_int(ex.rv(args[0])))
@ext('abs', 'labs', 'llabs', 'fabs')
def x_abs(ex, args, n):
    v = to_int(ex.rv(args[0]))
    return ite(le(0, v), v, -v)
# memory
@ext('memcpy', 'memmove', '__builtin_memcpy', 'OPENSSL_memcpy')
def x_memcpy(ex, args, n):
    d, s = ex.rv(args[0]), ex.rv(args[1]); m = to_int(ex.rv(args[2]))
    mem_copy(ex, d, s, m, pointee(args[0]), pointee(args[1]))
    return d
@ext('memset', '__builtin_memset')
def x_memset(ex, args, n):
    d = ex.rv(args[0]); c = to_int(ex.rv(args[1])); m = to_int(ex.rv(args[2]))
    et = pointee(args[0])
    if c.is_zero() and isinstance(d, Ptr):
        lv = d.lv()
        if lv[1] and lv[1][-1][0] == 'i':
            cl = (lv[0], lv[1][:-1]); cont = ex.load(cl); idx = lv[1][-1][1]
            if isinstance(cont, Vec):
                es = elem_size(ex, cont, et)
                z = zero_like(elem_size_val(cont), ex, et)
                cnt = fdiv(m, P(es)) if es != 1 else m
                if idx.is_zero() and cnt == cont.n: ex.store(cl, Vec(cont.n, None, z))
                else:
                    j = fresh_atom('i'); ex.store(cl, vrange(cont, idx, cnt, j, z))
                return d
            if isinstance(cont, Bytes) and idx.is_zero() and cont.length() == m:
                ex.store(cl, rep_byte(m, P(0))); return d
    mem_write(ex, d, rep_byte(m, c), et)
    return d
def zero_like(x, ex, et):
    if isinstance(x, Ring2): return R0
    if isinstance(x, Poly): return P(0)
    if isinstance(x, B): return FALSE
    return ex.default(et, True)
@ext('memcmp')
def x_memcmp(ex, args, n):
    a, b = ex.rv(args[0]), ex.rv(args[1]); m = to_int(ex.rv(args[2]))
    x, y = mem_read(ex, a, m, pointee(args[0])), mem_read(ex, b, m, pointee(args[1]))
    return ite(beq(x, y), P(0), P(app('memcmp', x, y)))
@ext('malloc', 'aligned_alloc', '_mm_malloc')
def x_malloc(ex, args, n):
    m = to_int(ex.rv(args[-1] if callee(n)['referencedDecl']['name'] == 'aligned_alloc' else args[0]))
    return Ptr(ex.new_cell(seg(app('undef', m), m), 'heap'), (('i', P(0)),))
@ext('_mm_free', 'CRYPTO_free', 'BN_free', 'BN_clear_free', 'EC_POINT_free', 'free')
def x_free(ex, args, n): return None

# ---- OpenSSL BIGNUM
def setp(ex, p, v):
    if not isinstance(p, Ptr): raise Unsupported('result pointer %r' % (p,))
    ex.store(p.lv(), v)
def BNF(name, nargs, f):
    def h(ex, args, n):
        ps = [ex.rv(a) for a in args]
        vs = [bnval(ex, p) for p in ps[1:1 + nargs]]
        setp(ex, ps[0], f(*vs))
        return P(1)
    EXT[name] = h
BNF('BN_add', 2, lambda a, b: a + b)
BNF('BN_sub', 2, lambda a, b: a - b)
BNF('BN_mul', 2, lambda a, b: a * b)
BNF('BN_sqr', 1, lambda a: a * a)
BNF('BN_nnmod', 2, lambda a, m: mod(a, m))
BNF('BN_mod_add', 3, lambda a, b, m: mod(a + b, m))
BNF('BN_mod_sub', 3, lambda a, b, m: mod(a - b, m))
BNF('BN_mod_mul', 3, lambda a, b, m: mod(a * b, m))
BNF('BN_mod_sqr', 2, lambda a, m: mod(a * a, m))
BNF('BN_exp', 2, lambda a, e: ppow(a, e))
def modexp(a, e, m):
    a, e, m = P(a), P(e), P(m)
    if e.is_const() and 0 <= e.const() <= 64: return mod(ppow(a, e.const()), m)
    s = a.single()
    if s and s[0] == 1 or a.is_const(): 
        if a.is_const() and a.const() in (0, 1): return mod(a, m) if a.const() == 1 else P(app('modexp', a, e, m))
        return mod(ppow(a, e), m)
    return mod(ppow(a, e), m)
BNF('BN_mod_exp', 3, modexp)
BNF('BN_gcd', 2, lambda a, b: P(app('gcd', *sorted([a, b], key=hash))))
def modinv(a, m):
    a = P(a)
    if a.is_const() and a.const() == 1: return P(1)
    return mod(ppow(strip_mod(a, m), -1), m)
@ext('BN_mod_inverse')
def x_modinv(ex, args, n):
    ps = [ex.rv(a) for a in args]
    setp(ex, ps[0], modinv(bnval(ex, ps[1]), bnval(ex, ps[2])))
    return ps[0]
@ext('BN_mod_sqrt')
def x_modsqrt(ex, args, n):
    ps = [ex.rv(a) for a in args]
    setp(ex, ps[0], P(app('modsqrt', bnval(ex, ps[1]), bnval(ex, ps[2]))))
    return ps[0]
@ext('BN_copy')
def x_bncopy(ex, args, n):
    a, b = ex.rv(args[0]), ex.rv(args[1])
    setp(ex, a, bnval(ex, b)); return a
@ext('BN_dup')
def x_bndup(ex, args, n): return Ptr(ex.new_cell(bnval(ex, ex.rv(args[0])), 'bn'), (('bn', None),))
@ext('BN_new')
def x_bnnew(ex, args, n): return Ptr(ex.new_cell(P(0), 'bn'), (('bn', None),))
@ext('BN_set_word')
def x_setword(ex, args, n):
    p = ex.rv(args[0]); setp(ex, p, to_int(ex.rv(args[1]))); return P(1)
@ext('BN_zero', 'BN_zero_ex')
def x_bnzero(ex, args, n): setp(ex, ex.rv(args[0]), P(0)); return P(1)
@ext('BN_one')
def x_bnone(ex, args, n): setp(ex, ex.rv(args[0]), P(1)); return P(1)
@ext('BN_get_word')
def x_getword(ex, args, n):
    v = bnval(ex, ex.rv(args[0]))
    a = P(ite(le(0, v), v, -v)) if ex.decide(le(0, v)) is not True else v
    if a.is_const(): return a if a.const() < 1 << 64 else P((1 << 64) - 1)
    c = lt(a, P(1 << 64))
    if ex.decide(c) is True: return a
    return ite(c, a, P((1 << 64) - 1))
@ext('BN_is_zero')
def x_iszero(ex, args, n): return eq(bnval(ex, ex.rv(args[0])), P(0))
@ext('BN_is_one')
def x_isone(ex, args, n): return eq(bnval(ex, ex.rv(args[0])), P(1))
@ext('BN_is_odd')
def x_isodd(ex, args, n): return eq(mod(bnval(ex, ex.rv(args[0])), P(2)), P(1))
@ext('BN_is_negative')
def x_isneg(ex, args, n): return lt(bnval(ex, ex.rv(args[0])), P(0))
@ext('BN_set_negative')
def x_setneg(ex, args, n):
    p = ex.rv(args[0]); s = to_bool(ex.rv(args[1])); v = bnval(ex, p)
    nonneg = le(0, v)
    mag = ite(nonneg, v, -v)
    # sign flips exactly: result = s ? -|v| : |v|
    def st(b): return -mag if b else mag
    if s is TRUE: r = -mag
    elif s is FALSE: r = mag
    else:
        if s is nonneg or s == nonneg: r = -v
        elif s == bnot(nonneg): r = v
        else: r = ite(s, -mag, mag)
    setp(ex, p, r)
@ext('BN_cmp')
def x_bncmp(ex, args, n):
    a, b = bnval(ex, ex.rv(args[0])), bnval(ex, ex.rv(args[1]))
    return cmp3(a, b)
def cmp3(a, b):
    """-1 / 0 / 1"""
    return ite(eq(a, b), P(0), ite(lt(a, b), P(-1), P(1)))
@ext('BN_ucmp')
def x_bnucmp(ex, args, n):
    a, b = bnval(ex, ex.rv(args[0])), bnval(ex, ex.rv(args[1]))
    f = lambda v: ite(le(0, v), v, -v)
    return cmp3(f(a), f(b))
@ext('BN_num_bits')
def x_numbits(ex, args, n): return numbits(bnval(ex, ex.rv(args[0])))
def numbits(v):
    if v.is_const(): return P(abs(v.const()).bit_length())
    if v == Q or v == var('field_p'): return P(256)
    l = log2_exact(v)
    if l is not None: return l + 1
    r = P(app('numbits', v))
    if bn_bounded(v): ASSUME[0](le(r, 256))     # a consequence of the definition
    return r
solver.RANGES['numbits'] = (0, None); solver.RANGES['pt0'] = (2, 4)
@ext('BN_is_bit_set')
def x_isbit(ex, args, n):
    v = bnval(ex, ex.rv(args[0])); k = to_int(ex.rv(args[1]))
    return eq(mod(fdiv(v, pow2(k)), P(2)), P(1))
@ext('BN_lshift')
def x_lshift(ex, args, n):
    p = ex.rv(args[0]); setp(ex, p, bnval(ex, ex.rv(args[1])) * pow2(to_int(ex.rv(args[2])))); return P(1)
@ext('BN_rshift')
def x_rshift(ex, args, n):
    p = ex.rv(args[0]); a = bnval(ex, ex.rv(args[1])); k = to_int(ex.rv(args[2]))
    setp(ex, p, fdiv(a, pow2(k))); return P(1)
@ext('BN_mask_bits')
def x_mask(ex, args, n):
    p = ex.rv(args[0]); v = bnval(ex, p); k = to_int(ex.rv(args[1]))
    nb = numbits(v)
    # fails (value unchanged) when v is already shorter than k bits: the value is its own residue then
    setp(ex, p, mod(v, pow2(k)))
    return ite(le(k, nb), P(1), P(0))
@ext('BN_div')
def x_bndiv(ex, args, n):
    dv, rem = ex.rv(args[0]), ex.rv(args[1])
    a, b = bnval(ex, ex.rv(args[2])), bnval(ex, ex.rv(args[3]))
    q = P(app('bdiv', a, b))
    if isinstance(dv, Ptr): setp(ex, dv, q)
    if isinstance(rem, Ptr): setp(ex, rem, ite(le(0, a), mod(a, b), -mod(-a, b)) if decide(lt(0, b)) is True else P(app('brem', a, b)))
    return P(1)
@ext('BN_rand_range', 'BN_priv_rand_range')
def x_randrange(ex, args, n):
    p = ex.rv(args[0]); m = bnval(ex, ex.rv(args[1]))
    setp(ex, p, rnd(ex, m)); return P(1)
@ext('BN_is_prime_ex')
def x_isprime(ex, args, n): return P(app('isprime', bnval(ex, ex.rv(args[0]))))
@ext('BN_generate_prime_ex')
def x_genprime(ex, args, n): setp(ex, ex.rv(args[0]), rnd(ex, pow2(to_int(ex.rv(args[1]))), 'prime')); return P(1)
@ext('BN_bn2binpad')
def x_binpad(ex, args, n):
    v = bnval(ex, ex.rv(args[0])); p = ex.rv(args[1]); L = to_int(ex.rv(args[2]))
    ok = L.is_const() and bn_bounded(v, L.const())
    if not ok:
        ex.assumed.add('BN_bn2binpad is called on values in [0, 256^len) (otherwise it fails and writes nothing)')
    mem_write(ex, p, enc_bn(v, L), pointee(args[1]))
    return L
@ext('BN_bn2bin')
def x_bn2bin(ex, args, n):
    v = bnval(ex, ex.rv(args[0])); p = ex.rv(args[1])
    L = fdiv(numbits(v) + 7, P(8))
    b = Bytes((v.const().to_bytes(L.const(), 'big'),)) if v.is_const() else seg(app('bnmin', v), L)
    mem_write(ex, p, b, pointee(args[1]))
    return L
@ext('BN_bin2bn')
def x_bin2bn(ex, args, n):
    p = ex.rv(args[0]); L = to_int(ex.rv(args[1])); r = ex.rv(args[2])
    b = mem_read(ex, p, L, pointee(args[0]))
    v = dec_bn(b)
    if isinstance(r, Ptr): setp(ex, r, v); return r
    return Ptr(ex.new_cell(v, 'bn'), (('bn', None),))
@ext('BN_bn2hex', 'BN_bn2dec')
def x_bn2hex(ex, args, n):
    v = bnval(ex, ex.rv(args[0]))
    # the decimal / hexadecimal text determines the number
    return Ptr(ex.new_cell(seg(app('numtext', v), P(app('numtextlen', v))), 'txt'), (('i', P(0)),))
INJ['numtext'] = lambda x, y: eq(x[0], y[0])
@ext('EC_POINT_point2hex')
def x_bn2dec(ex, args, n):
    return Ptr(ex.new_cell(seg(app('text:num'), var('textlen')), 'txt'), (('i', P(0)),))

# ---- OpenSSL EC
@ext('EC_POINT_new')
def x_ptnew(ex, args, n): return Ptr(ex.new_cell(G(P(0)), 'pt'), (('bn', None),))
@ext('EC_POINT_copy')
def x_ptcopy(ex, args, n):
    setp(ex, ex.rv(args[0]), ptval(ex, ex.rv(args[1]))); return P(1)
@ext('EC_POINT_dup')
def x_ptdup(ex, args, n): return Ptr(ex.new_cell(ptval(ex, ex.rv(args[0])), 'pt'), (('bn', None),))
@ext('EC_POINT_add')
def x_ptadd(ex, args, n):
    r = ex.rv(args[1]); setp(ex, r, ptval(ex, ex.rv(args[2])) + ptval(ex, ex.rv(args[3]))); return P(1)
@ext('EC_POINT_dbl')
def x_ptdbl(ex, args, n):
    a = ptval(ex, ex.rv(args[2])); setp(ex, ex.rv(args[1]), a + a); return P(1)
@ext('EC_POINT_invert')
def x_ptinv(ex, args, n):
    p = ex.rv(args[1]); setp(ex, p, G(-ptval(ex, p).p)); return P(1)
@ext('EC_POINT_cmp')
def x_ptcmp(ex, args, n):
    return ite(g0(ptval(ex, ex.rv(args[1])).p - ptval(ex, ex.rv(args[2])).p), P(0), P(1))
@ext('EC_POINT_is_at_infinity')
def x_ptinf(ex, args, n): return g0(ptval(ex, ex.rv(args[1])).p)
@ext('EC_POINT_is_on_curve')
def x_oncurve(ex, args, n):
    ex.assumed.add('every EC_POINT built by the group operations lies on the curve'); return P(1)
@ext('EC_POINT_set_to_infinity')
def x_setinf(ex, args, n): setp(ex, ex.rv(args[1]), G(P(0))); return P(1)
@ext('EC_POINT_mul')
def x_ptmul(ex, args, n):
    r = ex.rv(args[1]); g = ex.rv(args[2]); q = ex.rv(args[3]); m = ex.rv(args[4])
    v = G(P(0))
    if isinstance(g, Ptr): v = v + G(bnval(ex, g))
    if isinstance(q, Ptr) and isinstance(m, Ptr): v = v + ptval(ex, q) * bnval(ex, m)
    setp(ex, r, v); return P(1)
@ext('EC_POINTs_mul')
def x_ptsmul(ex, args, n):
    r = ex.rv(args[1]); g = ex.rv(args[2]); L = to_int(ex.rv(args[3]))
    ps = ex.rv(args[4]); ms = ex.rv(args[5])
    v = P(0)
    if isinstance(g, Ptr): v = bnval(ex, g)
    A = ex.load((ps.cell, ps.path[:-1])); S = ex.load((ms.cell, ms.path[:-1]))
    i0, j0 = ps.path[-1][1], ms.path[-1][1]
    if L.is_const():
        for k in range(L.const()): v = v + vget(A, i0 + k).p * vget(S, j0 + k)
    else:
        j = fresh_atom('i')
        v = v + psum(L, j, vget(A, i0 + P(j)).p * vget(S, j0 + P(j)))
    setp(ex, r, G(v)); return P(1)
def form_of(ex, node):
    v = ex.rv(node)
    nm = strip(node)
    rd = nm.get('referencedDecl', {})
    if rd.get('name') == 'POINT_CONVERSION_COMPRESSED': return 'c'
    if rd.get('name') == 'POINT_CONVERSION_UNCOMPRESSED': return 'u'
    if rd.get('name') == 'POINT_CONVERSION_HYBRID': return 'h'
    raise Unsupported('point conversion form')
@ext('EC_POINT_point2oct')
def x_pt2oct(ex, args, n):
    a = ptval(ex, ex.rv(args[1])); form = form_of(ex, args[2])
    need = 33 if form == 'c' else 65
    buf = ex.rv(args[3])
    if not isinstance(buf, Ptr): return P(need)
    L = to_int(ex.rv(args[4]))
    if L.is_const() and L.const() < need: return P(0)    # buffer too small: error, nothing written
    # the identity is encoded by a single zero byte: the remaining bytes keep what the buffer held before
    try: old = mem_read(ex, buf, P(need), pointee(args[3]))
    except Unsupported: old = None
    inf = g0(a.p)
    if inf is TRUE: mem_write(ex, buf, Bytes((b'\0',)), pointee(args[3])); return P(1)
    pad = None
    if old is not None:
        if len(old.segs) == 1 and isinstance(old.segs[0], tuple) and old.segs[0][0] == 'rep':
            i = fresh_atom('i'); x = open_b(old.segs[0][2], old.segs[0][3], P(i))
            if x.is_const(): pad = x.const()[0]
        elif old.is_const() and len(set(old.const()[1:])) == 1: pad = old.const()[1]
        elif len(old.segs) == 1 and isinstance(old.segs[0], tuple) and old.segs[0][0].name == 'fill' and old.segs[0][0].args[1].is_const(): pad = old.segs[0][0].args[1].const()
    if inf is FALSE or decide_in(ex, inf) is False or pad is not None: e = enc_pt(a, form if pad is None or inf is FALSE else form + str(pad))
    else:
        k = [0]
        g = seg(fresh_atom('stalebytes'), need - 1)
        e = bytes_ite(inf, Bytes((b'\0',)) + g, enc_pt(a, form))
    mem_write(ex, buf, e, pointee(args[3]))
    return ite(inf, P(1), P(need))
def decide_in(ex, b): return solver.decide_pc(tuple(ex.st.pc), b)
def gite(c, a, b):
    """ite on group elements: 'the identity if x is the identity, else x' is x"""
    a = P(a); b = P(b)
    if c.op == 'g0' and a.is_zero() and g0(b) is c: return b
    n = bnot(c)
    if n.op == 'g0' and b.is_zero() and g0(a) is n: return a
    return ite(c, a, b)
def oct_decode(ex, p, L, et, old, known=()):
    L = P(L); a = L.atom()
    if a is not None and a.name == 'ite':
        c = a.args[0]
        return gite(c, oct_decode(ex, p, a.args[1], et, old, known + (c,)), oct_decode(ex, p, a.args[2], et, old, known + (bnot(c),)))
    return bytes_decode(ex, mem_read(ex, p, L, et), old, known)
def cond_known(ex, c, known):
    if c is TRUE: return True
    if c is FALSE: return False
    for k in known:
        if k is c: return True
        if bnot(k) is c: return False
    return solver.decide_pc(tuple(ex.st.pc) + tuple(known), c)
def bytes_decode(ex, b, old, known):
    if b.length() == P(1):
        d = cond_known(ex, eq(byte_at(b, P(0)), 0), known)
        if d is True: return P(0)
        if d is False: return old
        return ite(eq(byte_at(b, P(0)), 0), P(0), old)
    if len(b.segs) == 1 and isinstance(b.segs[0], tuple) and b.segs[0][0] != 'rep':
        a = b.segs[0][0]
        if a.name == 'bite':
            c = a.args[0]
            return gite(c, bytes_decode(ex, a.args[1], old, known + (c,)), bytes_decode(ex, a.args[2], old, known + (bnot(c),)))
        if a.name == 'pt' and b.segs[0][1] == P(33 if a.args[1][0] == 'c' else 65):
            z = g0(a.args[0]); d = cond_known(ex, z, known)
            if d is False: return a.args[0]
            if d is True: return old
            return gite(z, old, a.args[0])
    if b.segs and isinstance(b.segs[0], bytes) and b.segs[0][0] not in (2, 3, 4): return old   # not a point encoding of this length: error, nothing assigned
    return P(app('G:unpt', b))
@ext('EC_POINT_oct2point')
def x_oct2pt(ex, args, n):
    r = ex.rv(args[1]); p = ex.rv(args[2]); L = to_int(ex.rv(args[3]))
    setp(ex, r, G(oct_decode(ex, p, L, pointee(args[2]), ptval(ex, r).p))); return P(1)
@ext('EC_POINT_set_affine_coordinates_GFp', 'EC_POINT_set_affine_coordinates')
def x_setaff(ex, args, n):
    x, y = bnval(ex, ex.rv(args[2])), bnval(ex, ex.rv(args[3]))
    setp(ex, ex.rv(args[1]), G(P(app('G:affine', x, y)))); return P(1)
@ext('EC_POINT_set_compressed_coordinates', 'EC_POINT_set_compressed_coordinates_GFp')
def x_setcomp(ex, args, n):
    r = ex.rv(args[1]); x = bnval(ex, ex.rv(args[2])); b = to_int(ex.rv(args[3]))
    ok = bapp('oncurve_x', x)
    setp(ex, r, G(ite(ok, P(app('G:comp', x, b)), ptval(ex, r).p)))
    return ite(ok, P(1), P(0))
@ext('EC_GROUP_get0_generator')
def x_gen(ex, args, n): return Ptr(ex.new_cell(G(P(1)), 'gen'), (('bn', None),))

# ---- hashes / random
@ext('SHA256')
def x_sha256(ex, args, n):
    p = ex.rv(args[0]); L = to_int(ex.rv(args[1])); o = ex.rv(args[2])
    b = mem_read(ex, p, L, pointee(args[0]))
    mem_write(ex, o, seg(app('sha256', b), 32), pointee(args[2]))
    return o
def x25(base, scalars):
    """x25519 scalar multiplication: commutative in the scalars (group action on x-coordinates)"""
    if len(base.segs) == 1 and isinstance(base.segs[0], tuple) and base.segs[0][0] != 'rep' and base.segs[0][0].name == 'x25':
        a = base.segs[0][0]
        return x25(a.args[0], tuple(a.args[1]) + tuple(scalars))
    return seg(app('x25', base, tuple(sorted(scalars, key=lambda z: z._h))), 32)
BREBUILD['x25'] = x25
@ext('x25519_scalar_mulx')
def x_x25519(ex, args, n):
    o, s, p = [ex.rv(a) for a in args[:3]]
    sb = mem_read(ex, s, P(32), pointee(args[1])); pb = mem_read(ex, p, P(32), pointee(args[2]))
    mem_write(ex, o, x25(pb, (sb,)), pointee(args[0]))
    return None
@ext('RAND_bytes')
def x_randbytes(ex, args, n):
    p = ex.rv(args[0]); L = to_int(ex.rv(args[1]))
    ex.extra['nrnd'] = ex.extra.get('nrnd', 0) + 1
    mem_write(ex, p, seg(app('rndbytes', ex.extra['nrnd'], *ex.loopk), L), pointee(args[0])); return P(1)
# ---- SSE / AES
def bfun(name, f):
    def h(ex, args, n): return f(*[toblk(ex.rv(a)) for a in args])
    EXT[name] = h
def toblk(v):
    if isinstance(v, Ring2): return v
    if isinstance(v, (Poly, B)): return to_int(v)
    if isinstance(v, Ref): raise Unsupported('ref')
    if v is UNDEF: raise Unsupported('uninitialised block')
    raise Unsupported('block from %s' % type(v).__name__)
bfun('_mm_xor_si128', lambda a, b: a ^ b)
bfun('_mm_and_si128', lambda a, b: a & b)
bfun('_mm_or_si128', lambda a, b: a | b)
bfun('_mm_andnot_si128', lambda a, b: (~a) & b)
EXT['_mm_setzero_si128'] = lambda ex, a, n: R0
def mkblk(hi, lo):
    hi, lo = P(hi), P(lo)
    m = (1 << 64) - 1
    if hi.is_const() and lo.is_const():
        h, l = hi.const() & m, lo.const() & m
        if h == 0 and l == 0: return R0
        if h == m and l == m: return R1
        hi, lo = P(h), P(l)
    return R(app('mk', hi, lo))
RREBUILD['mk'] = mkblk
bfun('_mm_set_epi64x', mkblk)
bfun('_mm_aesenc_si128', lambda a, k: R(app('aesenc', a, k)))
bfun('_mm_aesenclast_si128', lambda a, k: R(app('aesenclast', a, k)))
bfun('_mm_aesdec_si128', lambda a, k: R(app('aesdec', a, k)))
bfun('_mm_aesdeclast_si128', lambda a, k: R(app('aesdeclast', a, k)))
bfun('_mm_aesimc_si128', lambda a: R(app('aesimc', a)))
bfun('_mm_slli_si128', lambda a, k: R(app('slli128', a, k)))
bfun('_mm_slli_epi64', lambda a, k: R(app('slli64', a, k)))
bfun('_mm_srli_epi64', lambda a, k: R(app('srli64', a, k)))
bfun('_mm_castps_si128', lambda a: a)
bfun('_mm_castsi128_ps', lambda a: a)
bfun('_mm_cvtsi128_si64', lambda a: lo64(a))
bfun('_mm_cmpgt_epi8', lambda a, b: R(app('cmpgt8', a, b)))
bfun('_mm_cmplt_epi8', lambda a, b: R(app('cmpgt8', b, a)))
bfun('_mm_movemask_epi8', lambda a: P(app('movemask', a)))
bfun('_mm_testz_si128', lambda a, b: ite(req(a & b, R0), P(1), P(0)))
def lo64(a):
    x = a.atom()
    if x is not None and x.name == 'mk': return x.args[1]
    if a == R0: return P(0)
    return P(app('lo64', a))
REBUILD['lo64'] = lo64
@ext('_mm_load_si128', '_mm_loadu_si128', '_mm_lddqu_si128')
def x_load(ex, args, n):
    p = ex.rv(args[0])
    return dec_blk(mem_read(ex, p, P(16), pointee(args[0])))
@ext('_mm_store_si128', '_mm_storeu_si128')
def x_store(ex, args, n):
    p = ex.rv(args[0]); v = toblk(ex.rv(args[1]))
    mem_write(ex, p, enc_blk(v), pointee(args[0]))

REBUILD['r2i'] = r2i
