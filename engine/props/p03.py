from props.common import *
from interp import CONTRACTS
import externals as X
HARNESS = ['p03.cpp', 'p03b.cpp']
INC = ['netio/stream_channel.hpp']
CODE = '''
void vf_inst(NetIO &io){ size_t a=0; uint32_t b=0; int c=0; uint64_t d=0; uint8_t e=0; block f;
 io.SendInteger(a); io.ReceiveInteger(a); io.SendInteger(b); io.ReceiveInteger(b); io.SendInteger(c); io.ReceiveInteger(c); io.SendInteger(d); io.ReceiveInteger(d);
 io.SendInteger(e); io.ReceiveInteger(e); io.SendInteger(f); io.ReceiveInteger(f); }
'''
def prog(u=()): return program(INC, CODE, undef=u)
PRELOAD = [prog]
ASSUMPTIONS = ['the connection neither fails nor is closed by the peer; the transport is a reliable byte stream (TCP) and stdio transfers the whole request unless it fails (ISO C); inside a retry loop every partial count is considered',
 'NetIO::NetIO (socket set-up) is not under contract; it is exercised by the harness']

def send_contract(ex, c):
    """SendBytes(data, LEN): appends exactly the LEN bytes at data to the connection and flushes"""
    s = ex.load((c.this[0], c.this[1] + (('f', 'stream'),)))
    v = ex.load(s.lv())
    b = X.mem_read(ex, c.val(0), c.val(1), 'void')
    ex.store(s.lv(), v.at(b=v.b + b))
    k = 'flushed:' + s.cell
    if k not in ex.st.mem: ex.st.mem[k] = P(0)
    ex.store((k, ()), v.b.length() + b.length())
def recv_contract(ex, c):
    """ReceiveBytes(data, LEN): stores the next LEN bytes of the connection at data"""
    s = ex.load((c.this[0], c.this[1] + (('f', 'stream'),)))
    v = ex.load(s.lv()); n = c.val(1)
    b = bslice(v.b, v.pos, n)
    ex.store(s.lv(), v.at(pos=v.pos + n))
    X.mem_write(ex, c.val(0), b, 'void')
def use(on):
    for k, f in (('NetIO::SendBytes', send_contract), ('NetIO::ReceiveBytes', recv_contract)):
        if on: CONTRACTS[k] = f
        else: CONTRACTS.pop(k, None)

def io(r, b, mode):
    s = r.cell(Stream(b, None, TRUE, mode), 'conn')
    v = r.ex.default('NetIO', True)
    v = Struct(v.cls, dict(v.f, stream=Ptr(s[0])))
    return r.cell(v, 'io'), s
def flushed(r, s):
    v = r.get(s)
    f = r.ex.st.mem.get('flushed:' + s[0], P(0))
    r.prove('everything written is handed to the transport', eq(f, v.b.length()))
def send_bytes(t, ctx):
    use(False); r = Run(t, prog())
    d = r.sym('std::string', 'data'); old = r.sym('std::string', 'old'); n = r.sym('unsigned long', 'n'); off = r.sym('unsigned long', 'off')
    r.assume(le(off + n, d.length()))
    me, s = io(r, old, 'w'); c = r.cell(d)
    r.call('NetIO::SendBytes', Ptr(c[0], (('i', off),)), n, this=me)
    r.prove('SendBytes appends exactly the given bytes', beq(r.get(s).b, old + bslice(d, off, n)))
    r.prove_eq('SendBytes does not change its input', r.get(c), d)
    flushed(r, s); r.finish()
def recv_bytes(t, ctx):
    use(False); r = Run(t, prog())
    a = r.sym('std::string', 'head'); d = r.sym('std::string', 'data'); tl = r.sym('std::string', 'tail'); buf = r.sym('std::string', 'buf'); off = r.sym('unsigned long', 'off')
    n = d.length(); r.assume(le(off + n, buf.length()))
    me, s = io(r, a + d + tl, 'r'); r.ex.store(s, r.get(s).at(pos=a.length())); c = r.cell(buf)
    r.call('NetIO::ReceiveBytes', Ptr(c[0], (('i', off),)), n, this=me)
    r.prove('ReceiveBytes stores exactly the next bytes, nothing else', beq(r.get(c), bslice(buf, 0, off) + d + bslice(buf, off + n, buf.length() - off - n)))
    r.prove('ReceiveBytes consumes exactly LEN bytes', beq(r.get(s).rest(), tl))
    r.finish()
def pair(sfn, rfn, mk, und=()):
    """mk(r) -> (send args, receive destination lvalue args, [(lvalue, expected)])"""
    def f(t, ctx):
        use(True)
        try:
            r = Run(t, prog(und))
            old = r.sym('std::string', 'old'); tl = r.sym('std::string', 'tail')
            sa, ra, post, ssig, rsig = mk(r)
            me, s = io(r, old, 'w')
            r.call(sfn, *sa, this=me, **ssig)
            flushed(r, s)
            b = r.get(s).b
            me2, s2 = io(r, b + tl, 'r'); r.ex.store(s2, r.get(s2).at(pos=old.length()))
            r.call(rfn, *ra, this=me2, **rsig)
            for c, v in post: r.prove_eq('the receiver obtains exactly the value sent', r.get(c), v)
            r.prove('nothing is left over and nothing of the next message is consumed', beq(r.get(s2).rest(), tl))
            r.finish()
        finally: use(False)
    return f
def val(ty, pre=None, sig=None):
    def mk(r):
        v = r.sym(ty, 'v')
        if pre: pre(r, v)
        old = r.sym(ty, 'before') if ty not in ('std::string',) else r.sym(ty, 'before', before=v.length())
        c = r.cell(old); r.ex.ctypes[c[0]] = ty
        g = dict(sig=sig) if sig else {}
        return [v], [c], [(c, v)], g, g
    return mk
def fits(n):
    return lambda r, v: r.assume(band(le(0, v), lt(v, 256 ** n)))
def bn_len(r):
    v = r.sym('BigInt', 'v'); n = r.sym('unsigned long', 'n')
    r.assume(band(le(0, v), lt(v, P(app('pow256', n))) if 0 else X.lt_pow256(v, n)) if hasattr(X, 'lt_pow256') else TRUE)
    c = r.cell(r.sym('BigInt', 'before'))
    return [v, n], [c, n], [(c, v)], dict(n=2), dict(n=2)
def arr(ty, et=None, lenarg=True, sig=None):
    """array of symbolic length at a symbolic offset inside a larger array: only the addressed part changes"""
    def mk(r):
        v = r.sym('std::vector<%s>' % ty, 'v'); w = r.sym('std::vector<%s>' % ty, 'w')
        n = v.n if isinstance(v, Vec) else v.length()
        if isinstance(w, Vec): w = Vec(n, w.idx, w.body)
        else: w = r.sym('std::string', 'w', w=n)
        a = r.cell(v); c = r.cell(w); r.ex.ctypes[a[0]] = r.ex.ctypes[c[0]] = 'std::vector<%s>' % ty
        g = dict(sig=sig) if sig else {}
        return [Ptr(a[0], (('i', P(0)),)), n], [Ptr(c[0], (('i', P(0)),)), n], [(c, v)], g, g
    return mk
def bytesvec(r):
    v = r.sym('std::vector<std::vector<unsigned char>>', 'v')
    L = r.sym('unsigned long', 'L'); i = fresh_atom('i')
    v = Vec(v.n, i, seg(app('row', P(i)), L)); r.assume(le(1, v.n))
    c = r.cell(r.ex.default('std::vector<std::vector<unsigned char>>', True))
    return [v], [c], [(c, v)], {}, {}
def strvec(r):
    L = r.sym('unsigned long', 'L'); i = fresh_atom('i'); n = r.sym('unsigned long', 'n')
    v = Vec(n, i, seg(app('row', P(i)), L))
    c = r.cell(r.ex.default('std::vector<std::string>', True))
    return [v, L], [c, L], [(c, v)], {}, {}
def inst(ty, ctype):
    def mk(r):
        f = lambda nm: [d for d in r.prog.by_name[nm] if not d.get('_pattern') and ctype in [x.replace('const', '').replace('&', '').strip() for x in r.ptypes(d)]][0]
        v = r.sym(ty, 'v'); c = r.cell(r.sym(ty, 'before')); r.ex.ctypes[c[0]] = ty
        return f, v, c
    def t_(t, ctx):
        use(True)
        try:
            r = Run(t, prog()); f, v, c = mk(r)
            old = r.sym('std::string', 'old'); tl = r.sym('std::string', 'tail')
            me, s = io(r, old, 'w'); r.call(f('NetIO::SendInteger'), v, this=me); flushed(r, s)
            me2, s2 = io(r, r.get(s).b + tl, 'r'); r.ex.store(s2, r.get(s2).at(pos=old.length()))
            r.call(f('NetIO::ReceiveInteger'), c, this=me2)
            r.prove_eq('the receiver obtains exactly the value sent', r.get(c), v)
            r.prove('nothing is left over and nothing of the next message is consumed', beq(r.get(s2).rest(), tl))
            r.finish()
        finally: use(False)
    return t_
def tasks(tier):
    T = [Task('SendBytes', send_bytes), Task('ReceiveBytes', recv_bytes)]
    for u, sx in (((), ''), (('+ECPOINT_COMPRESSED',), '/compressed')):
        T.append(Task('ECPoint' + sx, pair('NetIO::SendECPoint', 'NetIO::ReceiveECPoint', val('ECPoint'), u)))
        T.append(Task('ECPoints' + sx, pair('NetIO::SendECPoints', 'NetIO::ReceiveECPoints', arr('ECPoint'), u)))
    T.append(Task('BigInt', pair('NetIO::SendBigInt', 'NetIO::ReceiveBigInt', lambda r: val('BigInt', fits(32))(r)[:3] + (dict(n=1), dict(n=1)))))
    T.append(Task('BigInt/len', pair('NetIO::SendBigInt', 'NetIO::ReceiveBigInt', bn_len)))
    T.append(Task('Block', pair('NetIO::SendBlock', 'NetIO::ReceiveBlock', val('__m128i'))))
    T.append(Task('Blocks', pair('NetIO::SendBlocks', 'NetIO::ReceiveBlocks', arr('__m128i'))))
    T.append(Task('Bits', pair('NetIO::SendBits', 'NetIO::ReceiveBits', arr('unsigned char'))))
    T.append(Task('String/raw', pair('NetIO::SendString', 'NetIO::ReceiveString', arr('unsigned char', sig='char*'))))
    T.append(Task('String', pair('NetIO::SendString', 'NetIO::ReceiveString', val('std::string', sig='std::string&'))))
    T.append(Task('EC25519Points', pair('NetIO::SendEC25519Points', 'NetIO::ReceiveEC25519Points', arr('EC25519Point'))))
    T.append(Task('BytesVector', pair('NetIO::SendBytesVector', 'NetIO::ReceiveBytesVector', bytesvec)))
    T.append(Task('StringVector', pair('NetIO::SendStringVector', 'NetIO::ReceiveStringVector', strvec)))
    for ty, ct in (('unsigned long', 'unsigned long'), ('unsigned int', 'unsigned int'), ('int', 'int'), ('unsigned char', 'unsigned char')):
        T.append(Task('Integer/' + ct, inst(ty, ct)))
    return T
