from props.common import *
from duo import mentions, is_app
HARNESS = ['p16.cpp', 'p16b.cpp']
INC = ['crypto/setup.hpp', 'filter/bloom_filter.hpp']
TYPES = {'uint64_t': 'unsigned long', 'uint32_t': 'unsigned int', 'uint8_t': 'unsigned char', 'block': '__m128i', 'std::string': 'std::string', 'ECPoint': 'ECPoint', 'EC25519Point': 'EC25519Point'}
def code():
    out = []
    for k, (t, _) in enumerate(TYPES.items()):
        out.append('void vi%d(BloomFilter &f, const %s &x){ f.Insert(x); }\nbool vc%d(BloomFilter &f, const %s &x){ return f.Contain(x); }' % (k, t, k, t))
        out.append('void vvi%d(BloomFilter &f, const std::vector<%s> &x){ f.Insert(x); }\nstd::vector<uint8_t> vvc%d(BloomFilter &f, const std::vector<%s> &x){ return f.Contain(x); }' % (k, t, k, t))
    return '\n'.join(out)
def prog(u=()): return program(INC, code(), undef=u)
PRELOAD = [prog]
ASSUMPTIONS = ['the keyed hash is a function of salt and bytes', 'at least one element is projected, the table has fewer than 2^32 bits']
class Ghost:
    """abstract content of the filter: the byte strings inserted so far (contract of PlainInsert / PlainContain, discharged by the bit-level tasks)"""
    def __init__(self, r): self.cell = r.cell(SetV('set'), 'ghost')
    def contracts(self):
        g = self.cell
        def key(ex, c):
            n = P(c.val(1)); return X.mem_read(ex, c.val(0), n, 'void')
        def ins(ex, c):
            v = ex.load(g); ex.store(g, SetV('set', v.items + (('e', TRUE, key(ex, c), None),)))
        def has(ex, c):
            return X.set_contains(ex, ex.load(g), key(ex, c))
        return {'BloomFilter::PlainInsert': ins, 'BloomFilter::PlainContain': has}
class With:
    def __init__(self, cs): self.cs = cs
    def __enter__(self):
        from interp import CONTRACTS
        self.old = {k: CONTRACTS.get(k) for k in self.cs}; CONTRACTS.update(self.cs)
    def __exit__(self, *a):
        from interp import CONTRACTS
        for k, v in self.old.items():
            if v is None: CONTRACTS.pop(k, None)
            else: CONTRACTS[k] = v
def encoding(k, t, u):
    def f(task, ctx):
        r = Run(task, prog(u)); g = Ghost(r); fc = r.cell(r.ex.default('BloomFilter', True))
        x, y = r.sym(t, 'x'), r.sym(t, 'y'); cx, cy = r.cell(x), r.cell(y)
        with With(g.contracts()):
            r.prove('nothing is contained before an insertion', bnot(to_bool(r.call('vc%d' % k, fc, cx))))
            r.call('vi%d' % k, fc, cx)
            r.prove('an inserted element is contained', to_bool(r.call('vc%d' % k, fc, cx)))
            r.call('vi%d' % k, fc, cy)
            r.prove('it stays contained when another one is inserted', to_bool(r.call('vc%d' % k, fc, cx)))
            r.prove_eq('the element stays unchanged', r.get(cx), x)
            n = r.sym('unsigned long', 'n'); v = r.sym('std::vector<%s>' % t, 'v', v=n); cv = r.cell(v)
            r.call('vvi%d' % k, fc, cv)
            i = P(fresh_atom('i')); r.assume(band(le(0, i), lt(i, n)))
            ci = r.cell(vget(v, i) if isinstance(v, Vec) else X.byte_at(v, i) if hasattr(X, 'byte_at') else byte_at(v, i))
            r.prove('every element of a batch is contained', to_bool(r.call('vc%d' % k, fc, ci)))
            r.prove('what was inserted before the batch stays contained', to_bool(r.call('vc%d' % k, fc, cx)))
            w = r.call('vvc%d' % k, fc, cv)
            if isinstance(w, Bytes): w = bytes_to_vec(w)
            r.prove('one answer per element', eq(w.n, n)); r.prove('the batch query reports every element', eq(to_int(vget(w, i)), 1))
            r.no_race('no two iterations write the same location'); r.no_abort('no abort')
        r.finish()
    return f
def salts(ex, c):
    n, s = P(c.val(0)), P(c.val(1)); i = fresh_atom('i'); return Vec(n, i, P(app('salt', n, s, P(i))))
def filt(r):
    m, h, s = r.sym('unsigned long', 'm'), r.sym('unsigned int', 'hn'), r.sym('unsigned int', 'seed')
    r.assume(band(le(1, m), lt(m * 8, 1 << 32), lt(h, 1 << 32), lt(s, 1 << 32)))
    v = r.ex.default('BloomFilter', True); i = fresh_atom('i')
    p, q = r.sym('unsigned long', 'proj'), r.sym('unsigned long', 'ins'); r.assume(band(lt(p, 1 << 64), lt(q, 1 << 64)))
    v.f.update(random_seed=s, hash_num=h, vec_salt=Vec(h, i, P(app('salt', h, s, P(i)))), table_size=m * 8, bit_table=Bytes(((app('T'), m),)), projected_element_num=p, inserted_element_num=q)
    return v
def compare(r, v, w):
    for k in ('random_seed', 'hash_num', 'table_size', 'projected_element_num', 'inserted_element_num', 'bit_table', 'vec_salt'):
        r.prove_eq('%s survives' % k, w.f[k], v.f[k])
def mem_rt(task, ctx):
    r = Run(task, prog()); v = filt(r); a, b = r.cell(v), r.cell(r.ex.default('BloomFilter', True))
    with With({'GenUniqueSaltVector': salts}):
        sz = r.call('BloomFilter::ObjectSize', this=a)
        buf = r.cell(Bytes(((app('junk'), P(sz)),)), 'buf'); r.ex.ctypes[buf[0]] = 'char[]'
        p = Ptr(buf[0], buf[1] + (('i', P(0)),))
        ok = r.call('BloomFilter::WriteObject', p, sig='bool (char *)', this=a)
        r.prove('writing succeeds', to_bool(ok)); r.prove('exactly the announced size is written', eq(r.get(buf).length(), sz))
        task.result('the whole buffer is written', not mentions(r.get(buf), lambda y: is_app(y, 'junk')), str(r.get(buf))[:300])
        r.prove_eq('the filter stays unchanged by writing', r.get(a).f['bit_table'], v.f['bit_table'])
        ok = r.call('BloomFilter::ReadObject', p, sig='bool (char *)', this=b)
        r.prove('reading succeeds', to_bool(ok)); compare(r, v, r.get(b))
    r.no_abort('no abort'); r.finish()
def file_rt(task, ctx):
    r = Run(task, prog()); v = filt(r); a, b = r.cell(v), r.cell(r.ex.default('BloomFilter', True))
    fn = r.cell(Bytes((b'f',)))
    with With({'GenUniqueSaltVector': salts}):
        ok = r.call('BloomFilter::WriteObject', fn, sig='bool (std::string)', this=a)
        r.prove('writing succeeds', to_bool(ok))
        ok = r.call('BloomFilter::ReadObject', fn, sig='bool (std::string)', this=b)
        r.prove('reading succeeds', to_bool(ok)); compare(r, v, r.get(b))
    r.finish()
def tasks(tier):
    T = [Task('Write/ReadObject/memory', mem_rt), Task('Write/ReadObject/file', file_rt)]
    for k, (nm, t) in enumerate(TYPES.items()):
        for u in ((), ('+ECPOINT_COMPRESSED',)) if nm == 'ECPoint' else ((),): T.append(Task('Insert/Contain %s%s' % (nm, ' (compressed)' if u else ''), encoding(k, t, u)))
    return T
# ---- the bit level: PlainInsert and PlainContain
def mh(ex, c):
    k = X.mem_read(ex, c.val(1), P(c.val(2)), 'void'); h = P(app('mh', P(c.val(0)), k)); ex.assume(band(le(0, h), lt(h, 1 << 32))); return h
def ring(x): return i2r(P(x))
def bit_at(tab, m, salt, x):
    """(byte address, mask as ring element) of the bit the keyed hash selects"""
    h = mod(P(app('mh', P(salt), x)), m * 8)
    return fdiv(h, P(8)), ring(X.byte_at(Bytes((bytes([1, 2, 4, 8, 16, 32, 64, 128]),)), mod(h, P(8))) if hasattr(X, 'byte_at') else byte_at(Bytes((bytes([1, 2, 4, 8, 16, 32, 64, 128]),)), mod(h, P(8))))
def table(m, name='T'): return Bytes(((app(name), m),))
def held(m, a0, name='T'):
    """an arbitrary table whose byte a0 has all bits of an arbitrary mask"""
    M, Bb = (i2r(byte_at(seg(app(z + name), 1), P(0))) for z in ('M', 'B'))
    return vset(bytes_to_vec(table(m, name)), a0, r2i(M ^ Bb ^ (M & Bb))), M
def tb(v, a): return ring(vget(v, a) if isinstance(v, Vec) else byte_at(v, a))
def setup_plain(task, hn=None):
    r = Run(task, prog()); v = filt(r); L = r.sym('unsigned long', 'L')
    if hn is not None:
        v.f['hash_num'] = P(hn); i = fresh_atom('i'); v.f['vec_salt'] = Vec(P(hn), i, P(app('salt', P(hn), v.f['random_seed'], P(i))))
    x = Bytes(((app('x'), L),)); b = r.cell(x); r.ex.ctypes[b[0]] = 'unsigned char[]'
    return r, v, L, x, Ptr(b[0], b[1] + (('i', P(0)),))
def holds(r, name, M, byte): r.prove_eq(name, M & ring(byte), M)
def insert(task, ctx):
    """loop invariant of PlainInsert: bits that are set stay set, and the bit of every hash function passed is set"""
    r, v, L, x, pt = setup_plain(task); m = P(app('m')); hn = v.f['hash_num']; a = r.cell(v); q0 = v.f['inserted_element_num']
    import loops
    seen = []
    def rule(ex, n, evc, inc, body, pre):
        st0 = ex.st.copy(); k = fresh_atom('k'); K = P(k)
        var = None
        for cand in loop_vars(ex, n, inc):
            if ex.load(cand) == P(0): var = cand
        if var is None: return False
        def once(tab):
            ex.st = st0.copy(); ex.store(var, K); ex.assume(le(0, K)); c = to_bool(evc()); ex.assume(c)
            t = dict(ex.load(a).f); t['bit_table'] = tab; ex.store(a, Struct(v.cls, t)); log = ex.log; ex.log = []
            br = ex.iter_body(body, inc, pre); wr = ex.log; ex.log = log
            if br or not ex.st.alive: raise Unsupported('early exit')
            return c, wr, ex.load(a).f
        c, wr, f1 = once(table(m, 'T%d' % len(seen)))
        N = loops.trip(c, k, ex, st0)
        r.prove('every hash function is used', eq(N, hn))
        task.prove('the loop advances by one', ex.st.pc, eq(ex.load(var), K + 1))
        for key in ('random_seed', 'hash_num', 'table_size', 'vec_salt', 'projected_element_num'): task.prove('an iteration leaves %s alone' % key, ex.st.pc, X.val_eq(f1[key], v.f[key]))
        a0, M = bit_at(None, m, P(app('salt', hn, v.f['random_seed'], K)), x)
        task.prove('an iteration sets the bit its hash function selects', ex.st.pc, X.val_eq(M & tb(f1['bit_table'], a0), M))
        z = P(app('z')); tab, M0 = held(m, z, 'T%d' % len(seen)); ex.st = st0.copy()
        c, wr, f1 = once(tab); pc = ex.st.pc + (le(0, z), lt(z, m))
        task.prove('an iteration keeps every bit that was set', pc, X.val_eq(M0 & tb(f1['bit_table'], z), M0))
        task.prove('an iteration keeps the size of the table', ex.st.pc, eq(f1['bit_table'].length(), m))
        seen.append(1); ex.st = st0.copy(); ex.store(var, N)
        for lv in loop_writes(wr, st0):
            if lv != (a[0], ()) and lv != var: ex.st.mem[lv[0]] = havoc(ex.st.mem[lv[0]])
        t = dict(ex.load(a).f); t['bit_table'] = table(m, 'T%d' % len(seen)); ex.store(a, Struct(v.cls, t))
        return True
    r.ex.loop_rule = rule
    with With({'LiteMurmurHash': mh, 'MurmurHash3': mh}):
        r.call('BloomFilter::PlainInsert', pt, L, this=a)
    task.result('exactly one loop sets the bits', len(seen) == 1 or None, str(len(seen)))
    r.prove('the number of insertions is counted', eq(r.get(a).f['inserted_element_num'], q0 + 1))
    r.no_abort('no abort'); r.finish()
def havoc(v): return v if not isinstance(v, (Vec, Bytes, Poly)) else Vec(v.n, None, P(app('any', fresh_atom('h')))) if isinstance(v, Vec) else v
def loop_writes(log, st0): return {(c, ()) for c, p in log if c in st0.mem}
def loop_vars(ex, n, inc):
    from interp import iter_nodes
    for d in iter_nodes(inc if isinstance(inc, dict) else n):
        if d.get('kind') == 'DeclRefExpr':
            i = (d.get('referencedDecl') or {}).get('id')
            if i in ex.frames[-1].env: yield ex.frames[-1].env[i]
def unrolled(hn):
    def f(task, ctx):
        r, v, L, x, pt = setup_plain(task, hn); m = P(app('m')); z = P(app('z')); r.assume(band(le(0, z), lt(z, m)))
        v.f['bit_table'], M0 = held(m, z); a = r.cell(v)
        with With({'LiteMurmurHash': mh, 'MurmurHash3': mh}):
            r.call('BloomFilter::PlainInsert', pt, L, this=a)
            t = r.get(a).f['bit_table']
            r.prove_eq('bits that were set stay set', M0 & tb(t, z), M0)
            r.prove('the inserted element is contained', to_bool(r.call('BloomFilter::PlainContain', pt, L, this=a)))
            r.prove_eq('a query does not change the filter', r.get(a).f['bit_table'], t)
        r.finish()
    return f
def contain(task, ctx):
    r, v, L, x, pt = setup_plain(task); m = P(app('m')); hn = v.f['hash_num']; a = r.cell(v)
    with With({'LiteMurmurHash': mh, 'MurmurHash3': mh}):
        res = to_bool(r.call('BloomFilter::PlainContain', pt, L, this=a))
    i = fresh_atom('i'); a0, M = bit_at(None, m, P(app('salt', hn, v.f['random_seed'], P(i))), x)
    r.prove('an element is reported exactly when the bit of every hash function is set', biff(res, ball(hn, i, eq(r2i(M & tb(v.f['bit_table'], a0)), r2i(M)))))
    r.no_abort('no abort'); r.finish()
_t = tasks
def tasks(tier):
    T = _t(tier) + [Task('PlainInsert', insert), Task('PlainContain', contain)]
    for h in (1, 2) + ((3,) if tier != 'quick' else ()): T.append(Task('PlainInsert+PlainContain/%d hash functions' % h, unrolled(h), bounded='%d hash functions' % h))
    return T
