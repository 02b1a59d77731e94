from props.common import *
from props.p16 import With
from duo import mentions, is_app
import props.p17ir as ir
HARNESS = ['p17.cpp', 'p17b.cpp']
INC = ['crypto/setup.hpp', 'filter/cuckoo_filter.hpp']
TYPES = {'uint64_t': 'unsigned long', 'uint32_t': 'unsigned int', 'uint8_t': 'unsigned char', 'block': '__m128i', 'std::string': 'std::string', 'ECPoint': 'ECPoint'}
def code():
    out = []
    for k, t in enumerate(TYPES):
        out.append('bool ci%d(CuckooFilter &f, const %s &x){ return f.Insert(x); }\nbool cc%d(CuckooFilter &f, const %s &x){ return f.Contain(x); }\nbool cd%d(CuckooFilter &f, const %s &x){ return f.Delete(x); }' % (k, t, k, t, k, t))
        out.append('bool cvi%d(CuckooFilter &f, std::vector<%s> &x){ return f.Insert(x); }\nbool ccvi%d(CuckooFilter &f, const std::vector<%s> &x){ return f.Insert(x); }' % (k, t, k, t))
    return '\n'.join(out)
def prog(u=()): return program(INC, code(), undef=u)
PRELOAD = [prog]
ASSUMPTIONS = ['the keyed hash is a function of salt and bytes', 'the class invariant (slot_num 4, 16-bit tags, 8-byte buckets, bucket_num a power of two of at most 2^32, a table of bucket_num buckets) is established by the constructor (exercised, not proved)',
               'an element is deleted only as often as it was inserted']
class Keys:
    """PlainInsert / PlainContain / PlainDelete by contract: which bytes they are given"""
    def __init__(self, r): self.r = r; self.cell = r.cell(SetV('set'), 'ghost'); self.log = []
    def contracts(self):
        g = self.cell
        def key(ex, c): return X.mem_read(ex, c.val(0), P(c.val(1)), 'void')
        def ins(ex, c): ex.store(g, SetV('set', ex.load(g).items + (('e', TRUE, key(ex, c), None),))); return TRUE
        def has(ex, c): return X.set_contains(ex, ex.load(g), key(ex, c))
        def dele(ex, c): self.log.append(key(ex, c)); return X.set_contains(ex, ex.load(g), self.log[-1])
        return {'CuckooFilter::PlainInsert': ins, 'CuckooFilter::PlainContain': has, 'CuckooFilter::PlainDelete': dele}
def encoding(k, t, u):
    def f(task, ctx):
        r = Run(task, prog(u)); g = Keys(r); fc = r.cell(r.ex.default('CuckooFilter', True))
        x, y = r.sym(t, 'x'), r.sym(t, 'y'); cx, cy = r.cell(x), r.cell(y)
        with With(g.contracts()):
            r.prove('nothing is contained before an insertion', bnot(to_bool(r.call('cc%d' % k, fc, cx))))
            r.prove('insertion reports what the filter reports', to_bool(r.call('ci%d' % k, fc, cx)))
            r.prove('an inserted element is looked up under the key it was inserted with', to_bool(r.call('cc%d' % k, fc, cx)))
            r.prove('an inserted element is deleted under the key it was inserted with', to_bool(r.call('cd%d' % k, fc, cx)))
            r.prove_eq('the element stays unchanged', r.get(cx), x)
            n = r.sym('unsigned long', 'n'); v = r.sym('std::vector<%s>' % t, 'v', v=n); cv = r.cell(v)
            i = P(fresh_atom('i')); r.assume(band(le(0, i), lt(i, n)))
            ci = r.cell(vget(v, i) if isinstance(v, Vec) else byte_at(v, i))
            for nm in ('cvi', 'ccvi'):
                r.ex.store(g.cell, SetV('set', ()))
                r.prove('a batch whose elements are all accepted is accepted', to_bool(r.call('%s%d' % (nm, k), fc, cv)))
                r.prove('every element of an accepted batch is in the filter', to_bool(r.call('cc%d' % k, fc, ci)))
        r.no_abort('no abort'); r.finish()
    return f
def filt(r):
    v = r.ex.default('CuckooFilter', True); n = {}
    for k in ('inserted_element_num', 'max_kick_count', 'slot_num', 'tag_bit_size', 'bucket_byte_size', 'bucket_num'): n[k] = r.sym('unsigned long', k[:3]); r.assume(band(le(0, n[k]), lt(n[k], 1 << 32)))
    n['bucket_byte_size'] = P(8)
    vic = r.ex.default('VictimCache', True); vv = {k: r.sym('unsigned int', 'v' + k[:2]) for k in ('bucket_index', 'tag', 'used')}
    for z in vv.values(): r.assume(band(le(0, z), lt(z, 1 << 32)))
    vic.f.update(vv); v.f.update(n); v.f['victim'] = vic; v.f['bucket_table'] = Bytes(((app('T'), n['bucket_num'] * 8),)); return v
def compare(r, v, w):
    for k in ('inserted_element_num', 'max_kick_count', 'slot_num', 'tag_bit_size', 'bucket_byte_size', 'bucket_num', 'bucket_table'): r.prove_eq('%s survives' % k, w.f[k], v.f[k])
    for k in ('bucket_index', 'tag', 'used'): r.prove_eq('victim.%s survives' % k, w.f['victim'].f[k], v.f['victim'].f[k])
def mem_rt(task, ctx):
    r = Run(task, prog()); v = filt(r); a, b = r.cell(v), r.cell(r.ex.default('CuckooFilter', True))
    sz = r.call('CuckooFilter::ObjectSize', this=a)
    buf = r.cell(Bytes(((app('junk'), P(sz)),)), 'buf'); r.ex.ctypes[buf[0]] = 'char[]'; p = Ptr(buf[0], buf[1] + (('i', P(0)),))
    ok = r.call('CuckooFilter::WriteObject', p, sig='bool (char *)', this=a)
    r.prove('writing succeeds', to_bool(ok)); r.prove('exactly the announced size is written', eq(r.get(buf).length(), sz))
    task.result('the whole buffer is written', not mentions(r.get(buf), lambda y: is_app(y, 'junk')), str(r.get(buf))[:300])
    compare(r, v, r.get(a))
    ok = r.call('CuckooFilter::ReadObject', p, sig='bool (char *)', this=b)
    r.prove('reading succeeds', to_bool(ok)); compare(r, v, r.get(b)); r.no_abort('no abort'); r.finish()
def file_rt(task, ctx):
    r = Run(task, prog()); v = filt(r); a, b = r.cell(v), r.cell(r.ex.default('CuckooFilter', True)); fn = r.cell(Bytes((b'f',)))
    r.prove('writing succeeds', to_bool(r.call('CuckooFilter::WriteObject', fn, sig='bool (std::string)', this=a)))
    r.prove('reading succeeds', to_bool(r.call('CuckooFilter::ReadObject', fn, sig='bool (std::string)', this=b))); compare(r, v, r.get(b)); r.finish()
def tasks(tier):
    T = [Task('Write/ReadObject/memory', mem_rt), Task('Write/ReadObject/file', file_rt)]
    for k, (nm, t) in enumerate(TYPES.items()):
        for u in ((), ('+ECPOINT_COMPRESSED',)) if nm == 'ECPoint' else ((),): T.append(Task('Insert/Contain/Delete %s%s' % (nm, ' (compressed)' if u else ''), encoding(k, t, u)))
    for nm, f in (('PlainInsert', ir.insert), ('PlainContain', ir.contain), ('PlainDelete', ir.delete)):
        def g(task, ctx, f=f, nm=nm): task.functions |= {'CuckooFilter::' + nm}; f(task, ctx)
        T.append(Task(nm + ' (LLVM IR, loop invariant)', g))
    return T
