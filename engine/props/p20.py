from props.common import *
from props.p16 import With
from duo import *
import symm
HARNESS = ['p20.cpp']
INC = ['crypto/setup.hpp', 'mpc/vole/vole.hpp']
def prog(u=()): return program(INC, '', undef=u)
PRELOAD = [prog]
ASSUMPTIONS = ['AES is a function of key and block', 'carry-less multiplication intrinsics (bilinearity of the field product) enter through the real-code replay']
def blk(r, n): return r.sym('__m128i', n)
def vec0(r): return r.cell(Vec(P(0), None, UNDEF))
def tree(depth, lo, hi):
    """the receiver of the messages selected by the complement of position a recomputes every leaf, the one at a shifted by what was added to the sum"""
    def f(task, ctx):
        for a in range(lo, hi):
            r = Run(task, prog()); k, dlt = blk(r, 'k'), blk(r, 'delta'); old = blk(r, 'old')
            leaf, m0, m1, sel = vec0(r), r.cell(mkvec([old])), r.cell(mkvec([old])), vec0(r)
            s = r.call('VOLE::FullEval', P(depth), k, leaf, m0, m1); L, M0, M1 = r.get(leaf), r.get(m0), r.get(m1)
            r.prove('a tree has 2^depth leaves', eq(L.n, 1 << depth)); r.prove('one pair of messages per level is appended', band(eq(M0.n, depth + 1), eq(M1.n, depth + 1)))
            x = R0
            for i in range(1 << depth): x = x ^ vget(L, P(i))
            r.prove_eq('the sum of the leaves is returned', s, x)
            r.call('VOLE::TransToBitVec', P(a), sel, P(depth)); S = r.get(sel); S = bytes_to_vec(S) if isinstance(S, Bytes) else S
            m = mkvec([vget(M1, P(i + 1)) if to_int(vget(S, P(i))) == P(1) else vget(M0, P(i + 1)) for i in range(depth)])
            pm, ps = r.cell(m), r.cell(r.get(sel)); pt = lambda c: Ptr(c[0], c[1] + (('i', P(0)),))
            p = r.call('VOLE::PuncEval', P(depth), s ^ dlt, pt(pm), pt(ps))
            r.prove('as many leaves as the full tree', eq(p.n, 1 << depth))
            for i in range(1 << depth): r.prove_eq('leaf %d of the tree punctured at %d' % (i, a), vget(p, P(i)), vget(L, P(i)) ^ dlt if i == a else vget(L, P(i)))
            r.no_abort('no abort'); r.finish()
    return f
def mkvec(xs):
    i = fresh_atom('i'); r = Vec(P(len(xs)), i, R0)
    for k, x in enumerate(xs): r = vset(r, P(k), x)
    return r

def tasks(tier): return [Task('tree%d' % d, tree(d, 0, 1 << d), bounded='depth %d' % d) for d in (1, 2, 3, 4, 5) + ((6,) if tier == 'thorough' else ())]
