"""shared by P08 and P09"""
from props.common import *
INC = ['crypto/setup.hpp', 'zkp/nizk/nizk_dlog_knowledge.hpp', 'zkp/nizk/nizk_dlog_equality.hpp', 'zkp/nizk/nizk_plaintext_knowledge.hpp',
       'zkp/nizk/nizk_plaintext_equality.hpp', 'zkp/nizk/nizk_enc_relation.hpp']
def prog(): return program(INC)
def pt(r, n): return r.sym('ECPoint', n)

def dk(r):
    ns = 'DLOGKnowledge'
    pp = r.call(ns + '::Setup')
    ins = r.sym(ns + '::Instance', 'ins')
    return ns, pp, ins
def inst(r, ns):
    """(pp, true instance, witness, arbitrary instance, arbitrary proof, equations(ins, proof, e), committed components)"""
    w = r.sym('BigInt', 'w'); S = lambda f: Struct(ns + '::Instance', f)
    if ns == 'DLOGKnowledge':
        pp = r.call(ns + '::Setup'); g = pt(r, 'g')
        true = S({'g': g, 'h': g * w}); wit = Struct(ns + '::Witness', {'w': w})
        any_ = S({'g': g, 'h': pt(r, 'h')}); pf = r.sym(ns + '::Proof', 'proof')
        eqs = lambda i, p, e: [g0(i.f['g'].p * p.f['z'] - p.f['A'].p - i.f['h'].p * e)]
        return pp, true, wit, any_, pf, eqs, [('g', g), ('h', any_.f['h']), ('A', pf.f['A'])]
    if ns == 'DLOGEquality':
        pp = r.call(ns + '::Setup'); g1, g2 = pt(r, 'g1'), pt(r, 'g2')
        true = S({'g1': g1, 'g2': g2, 'h1': g1 * w, 'h2': g2 * w}); wit = Struct(ns + '::Witness', {'w': w})
        any_ = S({'g1': g1, 'g2': g2, 'h1': pt(r, 'h1'), 'h2': pt(r, 'h2')}); pf = r.sym(ns + '::Proof', 'proof')
        eqs = lambda i, p, e: [g0(i.f['g1'].p * p.f['z'] - p.f['A1'].p - i.f['h1'].p * e), g0(i.f['g2'].p * p.f['z'] - p.f['A2'].p - i.f['h2'].p * e)]
        return pp, true, wit, any_, pf, eqs, [(k, any_.f[k]) for k in ('g1', 'g2', 'h1', 'h2')] + [('A1', pf.f['A1']), ('A2', pf.f['A2'])]
    enc = r.sym('TwistedExponentialElGamal::PP', 'pp')
    v, rr = r.sym('BigInt', 'v'), r.sym('BigInt', 'r')
    wit = Struct(ns + '::Witness', {'v': v, 'r': rr}); g, h = enc.f['g'], enc.f['h']
    pf = r.sym(ns + '::Proof', 'proof')
    pp = r.call(ns + '::Setup', enc)
    r.prove_eq('setup keeps the base g', pp.f['g'], g); r.prove_eq('setup keeps the base h', pp.f['h'], h)
    if ns == 'PlaintextKnowledge':
        pk = pt(r, 'pk'); CT = lambda x, y: Struct('TwistedExponentialElGamal::CT', {'X': x, 'Y': y})
        true = S({'pk': pk, 'ct': CT(pk * rr, g * rr + h * v)}); any_ = S({'pk': pk, 'ct': CT(pt(r, 'X'), pt(r, 'Y'))})
        eqs = lambda i, p, e: [g0(i.f['pk'].p * p.f['z1'] - p.f['A'].p - i.f['ct'].f['X'].p * e),
                               g0(g.p * p.f['z1'] + h.p * p.f['z2'] - p.f['B'].p - i.f['ct'].f['Y'].p * e)]
        return pp, true, wit, any_, pf, eqs, [('pk', pk), ('X', any_.f['ct'].f['X']), ('Y', any_.f['ct'].f['Y']), ('A', pf.f['A']), ('B', pf.f['B'])]
    if ns == 'PlaintextEquality':
        n = r.sym('size_t', 'n'); r.assume(le(1, n)); i = fresh_atom('i')
        vp = lambda nm: Vec(n, i, G(P(app('G:' + nm, P(i)))))
        pks = vp('pk'); MR = lambda x, y: Struct('TwistedExponentialElGamal::MRCT', {'vec_X': x, 'Y': y})
        true = S({'vec_pk': pks, 'ct': MR(Vec(n, i, G(P(app('G:pk', P(i))) * rr)), g * rr + h * v)})
        any_ = S({'vec_pk': pks, 'ct': MR(vp('X'), pt(r, 'Y'))})
        pf = Struct(ns + '::Proof', {'vec_A': vp('A'), 'B': pt(r, 'B'), 'z': r.sym('BigInt', 'z'), 't': r.sym('BigInt', 't')})
        def eqs(ii, p, e):
            j = fresh_atom('j')
            return [ball(n, j, g0(vget(ii.f['vec_pk'], P(j)).p * p.f['z'] - vget(p.f['vec_A'], P(j)).p - vget(ii.f['ct'].f['vec_X'], P(j)).p * e)),
                    g0(g.p * p.f['z'] + h.p * p.f['t'] - p.f['B'].p - ii.f['ct'].f['Y'].p * e)]
        return pp, true, wit, any_, pf, eqs, [('pk', pks), ('X', any_.f['ct'].f['vec_X']), ('Y', any_.f['ct'].f['Y']), ('A', pf.f['vec_A']), ('B', pf.f['B'])]
NS = ['DLOGKnowledge', 'DLOGEquality', 'PlaintextKnowledge', 'PlaintextEquality']

def complete(ns):
    def f(t, ctx):
        r = Run(t, prog())
        pp, true, wit, *_ = inst(r, ns)
        tr = r.sym('std::string', 'transcript')
        tp, tv = r.cell(tr), r.cell(tr)
        pf = r.call(ns + '::Prove', pp, true, wit, tp)
        ok = r.call(ns + '::Verify', pp, true, tv, pf)
        r.prove('the honest proof is accepted', to_bool(ok))
        r.prove_eq('prover and verifier end with the same transcript', r.get(tp), r.get(tv))
        r.no_abort('no abort'); r.finish()
    return f
def exact(ns):
    def f(t, ctx):
        r = Run(t, prog())
        pp, _, _, any_, pf, eqs, comps = inst(r, ns)
        tr = r.sym('std::string', 'transcript'); tv = r.cell(tr)
        ok = to_bool(r.call(ns + '::Verify', pp, any_, tv, pf))
        es = challenges(ok)
        iff_spec(r, 'accepts exactly when every verification equation holds', ok, [band(*eqs(any_, pf, P(e))) for e in es])
        if len(es) != 1: t.result('one challenge', None, 'found %d hash-derived scalars' % len(es))
        for e in es[:1]:
            binds(r, 'the challenge commits to the prior transcript', e.args[0], tr)
            for nm, v in comps: binds(r, 'the challenge commits to %s' % nm, e.args[0], v)
        for nm, v in [('prior transcript', tr)] + comps: binds(r, 'the outgoing transcript commits to %s' % nm, r.get(tv), v)
        r.finish()
    return f
def nonces(ns):
    def f(t, ctx):
        r = Run(t, prog())
        pp, true, wit, *_ = inst(r, ns)
        tr = r.sym('std::string', 'transcript')
        p1 = r.call(ns + '::Prove', pp, true, wit, r.cell(tr)); p2 = r.call(ns + '::Prove', pp, true, wit, r.cell(tr))
        def rn(x): return {a for a in all_atoms(x) if a.name == 'rnd'}
        cm = {'DLOGKnowledge': ['A'], 'DLOGEquality': ['A1', 'A2'], 'PlaintextKnowledge': ['A', 'B'], 'PlaintextEquality': ['B']}[ns]
        for c in cm:
            a, b = rn(p1.f[c]), rn(p2.f[c])
            t.result('commitment %s blinded by fresh randomness' % c, bool(a) and not (a & b) and all(x.args[1] == Q for x in a | b), 'draws %r / %r' % (a, b))
        r.finish()
    return f

# ---- encryption relation: sizes fixed (bounded), all group elements, scalars and randomness symbolic
def er(r, n, m):
    ns = 'EncRelation'; N = n ** m
    enc = r.sym('TwistedExponentialElGamal::PP', 'encpp'); com = r.sym('Pedersen::PP', 'com', **{'com.N_max': 2 * n * m, 'com.vec_h': 2 * n * m})
    pp = r.call(ns + '::Setup', com, enc, P(n)); ek = pt(r, 'ek')
    X = [pt(r, 'X%d' % i) for i in range(N)]; Y = [pt(r, 'Y%d' % i) for i in range(N)]
    CT = lambda x, y: Struct('TwistedExponentialElGamal::CT', {'X': x, 'Y': y})
    return ns, pp, enc, com, ek, X, Y, CT
def er_complete(n, m, l):
    def f(t, ctx):
        r = Run(t, prog(), unroll=4096)
        ns, pp, enc, com, ek, X, Y, CT = er(r, n, m); N = n ** m
        rr = r.sym('BigInt', 'r')
        cts = [CT(X[i], Y[i]) for i in range(N)]; cts[l] = CT(ek * rr, enc.f['g'] * rr)
        ins = Struct(ns + '::Instance', {'vec_CT': Vec.of_list(cts), 'ek': ek}); wit = Struct(ns + '::Witness', {'l': P(l), 'r': rr})
        tr = r.sym('std::string', 'transcript'); tp, tv = r.cell(tr), r.cell(tr)
        pf = r.call(ns + '::Prove', pp, ins, wit, tp)
        ok = r.call(ns + '::Verify', pp, ins, tv, pf)
        r.prove('the honest proof is accepted', to_bool(ok))
        r.prove_eq('prover and verifier end with the same transcript', r.get(tp), r.get(tv))
        for c in ('z', 'zA', 'zC'):
            a = pf.f[c].atom()
            t.result('response %s is reduced modulo the order and masked' % c, a is not None and a.name == 'mod' and a.args[1] == Q and masked(a.args[0], pf, c) or None, None)
        r.no_abort('no abort'); r.finish()
    return f
def masked(p, pf, c):
    """some fresh draw enters the response with coefficient +-1 (linearly)"""
    return any(len(mo) == 1 and mo[0][1] == 1 and mo[0][0].name == 'rnd' and abs(co) == 1 for mo, co in p.t.items())
def er_exact(n, m):
    def f(t, ctx):
        r = Run(t, prog(), unroll=4096)
        ns, pp, enc, com, ek, X, Y, CT = er(r, n, m); N = n ** m
        ins = Struct(ns + '::Instance', {'vec_CT': Vec.of_list([CT(X[i], Y[i]) for i in range(N)]), 'ek': ek})
        ff = [r.sym('BigInt', 'f%d' % i) for i in range(n * m)]
        Gs = [CT(pt(r, 'GX%d' % k), pt(r, 'GY%d' % k)) for k in range(m)]
        S = {c: pt(r, c) for c in 'ABCD'}; S.update({c: r.sym('BigInt', c) for c in ('z', 'zA', 'zC')})
        S['vec_f'] = Vec.of_list(ff); S['vec_G'] = Vec.of_list(Gs)
        pf = Struct(ns + '::Proof', S)
        tr = r.sym('std::string', 'transcript'); tv = r.cell(tr)
        ok = to_bool(r.call(ns + '::Verify', pp, ins, tv, pf))
        es = challenges(ok)
        def commit(v, s):
            g = com.f['g'].p * s
            for i, x in enumerate(v): g = g + vget(com.f['vec_h'], P(i)).p * x
            return g
        def spec(x):
            c = [eq(mod(sum((ff[j * n + i] for i in range(n)), P(0)) - x, Q), P(0)) for j in range(m)]
            c.append(g0(S['B'].p * x + S['A'].p - commit(ff, S['zA'])))
            c.append(g0(S['C'].p * x + S['D'].p - commit([v * (x - v) for v in ff], S['zC'])))
            lx, ly = P(0), P(0)
            for i in range(N):
                pr = P(1); ii = i
                for j in range(m): pr = pr * ff[j * n + ii % n]; ii //= n
                lx = lx + X[i].p * pr; ly = ly + Y[i].p * pr
            xx = P(1)
            for k in range(m): lx = lx - Gs[k].f['X'].p * xx; ly = ly - Gs[k].f['Y'].p * xx; xx = xx * x
            c += [g0(lx - ek.p * S['z']), g0(ly - enc.f['g'].p * S['z'])]
            return band(*c)
        iff_spec(r, 'accepts exactly when every verification equation holds', ok, [spec(P(e)) for e in es])
        comps = [('prior transcript', tr), ('ek', ek)] + [('CT[%d].X' % i, X[i]) for i in range(N)] + [('CT[%d].Y' % i, Y[i]) for i in range(N)] + [(c, S[c]) for c in 'ABCD'] + [('G[%d].X' % k, Gs[k].f['X']) for k in range(m)] + [('G[%d].Y' % k, Gs[k].f['Y']) for k in range(m)]
        for e in es[:1]:
            for nm, v in comps: binds(r, 'the challenge commits to %s' % nm, e.args[0], v)
        r.finish()
    return f
def ilog(t, ctx):
    pass
