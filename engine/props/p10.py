from props.nizk import *
from props.p16 import With
from props.p05 import dlog_contract
HARNESS = ['p10.cpp']
INC10 = ['crypto/setup.hpp', 'gadget/range_proof.hpp']
def prog10(): return program(INC10)
PRELOAD = [prog10]
ASSUMPTIONS = ['challenges are invertible modulo the group order', 'bounded shapes: vector lengths up to 8, see the bounded tasks; group elements, scalars, blinding factors, draws and challenges are symbolic in each']
def vp(r, nm, n): return Vec.of_list([pt(r, '%s%d' % (nm, i)) for i in range(n)])
def vb(r, nm, n): return Vec.of_list([r.sym('BigInt', '%s%d' % (nm, i)) for i in range(n)])
def lg(n): return n.bit_length() - 1
def ippp(r, n): return Struct('InnerProduct::PP', {'VECTOR_LEN': P(n), 'LOG_VECTOR_LEN': P(lg(n)), 'vec_g': vp(r, 'g', n), 'vec_h': vp(r, 'h', n), 'u': pt(r, 'u')})
def E(v, i): return vget(v, P(i))
def ip(n):
    def f(t, ctx):
        r = Run(t, prog10(), unroll=4096); pp = ippp(r, n); a, b = vb(r, 'a', n), vb(r, 'b', n); F = pp.f
        S = G(P(0))
        for i in range(n): S = S + E(F['vec_g'], i) * E(a, i) + E(F['vec_h'], i) * E(b, i) + F['u'] * (E(a, i) * E(b, i))
        ins = Struct('InnerProduct::Instance', {'P': S}); wit = Struct('InnerProduct::Witness', {'vec_a': a, 'vec_b': b})
        tr = r.sym('std::string', 'transcript'); tp, tv, tf = r.cell(tr), r.cell(tr), r.cell(tr)
        z = Vec.of_list([]); pf = r.cell(Struct('InnerProduct::Proof', {'vec_L': z, 'vec_R': z, 'a': P(0), 'b': P(0)}))
        r.call('InnerProduct::Prove', pp, ins, wit, tp, pf)
        ok = r.call('InnerProduct::Verify', pp, ins, tv, pf); okf = r.call('InnerProduct::FastVerify', pp, ins, tf, pf)
        r.prove('the honest proof is accepted', to_bool(ok)); r.prove('the honest proof is accepted by the fast verifier', to_bool(okf))
        r.prove_eq('prover and verifier end with the same transcript', r.get(tp), r.get(tv)); r.prove_eq('prover and fast verifier end with the same transcript', r.get(tp), r.get(tf))
        r.no_abort('no abort'); r.finish()
    return f
def bpp(r, ln, mx): return Struct('Bullet::PP', {'RANGE_LEN': P(ln), 'LOG_RANGE_LEN': P(lg(ln)), 'MAX_AGG_NUM': P(mx), 'g': pt(r, 'G'), 'h': pt(r, 'H'), 'u': pt(r, 'U'), 'vec_g': vp(r, 'g', ln * mx), 'vec_h': vp(r, 'h', ln * mx)})
def proof0(r):
    z = Vec.of_list([]); q = pt(r, 'junk')
    return Struct('Bullet::Proof', {'A': q, 'S': q, 'T1': q, 'T2': q, 'taux': P(0), 'mu': P(0), 'tx': P(0), 'ip_proof': Struct('InnerProduct::Proof', {'vec_L': z, 'vec_R': z, 'a': P(0), 'b': P(0)})})
def bullet(ln, vals, mx):
    def f(t, ctx):
        r = Run(t, prog10(), unroll=4096); n = len(vals); pp = bpp(r, ln, mx); rs = vb(r, 'r', n)
        C = Vec.of_list([pp.f['g'] * E(rs, i) + pp.f['h'] * P(vals[i]) for i in range(n)])
        ins = Struct('Bullet::Instance', {'C': C}); wit = Struct('Bullet::Witness', {'r': rs, 'v': Vec.of_list([P(v) for v in vals])})
        tr = r.sym('std::string', 'transcript'); tp, tv, tf = r.cell(tr), r.cell(tr), r.cell(tr); pf = r.cell(proof0(r))
        r.call('Bullet::Prove', pp, ins, wit, tp, pf)
        inside = all(0 <= v < (1 << ln) for v in vals)
        ok = to_bool(r.call('Bullet::Verify', pp, ins, tv, pf)); okf = to_bool(r.call('Bullet::FastVerify', pp, ins, tf, pf))
        r.prove('the honest proof is accepted', ok); r.prove('the honest proof is accepted by the fast verifier', okf)
        r.prove_eq('prover and verifier end with the same transcript', r.get(tp), r.get(tv)); r.prove_eq('prover and fast verifier end with the same transcript', r.get(tp), r.get(tf))
        r.no_abort('no abort'); r.finish()
    return f
def sproof(r, k):
    return Struct('Bullet::Proof', {'A': pt(r, 'A'), 'S': pt(r, 'S'), 'T1': pt(r, 'T1'), 'T2': pt(r, 'T2'), 'taux': r.sym('BigInt', 'taux'), 'mu': r.sym('BigInt', 'mu'), 'tx': r.sym('BigInt', 'tx'), 'ip_proof': sip(r, k)})
def sip(r, k): return Struct('InnerProduct::Proof', {'vec_L': vp(r, 'L', k), 'vec_R': vp(r, 'R', k), 'a': r.sym('BigInt', 'pa'), 'b': r.sym('BigInt', 'pb')})
def in_order(es): return sorted(es, key=lambda a: (max(len(b.args[0].segs) for b in all_atoms(a.args[0]) if b.name == 'sha256'), a.id))
def s_exp(xs, i, sign):
    """exponent of the i-th base after all rounds"""
    m = len(xs); e = P(1)
    for j in range(m): e = e * ppow(xs[j], (1 if (i >> (m - 1 - j)) & 1 else -1) * sign)
    return e
def ip_eq(g, h, u, Pt, pf, xs, n):
    """left minus right side of the inner product check, as a combination of the group elements"""
    q = P(0)
    for i in range(n): q = q + g[i] * pf.f['a'] * s_exp(xs, i, 1) + h[i] * pf.f['b'] * s_exp(xs, i, -1)
    q = q + u * pf.f['a'] * pf.f['b'] - Pt
    for j, x in enumerate(xs): q = q - E(pf.f['vec_L'], j).p * ppow(x, 2) - E(pf.f['vec_R'], j).p * ppow(x, -2)
    return q
def bind_all(r, e, what, who):
    for nm, v in what: binds(r, 'the %s commits to %s' % (who, nm), e.args[0], v)
def ip_exact(n):
    def f(t, ctx):
        for fn in ('Verify', 'FastVerify'):
            r = Run(t, prog10(), unroll=4096); pp = ippp(r, n); Pt = pt(r, 'P'); pf = sip(r, lg(n)); tr = r.sym('std::string', 'transcript'); tv = r.cell(tr)
            ok = to_bool(r.call('InnerProduct::' + fn, pp, Struct('InnerProduct::Instance', {'P': Pt}), tv, pf))
            es = in_order(challenges(ok))
            if len(es) != lg(n): t.result(fn + ': one challenge per round', None, 'found %d' % len(es)); continue
            F = pp.f; q = ip_eq([E(F['vec_g'], i).p for i in range(n)], [E(F['vec_h'], i).p for i in range(n)], F['u'].p, Pt.p, pf, [P(e) for e in es], n)
            iff_spec(r, fn + ' accepts exactly when the verification equation holds', ok, [g0(q)])
            com = [('the prior transcript', tr)]
            for j, e in enumerate(es):
                com = com + [('L%d' % j, E(pf.f['vec_L'], j)), ('R%d' % j, E(pf.f['vec_R'], j))]
                bind_all(r, e, com, fn + ' challenge of round %d' % j)
            r.no_abort('no abort'); r.finish()
    return f
def b_exact(ln, n, mx):
    def f(t, ctx):
        for fn in ('Verify', 'FastVerify'):
            r = Run(t, prog10(), unroll=4096); pp = bpp(r, ln, mx); N = ln * n; C = vp(r, 'C', n); pf = sproof(r, lg(N)); tr = r.sym('std::string', 'transcript'); tv = r.cell(tr)
            ok = to_bool(r.call('Bullet::' + fn, pp, Struct('Bullet::Instance', {'C': C}), tv, pf)); F, p = pp.f, pf.f
            es = in_order(challenges(ok))
            if len(es) != lg(N) + 4: t.result(fn + ': challenges y, z, x, e and one per round', None, 'found %d' % len(es)); continue
            y, z, x, e = [P(a) for a in es[:4]]; xs = [P(a) for a in es[4:]]
            sy = sum([ppow(y, i) for i in range(N)], P(0)); s2 = P((1 << ln) - 1)
            delta = (z - ppow(z, 2)) * sy - sum([ppow(z, j + 3) for j in range(n)], P(0)) * s2
            e1 = F['g'].p * p['taux'] + F['h'].p * (p['tx'] - delta) - p['T1'].p * x - p['T2'].p * ppow(x, 2)
            for j in range(n): e1 = e1 - E(C, j).p * ppow(z, j + 2)
            g = [E(F['vec_g'], i).p for i in range(N)]; h = [E(F['vec_h'], i).p * ppow(y, -i) for i in range(N)]; u = F['u'].p * e
            Pt = p['A'].p + p['S'].p * x - F['h'].p * p['mu'] + u * p['tx']
            for i in range(N): Pt = Pt - g[i] * z + h[i] * (z * ppow(y, i) + ppow(z, 2 + i // ln) * (1 << (i % ln)))
            e2 = ip_eq(g, h, u, Pt, pf.f['ip_proof'], xs, N)
            if fn == 'Verify': iff_spec(r, 'Verify accepts exactly when both verification equations hold', ok, [band(g0(e1), g0(e2))])
            else:
                rs = sorted([a for a in all_atoms(ok) if a.name == 'rnd'], key=lambda a: a.id)
                if len(rs) != 1: t.result('FastVerify combines the equations with one fresh scalar', False if not rs else None, 'found %d draws' % len(rs)); continue
                t.result('the scalar combining the equations is uniform below the group order', rs[0].args[1] == Q, None)
                c = P(rs[0]); iff_spec(r, 'FastVerify accepts exactly when the random combination of both verification equations holds', ok, [g0(c * e1 + e2), g0(c * e1 - e2)])
            com = [('the prior transcript', tr)] + [('C%d' % j, E(C, j)) for j in range(n)]
            for nm, k, new in (('y', 0, ['A']), ('z', 1, ['S']), ('x', 2, ['T1', 'T2']), ('e', 3, [])):
                com = com + [(v, p[v]) for v in new]; bind_all(r, es[k], com, fn + ' challenge ' + nm)
            for j, a in enumerate(es[4:]):
                com = com + [('L%d' % j, E(p['ip_proof'].f['vec_L'], j)), ('R%d' % j, E(p['ip_proof'].f['vec_R'], j))]; bind_all(r, a, com, fn + ' challenge of round %d' % j)
            r.no_abort('no abort'); r.finish()
    return f
def short(n, ln=1):
    """a proof with a wrong number of round messages is refused"""
    def f(t, ctx):
        for dl, dr in ((-1, 0), (0, -1), (1, 0), (0, 1), (1, 1), (-1, -1)):
            for fn in ('InnerProduct::Verify', 'InnerProduct::FastVerify', 'Bullet::Verify', 'Bullet::FastVerify'):
                r = Run(t, prog10(), unroll=4096); k = lg(n); tr = r.cell(r.sym('std::string', 'transcript')); q = sip(r, k); q.f['vec_L'] = vp(r, 'L', k + dl); q.f['vec_R'] = vp(r, 'R', k + dr)
                if fn[0] == 'I': ok = r.call(fn, ippp(r, n), Struct('InnerProduct::Instance', {'P': pt(r, 'P')}), tr, q)
                else:
                    pf = sproof(r, k); pf.f['ip_proof'] = q; ok = r.call(fn, bpp(r, ln, n // ln), Struct('Bullet::Instance', {'C': vp(r, 'C', n // ln)}), tr, pf)
                r.prove('%s refuses %d and %d round messages where %d are due' % (fn, k + dl, k + dr, k), bnot(to_bool(ok))); r.finish()
    return f
# ---- gadgets: every range, message, key and bit length; the aggregated range proof enters through its contract
class Rec:
    def __init__(self): self.p, self.v = [], []
    def prove(self, ex, c): self.p.append((c.val(1), c.val(2), c.val(3))); s = c.val(3); ex.store(c.lv(3), s + tag('bp', len(self.p))); ex.store(c.lv(4), Struct('Bullet::Proof', dict(c.val(4).f, mu=P(app('bpid', P(len(self.p)))))))
    def verify(self, ex, c): self.v.append((c.val(1), c.val(2), c.val(3))); ex.store(c.lv(2), c.val(2) + tag('bp', len(self.v))); return brel('bok', len(self.v))
def tag(n, k): return X.seg(app(n, P(k)), P(32))
def brel(n, k): return eq(app(n, P(k)), 1)
SIG1, SIG2 = 'Proof_type1', 'Proof_type2'
def gsetup(r):
    enc = r.sym('TwistedExponentialElGamal::PP', 'enc'); b = r.sym('Bullet::PP', 'b'); b.f['g'], b.f['h'] = enc.f['g'], enc.f['h']
    L, R = r.sym('BigInt', 'L'), r.sym('BigInt', 'R'); n = b.f['RANGE_LEN']; r.assume(band(le(1, n), le(n, 64), le(0, L), lt(L, R), le(R, X.pow2(n))))
    return Struct('Gadget::PP', {'enc_part': enc, 'bullet_part': b}), enc, b, L, R, n
def tgt(r, t, rec, pp, ins, Y, L, R, n, h):
    if len(rec) != 1: t.result('one range proof is checked', None, 'found %d' % len(rec)); return
    C = rec[0][0].f['C']; r.prove('two commitments are checked', eq(C.n, 2))
    r.prove_eq('the first commitment is the value minus the left bound', E(C, 0), Y - h * L); r.prove_eq('the second commitment is the value minus the right bound plus 2^length', E(C, 1), Y + h * (X.pow2(n) - R))
def gadget(kind, honest):
    def f(t, ctx):
        r = Run(t, prog10(), unroll=64); pp, enc, b, L, R, n = gsetup(r); rec = Rec(); g, h = enc.f['g'], enc.f['h']; CT = lambda x, y: Struct('TwistedExponentialElGamal::CT', {'X': x, 'Y': y})
        tr = r.sym('std::string', 'transcript'); tp, tv = r.cell(tr), r.cell(tr); sk, m, rr = r.sym('BigInt', 'sk'), r.sym('BigInt', 'm'), r.sym('BigInt', 'r')
        with With({'Bullet::Prove': rec.prove, 'Bullet::FastVerify': rec.verify, 'Bullet::Verify': rec.verify, 'ShanksDLOG': dlog_contract, 'TwistedExponentialElGamal::Initialize': lambda ex, c: None}):
            if honest:
                pk = g * sk if kind == 2 else pt(r, 'pk'); ins = Struct('Gadget::Instance', {'pk': pk, 'ct': CT(pk * rr, g * rr + h * m)})
                r.assume(band(le(L, m), lt(m, R)))
                if kind == 1: pf = r.call('Gadget::Prove', pp, ins, L, R, Struct('Gadget::Witness_type1', {'r': rr, 'm': m}), tp, n=6); Y, rho = ins.f['ct'].f['Y'], rr
                else:
                    r.assume(le(X.pow2(n), X.pow2(enc.f['MSG_LEN'])))
                    pc = r.cell(r.sym('Gadget::Proof_type2', 'old')); r.call('Gadget::Prove', pp, ins, L, R, Struct('Gadget::Witness_type2', {'sk': sk}), tp, pc, n=7); pf = r.get(pc); Y = pf.f['refresh_ct'].f['Y']
                if len(rec.p) != 1: t.result('one range proof is made', None, 'found %d' % len(rec.p)); return
                C, W = rec.p[0][0].f['C'], rec.p[0][1]
                for k in (0, 1):
                    v = E(W.f['v'], k); r.prove('value %d handed to the range proof lies in its range' % k, band(le(0, v), lt(v, X.pow2(n))))
                    r.prove_eq('commitment %d handed to the range proof opens to the value' % k, E(C, k), g * E(W.f['r'], k) + h * v)
                if kind == 2:
                    is_fresh(r, 'the refreshing randomness is a fresh draw', E(W.f['r'], 0)); r.prove_eq('the refreshed ciphertext holds the same value', pf.f['refresh_ct'].f['Y'], g * E(W.f['r'], 0) + h * m); r.prove_eq('the refreshed ciphertext is under the same key', pf.f['refresh_ct'].f['X'], pk * E(W.f['r'], 0))
            else: pk = pt(r, 'pk'); ins = Struct('Gadget::Instance', {'pk': pk, 'ct': CT(pt(r, 'X'), pt(r, 'Y'))}); pf = r.sym('Gadget::Proof_type%d' % kind, 'pf'); Y = ins.f['ct'].f['Y'] if kind == 1 else pf.f['refresh_ct'].f['Y']
            ok = to_bool(r.call('Gadget::Verify', pp, ins, L, R, tv, pf, sig='Proof_type%d' % kind))
        tgt(r, t, rec.v, pp, ins, Y, L, R, n, h)
        if honest:
            r.prove('the honest proof is accepted', ok, extra=(brel('bok', 1),)); r.prove_eq('prover and verifier end with the same transcript', r.get(tp), r.get(tv))
            A, B = rec.p[0][0].f['C'], rec.v[0][0].f['C']
            for k in (0, 1): r.prove_eq('prover and verifier hand over the same commitment %d' % k, E(A, k), E(B, k))
            r.prove_eq('prover and verifier hand over the same transcript', rec.p[0][2], rec.v[0][1])
        else:
            es = in_order(challenges(ok)); ct = ins.f['ct'] if kind == 1 else pf.f['refresh_ct']; q = pf.f['ptke_proof'].f; X_, Y_ = ct.f['X'].p, ct.f['Y'].p
            pe = lambda e: band(g0(pk.p * q['z1'] - q['A'].p - X_ * e), g0(g.p * q['z1'] + h.p * q['z2'] - q['B'].p - Y_ * e))
            if len(es) != kind: t.result('challenges', None, 'found %d' % len(es)); return
            sp = band(pe(P(es[-1])), brel('bok', 1))
            if kind == 2:
                d = pf.f['dlogeq_proof'].f; o = ins.f['ct'].f; e = P(es[0]); g2, h2 = Y_ - o['Y'].p, X_ - o['X'].p
                sp = band(sp, g0(g.p * d['z'] - d['A1'].p - pk.p * e), g0(g2 * d['z'] - d['A2'].p - h2 * e))
            iff_spec(r, 'accepts exactly when all its proofs verify', ok, [sp])
            com = [('pk', pk)] + [('X', ct.f['X']), ('Y', ct.f['Y'])] + ([('A1', pf.f['dlogeq_proof'].f['A1']), ('A2', pf.f['dlogeq_proof'].f['A2'])] if kind == 2 else [])
            bind_all(r, es[-1], [('the prior transcript', tr)] + com, 'plaintext challenge')
            binds(r, 'the range proof runs on a transcript that commits to pk', rec.v[0][1], pk); binds(r, 'the range proof runs on a transcript that commits to the prior transcript', rec.v[0][1], tr)
            r.prove_eq('the proof is handed over unchanged', rec.v[0][2].f['tx'], pf.f['bullet_proof'].f['tx'])
        r.no_abort('no abort'); r.finish()
    return f
def tasks(tier):
    th = tier == 'thorough'
    ts = [Task('InnerProduct.completeness.%d' % n, ip(n), bounded='vector length %d' % n) for n in (1, 2, 4, 8) + ((16,) if th else ())]
    for ln, n, mx in [(1, 1, 1), (1, 2, 2), (2, 1, 1), (2, 2, 2), (1, 2, 4), (4, 1, 1)] + ([(2, 4, 4), (4, 2, 2), (8, 1, 1)] if th else []):
        import itertools
        full = list(itertools.product(range(1 << ln), repeat=n))
        if len(full) > 16: full = full[:2] + full[-2:] + full[2:-2:max(1, (len(full) - 4) // 12)]
        for vs in full: ts.append(Task('Bullet.completeness.len%d.agg%d.of%d.v%s' % (ln, n, mx, '_'.join(map(str, vs))), bullet(ln, vs, mx), bounded='bit length %d, %d of %d aggregated, values %s' % (ln, n, mx, vs)))
    ts += [Task('InnerProduct.exact.%d' % n, ip_exact(n), bounded='vector length %d' % n) for n in (1, 2, 4) + ((8,) if th else ())]
    ts += [Task('Bullet.exact.len%d.agg%d.of%d' % x, b_exact(*x), bounded='bit length %d, %d of %d aggregated' % x) for x in [(2, 1, 1), (1, 2, 2), (2, 2, 2), (4, 1, 2)] + ([(4, 2, 2), (2, 4, 4)] if th else [])]
    ts += [Task('round-messages.%d' % n, short(n), bounded='vector length %d' % n) for n in (2, 4)]
    ts += [Task('Gadget%d.%s' % (k, 'completeness' if h else 'exact'), gadget(k, h)) for k in (1, 2) for h in (True, False)]
    return ts
