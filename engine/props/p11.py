from props.common import *
HARNESS = ['p11.cpp']
NS = 'AccountableRingSig'
def prog(): return program(['crypto/setup.hpp', 'signature/accountable_ring_sig.hpp'])
PRELOAD = [prog]
ASSUMPTIONS = ['SHA-256 is collision free (challenge-binding obligations)', 'ring size is a power of two, at least 2 (what the encryption-relation proof supports), and ring keys are pairwise distinct',
               'the Pedersen key has at least 2*log2(ring size) generators']
CTS = 'TwistedExponentialElGamal::CT'
def pt(r, n): return r.sym('ECPoint', n)
def base(t, N):
    r = Run(t, prog(), unroll=4096)
    m = N.bit_length() - 1
    r.pp = r.sym(NS + '::PP', 'pp', **{'pp.com_part.N_max': 2 * m, 'pp.com_part.vec_h': 2 * m})
    r.m = m; r.g = r.pp.f['enc_part'].f['g']; r.h = r.pp.f['enc_part'].f['h']; r.ek = r.pp.f['ek']
    return r
def keygen(t, ctx):
    r = base(t, 2)
    k = r.call(NS + '::KeyGen', r.pp)
    vk, sk = k.f['0'], k.f['1']
    r.prove_eq('vk = g^sk', vk, r.g * sk); is_fresh(r, 'sk is a fresh draw below the order', sk, Q); r.finish()
def complete(N, l):
    def f(t, ctx):
        r = base(t, N)
        dk = r.sym('BigInt', 'dk'); ek = r.g * dk; r.pp = r.pp.set('ek', ek)
        sks = [r.sym('BigInt', 'sk%d' % i) for i in range(N)]; ring = Vec.of_list([r.g * s for s in sks])
        for i in range(N):
            for j in range(i): r.assume(bnot(g0((r.g * (sks[i] - sks[j])).p))); r.assume(bnot(g0((r.g * (sks[j] - sks[i])).p)))
        msg = r.sym('std::string', 'msg')
        sig = r.call(NS + '::Sign', r.pp, sks[l], ring, msg)
        ok = r.call(NS + '::Verify', r.pp, ring, msg, sig)
        r.prove('the signature of a ring member verifies', to_bool(ok))
        o = r.call(NS + '::Open', r.pp, Struct(NS + '::SP', {'dk': dk}), ring, sig)
        r.prove_eq('opening names the signer', o.f['0'], r.g * sks[l], )
        j = r.call(NS + '::Justify', r.pp, ring, sig, o.f['0'], o.f['1'])
        r.prove('the justification is accepted', to_bool(j))
        for c in ('z_s', 'z_t'):
            x = sig.f[c].atom()
            t.result('response %s is reduced modulo the order and masked by a fresh scalar' % c, (x is not None and x.name == 'mod' and x.args[1] == Q and any(len(mo) == 1 and mo[0][1] == 1 and mo[0][0].name == 'rnd' and abs(co) == 1 for mo, co in x.args[0].t.items())) or None, None)
        r.no_abort('no abort'); r.finish()
    return f
def exact(N):
    def f(t, ctx):
        r = base(t, N); m = r.m
        R_ = [pt(r, 'R%d' % i) for i in range(N)]
        CT = lambda n: Struct(CTS, {'X': pt(r, n + 'X'), 'Y': pt(r, n + 'Y')})
        ff = [r.sym('BigInt', 'f%d' % i) for i in range(2 * m)]; Gs = [CT('G%d' % k) for k in range(m)]
        S = {c: pt(r, c) for c in 'ABCD'}; S.update({c: r.sym('BigInt', c) for c in ('z', 'zA', 'zC')}); S['vec_f'] = Vec.of_list(ff); S['vec_G'] = Vec.of_list(Gs)
        zs, zt, cv, cs = r.sym('BigInt', 'z_s'), r.sym('BigInt', 'z_t'), CT('cv'), CT('cs')
        sig = Struct(NS + '::Signature', {'correct_encryption_proof': Struct('EncRelation::Proof', S), 'z_s': zs, 'z_t': zt, 'ct_vk': cv, 'ct_s': cs})
        msg = r.sym('std::string', 'msg')
        ok = to_bool(r.call(NS + '::Verify', r.pp, Vec.of_list(R_), msg, sig))
        es = challenges(ok); com = r.pp.f['com_part']
        def commit(v, s):
            g = com.f['g'].p * s
            for i, x in enumerate(v): g = g + vget(com.f['vec_h'], P(i)).p * x
            return g
        def spec(x, y):
            c = [eq(mod(ff[2 * j] + ff[2 * j + 1] - x, Q), P(0)) for j in range(m)]
            c += [g0(S['B'].p * x + S['A'].p - commit(ff, S['zA'])), g0(S['C'].p * x + S['D'].p - commit([v * (x - v) for v in ff], S['zC']))]
            lx, ly = P(0), P(0)
            for i in range(N):
                pr = P(1); ii = i
                for j in range(m): pr = pr * ff[j * 2 + ii % 2]; ii //= 2
                lx = lx + cv.f['X'].p * pr; ly = ly + (cv.f['Y'].p - enc_of(r, R_[i])) * pr
            xx = P(1)
            for k in range(m): lx = lx - Gs[k].f['X'].p * xx; ly = ly - Gs[k].f['Y'].p * xx; xx = xx * x
            c += [g0(lx - r.ek.p * S['z']), g0(ly - r.g.p * S['z'])]
            c += [g0(cv.f['X'].p * y + cs.f['X'].p - r.ek.p * zt), g0(cv.f['Y'].p * y + cs.f['Y'].p - r.g.p * zt - enc_of(r, G(r.g.p * zs)))]
            return band(*c)
        iff_spec(r, 'accepts exactly when every verification equation holds', ok, [spec(P(a), P(b)) for a in es for b in es])
        comps = [('message', msg), ('ct_vk.X', cv.f['X']), ('ct_vk.Y', cv.f['Y']), ('ct_s.X', cs.f['X']), ('ct_s.Y', cs.f['Y'])] + [(c, S[c]) for c in 'ABCD'] + [('G[%d].X' % k, Gs[k].f['X']) for k in range(m)] + [('G[%d].Y' % k, Gs[k].f['Y']) for k in range(m)] + [('ring[%d]' % i, R_[i]) for i in range(N)]
        for q, e in enumerate(es):
            for nm, v in comps: binds(r, 'challenge %d commits to %s' % (q, nm), e.args[0], v)
        r.finish()
    return f
def enc_of(r, p):
    """the point component the scheme uses for the message point"""
    return p.p
def justify(t, ctx):
    r = base(t, 2)
    ring = r.sym('std::vector<ECPoint>', 'ring')
    CT = lambda n: Struct(CTS, {'X': pt(r, n + 'X'), 'Y': pt(r, n + 'Y')})
    sig = r.sym(NS + '::Signature', 'sig'); sig = sig.set('ct_vk', CT('cv')); cv = sig.f['ct_vk']
    vk = pt(r, 'vk'); pf = r.sym('DLOGEquality::Proof', 'proof')
    ok = to_bool(r.call(NS + '::Justify', r.pp, ring, sig, vk, pf))
    es = challenges(ok)
    iff_spec(r, 'a justification is accepted exactly when the decryption equations hold', ok,
             [band(g0(r.g.p * pf.f['z'] - pf.f['A1'].p - r.ek.p * P(e)), g0((cv.f['Y'].p - vk.p) * pf.f['z'] - pf.f['A2'].p - cv.f['X'].p * P(e))) for e in es])
    for e in es[:1]:
        for nm, v in [('vk', vk), ('ct.X', cv.f['X']), ('A1', pf.f['A1']), ('A2', pf.f['A2'])]: binds(r, 'challenge commits to ' + nm, e.args[0], v)
    r.finish()
def tasks(tier):
    ts = [Task('KeyGen', keygen), Task('Justify.exact', justify)]
    for N in (2, 4) + ((8,) if tier == 'thorough' else ()):
        for l in range(N): ts.append(Task('Sign.Verify.Open.Justify.N%d.l%d' % (N, l), complete(N, l), bounded='ring size %d, signer position %d' % (N, l)))
        ts.append(Task('Verify.exact.N%d' % N, exact(N), bounded='ring size %d' % N))
    return ts
