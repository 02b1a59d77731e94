from props.common import *
from props.p04 import Without
HARNESS = ['p19.cpp']
INC = ['crypto/setup.hpp', 'commitment/pedersen.hpp', 'pke/twisted_exponential_elgamal.hpp', 'zkp/bulletproofs/bullet_proof.hpp']
def prog(): return program(INC)
PRELOAD = [prog]
ASSUMPTIONS = ['hashing a string to a curve point is a function of the string alone (contract of Hash::StringToECPoint, exercised by the harness)',
               'commitments are made to at most N_max values (precondition)']
def nonid(r, name, x):
    # a multiple of the generator by an exponent in [1, order) is not the identity
    e = x.p
    if any(a.name.startswith('G:') for a in all_atoms(e)): r.prove(name, bnot(g0(e)))
    else: r.prove(name, band(le(1, e), lt(e, Q)))
def gens(r, name, v, n):
    """v holds n independent non-identity generators"""
    r.prove(name + ': the requested number of bases', eq(v.n, n))
    k = P(app('k')); pc = r.ex.st.pc; r.assume(band(le(0, k), lt(k, n)))
    ds = [x for x in all_atoms(vget(v, k).p) if x.name.startswith('rnd')]
    nonid(r, name + ': no base is the identity', vget(v, k))
    j = P(app('j')); r.assume(band(le(0, j), lt(j, n), bnot(eq(j, k))))
    d2 = [x for x in all_atoms(vget(v, j).p) if x.name.startswith('rnd')]
    r.task.result(name + ': every base comes from a draw of its own', True if ds and d2 and not set(ds) & set(d2) else (False if not ds else None), '%s / %s' % (ds, d2))
    r.ex.st.pc = pc
def setup(t, ctx):
    r = Run(t, prog()); n = r.sym('unsigned long', 'n')
    pp = r.call('Pedersen::Setup', n)
    r.prove_eq('capacity recorded', pp.f['N_max'], n)
    gens(r, 'message bases', pp.f['vec_h'], n)
    r.prove('the blinding base is not the identity', bnot(g0(pp.f['g'].p)))
    pp2 = r.call('Pedersen::Setup', n)
    r.prove_eq('the blinding base is the same in every setup', pp2.f['g'], pp.f['g'])
    r.no_abort('no abort'); r.no_race('no two iterations touch the same base'); r.finish()
def sym_pp(r):
    pp = r.sym('Pedersen::PP', 'pp'); r.assume(eq(pp.f['vec_h'].n, pp.f['N_max'])); return pp
def spec(r, pp, m, rho):
    i = fresh_atom('i'); return pp.f['g'].p * rho + psum(m.n, i, vget(pp.f['vec_h'], P(i)).p * vget(m, P(i)))
def commit(t, ctx):
    r = Run(t, prog()); pp = sym_pp(r); m = r.sym('std::vector<BigInt>', 'm'); rho = r.sym('BigInt', 'r'); r.assume(le(m.n, pp.f['N_max']))
    pc_, mc = r.cell(pp), r.cell(m)
    c = r.call('Pedersen::Commit', pc_, mc, rho)
    r.prove_eq('the commitment is g^r * prod h_i^m_i over all committed values', c, G(spec(r, pp, m, rho)))
    r.prove_eq('the parameters stay unchanged', r.get(pc_), pp); r.prove_eq('the values stay unchanged', r.get(mc), m)
    r.prove_eq('committing again gives the same commitment', r.call('Pedersen::Commit', pc_, mc, rho), c)
    r.no_abort('no abort'); r.finish()
def homo(t, ctx):
    r = Run(t, prog()); pp = sym_pp(r); n = r.sym('unsigned long', 'n'); r.assume(le(n, pp.f['N_max']))
    i = fresh_atom('i'); V = lambda s: Vec(n, i, P(app(s, P(i))))
    m1, m2 = V('m1'), V('m2'); m3 = Vec(n, i, P(app('m1', P(i))) + P(app('m2', P(i)))); r1, r2 = r.sym('BigInt', 'r1'), r.sym('BigInt', 'r2')
    c = [r.call('Pedersen::Commit', r.cell(pp), r.cell(m), x) for m, x in ((m1, r1), (m2, r2), (m3, r1 + r2))]
    r.prove_eq('the commitment to a sum is the sum of the commitments', c[2], c[0] + c[1])
    k = r.sym('BigInt', 'k'); mk = Vec(n, i, P(app('m1', P(i))) * k)
    r.prove_eq('the commitment to a multiple is the multiple of the commitment', r.call('Pedersen::Commit', r.cell(pp), r.cell(mk), r1 * k), c[0] * k)
    r.finish()
def vecmul(t, ctx):
    r = Run(t, prog()); n = r.sym('unsigned long', 'n')
    with Without('GenRandomECPointVector'): v = r.call('GenRandomECPointVector', n)
    gens(r, 'GenRandomECPointVector', v, n); r.no_race('no two iterations touch the same base')
    a = r.call('GenRandomECPoint'); b = r.call('GenRandomGenerator')
    for nm, x in (('GenRandomECPoint', a), ('GenRandomGenerator', b)): nonid(r, nm + ' never returns the identity', x)
    r.finish()
def derived(t, ctx):
    r = Run(t, prog())
    L, T = r.sym('unsigned long', 'L'), r.sym('unsigned long', 'T')
    a = r.call('TwistedExponentialElGamal::Setup', L, T); b = r.call('TwistedExponentialElGamal::Setup', L, T)
    r.prove_eq('twisted ElGamal: both bases are the same in every setup (g)', a.f['g'], b.f['g']); r.prove_eq('twisted ElGamal: both bases are the same in every setup (h)', a.f['h'], b.f['h'])
    t.result('twisted ElGamal: the second base is derived from the first by hashing', a.f['g'].p != a.f['h'].p and any(x.name == 'G:hp' for x in all_atoms(a.f['h'].p)) or None, str(a.f['h']))
    RL, M = r.sym('unsigned long', 'RL'), r.sym('unsigned long', 'M')
    a = r.call('Bullet::Setup', RL, M); b = r.call('Bullet::Setup', RL, M)
    for f in 'gh': r.prove_eq('Bulletproofs: base %s is the same in every setup' % f, a.f[f], b.f[f])
    r.prove_eq('Bulletproofs: range recorded', a.f['RANGE_LEN'], RL); r.prove_eq('Bulletproofs: aggregation bound recorded', a.f['MAX_AGG_NUM'], M)
    gens(r, 'Bulletproofs vec_g', a.f['vec_g'], RL * M); gens(r, 'Bulletproofs vec_h', a.f['vec_h'], RL * M)
    k = P(app('kk')); dr = lambda v: {x for x in all_atoms(vget(v, k).p) if x.name.startswith('rnd')}
    t.result('Bulletproofs: the two base vectors share no draw', not dr(a.f['vec_g']) & dr(a.f['vec_h']) or None, None)
    r.no_abort('no abort'); r.finish()
def tasks(tier):
    return [Task('Pedersen/Setup', setup), Task('Pedersen/Commit', commit), Task('Pedersen/homomorphic', homo), Task('generators', vecmul), Task('derived bases', derived)]
