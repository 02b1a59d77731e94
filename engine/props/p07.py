from props.common import *
HARNESS = ['p07.cpp']
INC = ['crypto/setup.hpp', 'signature/schnorr.hpp']
def prog(): return program(INC)
PRELOAD = [prog]

def complete(t, ctx):
    r = Run(t, prog())
    pp = r.call('Schnorr::Setup')
    kp = r.call('Schnorr::KeyGen', pp)
    m = r.sym('std::string', 'message')
    s = r.call('Schnorr::Sign', pp, kp.f['1'], m)
    v = r.call('Schnorr::Verify', pp, kp.f['0'], m, s)
    r.prove('every honestly produced signature verifies', to_bool(v)); r.no_abort('abort'); r.finish()
def complete_anykey(t, ctx):
    r = Run(t, prog())
    pp = r.sym('Schnorr::PP', 'pp'); sk = r.sym('BigInt', 'sk'); m = r.sym('std::string', 'message')
    s = r.call('Schnorr::Sign', pp, sk, m)
    v = r.call('Schnorr::Verify', pp, pp.f['g'] * sk, m, s)
    r.prove('signatures under any key and any base verify', to_bool(v))
    z = s.f['z']
    r.prove('the response is reduced modulo the order', band(le(0, z), lt(z, Q))); r.finish()
def exact(t, ctx):
    r = Run(t, prog())
    pp = r.sym('Schnorr::PP', 'pp'); pk = r.sym('ECPoint', 'pk'); m = r.sym('std::string', 'message'); s = r.sym('Schnorr::SIG', 'sig')
    v = to_bool(r.call('Schnorr::Verify', pp, pk, m, s))
    es = challenges(v)
    spec = [g0(pp.f['g'].p * s.f['z'] - s.f['A'].p - pk.p * P(e)) for e in es]
    iff_spec(r, 'verification accepts exactly when g^z = A + e*pk', v, spec)
    for e in es[:1]:
        binds(r, 'the challenge commits to the commitment A', e.args[0], s.f['A'])
        binds(r, 'the challenge commits to the message', e.args[0], m)
    r.finish()
def nonce(t, ctx):
    r = Run(t, prog())
    pp = r.call('Schnorr::Setup'); sk = r.sym('BigInt', 'sk'); m = r.sym('std::string', 'message')
    s1 = r.call('Schnorr::Sign', pp, sk, m); s2 = r.call('Schnorr::Sign', pp, sk, m)
    a1 = is_fresh(r, 'first nonce uniform in Z_q', s1.f['A'], Q); a2 = is_fresh(r, 'second nonce uniform in Z_q', s2.f['A'], Q)
    if a1 and a2: t.result('nonces of two signatures are independent draws', a1 is not a2, 'same draw')
    kp = r.call('Schnorr::KeyGen', pp)
    is_fresh(r, 'secret key uniform in Z_q', kp.f['1'], Q)
    r.prove_eq('public key is g^sk', kp.f['0'], pp.f['g'] * kp.f['1'])
    r.finish()
def tasks(tier):
    return [Task('schnorr.completeness', complete), Task('schnorr.completeness.any-key', complete_anykey), Task('schnorr.verify.exact', exact), Task('schnorr.nonce', nonce)]
