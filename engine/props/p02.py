from props.common import *
HARNESS = ['p02.cpp']
INC = ['crypto/setup.hpp', 'crypto/prg.hpp', 'crypto/aes.hpp', 'pke/elgamal.hpp', 'pke/exponential_elgamal.hpp', 'commitment/pedersen.hpp', 'signature/schnorr.hpp',
       'signature/accountable_ring_sig.hpp', 'adcp/adcp.hpp', 'mpc/ot/iknp_ote.hpp', 'mpc/psi/cwprf_psi.hpp', 'mpc/pso/mqrpmt_psi.hpp', 'mpc/pso/mqrpmt_psu.hpp',
       'mpc/pso/mqrpmt_private_id.hpp', 'mpc/pso/mqrpmt_psi_card.hpp', 'mpc/pso/mqrpmt_psi_card_sum.hpp', 'mpc/rpmt/rrpke_mqrpmt.hpp', 'mpc/oprf/ddh_oprf.hpp', 'mpc/oprf/ote_oprf.hpp']
INC2 = ['crypto/setup.hpp', 'pke/elgamal.hpp']
def prog(): return program(INC)
PRELOAD = [prog]
BOUND = 256 ** 32
# (namespace of the operators, type as written in the operator, full type, destination presized)
PAIRS = [('', 'BigInt', 'BigInt', 0), ('', 'ECPoint', 'ECPoint', 0), ('', 'std::vector<BigInt>', 'std::vector<BigInt>', 0), ('', 'std::vector<ECPoint>', 'std::vector<ECPoint>', 0),
 ('Serialization', 'size_t', 'unsigned long', 0), ('Serialization', 'std::string', 'std::string', 0), ('Serialization', 'std::vector<unsigned char>', 'std::vector<unsigned char>', 1),
 ('Block', 'block', '__m128i', 0), ('Block', 'std::vector<block>', 'std::vector<__m128i>', 1), ('AES', 'Key', 'AES::Key', 0), ('PRG', 'Seed', 'PRG::Seed', 0),
 ('', 'EC25519Point', 'EC25519Point', 0)]
PAIRS += [(ns, ty, ns + '::' + ty, 0) for ns, ty in [('ElGamal', 'PP'), ('ElGamal', 'CT'), ('ExponentialElGamal', 'PP'), ('ExponentialElGamal', 'CT'), ('ExponentialElGamal', 'MRCT'),
 ('TwistedExponentialElGamal', 'PP'), ('TwistedExponentialElGamal', 'CT'), ('TwistedExponentialElGamal', 'MRCT'), ('Schnorr', 'PP'), ('Schnorr', 'SIG'),
 ('DLOGKnowledge', 'Proof'), ('DLOGEquality', 'Proof'), ('PlaintextKnowledge', 'Proof'), ('PlaintextEquality', 'Proof'), ('InnerProduct', 'Proof'), ('Bullet', 'PP'), ('Bullet', 'Proof'),
 ('NPOT', 'PP'), ('IKNPOTE', 'PP'), ('ALSZOTE', 'PP'), ('cwPRFPSI', 'PP'), ('cwPRFmqRPMT', 'PP'), ('rrPKEmqRPMT', 'PP'), ('mqRPMTPSI', 'PP'), ('mqRPMTPSU', 'PP'), ('mqRPMTPSIcard', 'PP'),
 ('mqRPMTPSIcardsum', 'PP'), ('DDHOPRF', 'PP'), ('OTEOPRF', 'PP')]]

def in_range(r, v):
    """numbers are non-negative and fit their field"""
    if isinstance(v, Struct):
        for x in v.f.values(): in_range(r, x)
    elif isinstance(v, Poly): r.assume(band(le(0, v), lt(v, BOUND)))
def roundtrip(ns, ty, full, presized, und=None):
    def f(t, ctx):
        p = prog() if und is None else program(INC2, undef=(und,))
        r = Run(t, p)
        sizes = {}
        o = r.sym(full, 'o')
        if ns in ('Bullet',) and ty == 'PP':
            # the type invariant established by Bullet::Setup
            n = o.f['RANGE_LEN'] * o.f['MAX_AGG_NUM']
            r.assume(eq(o.f['vec_g'].n, n)); r.assume(eq(o.f['vec_h'].n, n))
        in_range(r, o)
        q = (ns + '::' if ns else '') + 'operator'
        fo = find(r, q + '<<', 'ofstream', ty); fi = find(r, q + '>>', 'ifstream', ty)
        out = r.cell(Stream(EMPTY, None, TRUE, 'w'))
        r.call(fo, out, o)
        b = r.get(out).b
        tail = r.sym('std::string', 'tail')
        inp = r.cell(Stream(b + tail, None, TRUE, 'r'))
        dst = r.ex.default(full, True)
        if presized: dst = vresize(r, o)
        d = r.cell(dst)
        r.call(fi, inp, d)
        r.prove_eq('reading back yields the written object', r.get(d), o)
        rest = r.get(inp).rest()
        r.prove('the stream is left at the next object', beq(rest, tail))
        r.finish()
    return f
def bn_bytes(t, ctx):
    r = Run(t, prog())
    a = r.sym('BigInt', 'a'); in_range(r, a)
    s = r.call('BigInt::ToByteString', this=r.cell(a), n=0)
    binds(r, 'equal byte strings of numbers in the field range have equal numbers', s, a)
    r.prove('numbers in the field range have byte strings of one length', eq(s.length(), 32))
    r.finish()
def pt_bytes(t, ctx):
    r = Run(t, prog())
    a = r.sym('ECPoint', 'a')
    s = r.call('ECPoint::ToByteString', this=r.cell(a))
    binds(r, 'equal byte strings of points have equal points', s, a)
    r.finish()
def vresize(r, o):
    if isinstance(o, Bytes): return r.sym('std::string', 'old', old=o.length())
    i = fresh_atom('i'); return Vec(o.n, i, R0)
def find(r, q, stream, ty):
    import re
    c = r.prog.by_name.get(q)
    if not c: raise vc.Missing('no %s' % q)
    best = []
    for d in c:
        ps = r.ptypes(d)
        if len(ps) != 2 or stream not in ps[0]: continue
        x = re.sub(r'\bconst\b|&', '', ps[1]).strip()
        x = x.split('::')[-1] if not x.startswith('std::') else x
        if x == ty and not d.get('_pattern'): best.append(d)
    if not best: raise vc.Missing('no %s for %s' % (q, ty))
    best.sort(key=lambda d: not any(c.get('kind') == 'CompoundStmt' for c in d.get('inner', ())))
    return best[0]

def bullet_inv(r, v):
    if isinstance(v, Struct):
        if v.cls.endswith('Bullet::PP'):
            n = v.f['RANGE_LEN'] * v.f['MAX_AGG_NUM']
            r.assume(eq(v.f['vec_g'].n, n)); r.assume(eq(v.f['vec_h'].n, n))
        for x in v.f.values(): bullet_inv(r, x)
def savefetch(save, fetch, full, sig=None, skip=()):
    def f(t, ctx):
        r = Run(t, prog())
        o = r.sym(full, 'o'); in_range(r, o); bullet_inv(r, o)
        name = r.sym('std::string', 'name')
        src = r.cell(o)
        r.call(save, src, name, sig=sig)
        r.prove_eq('saving leaves the object unchanged', r.get(src), o)
        d = r.cell(r.ex.default(full, True))
        r.call(fetch, d, name, sig=sig)
        got = r.get(d)
        for k in o.f:
            if k not in skip: r.prove_eq('field %s reads back equal' % k, got.f[k], o.f[k])
        r.finish()
    return f
def leaves(v, path=''):
    if isinstance(v, Struct):
        for k, x in v.f.items(): yield from leaves(x, path + '.' + k)
    else: yield path, v
def bytestring(fn, full, skip=(), sig=None):
    def f(t, ctx):
        r = Run(t, prog())
        o = r.sym(full, 'o'); in_range(r, o)
        b = r.call(fn, o, sig=sig)
        for k, v in leaves(o):
            if k.strip('.') in skip: continue
            binds(r, 'equal byte strings have equal %s' % k.strip('.'), b, v)
        r.finish()
    return f
BYTES = [('ExponentialElGamal', 'CT'), ('ExponentialElGamal', 'MRCT'), ('TwistedExponentialElGamal', 'CT'), ('TwistedExponentialElGamal', 'MRCT')] + [(x, 'Proof') for x in ('DLOGKnowledge', 'DLOGEquality', 'PlaintextKnowledge', 'PlaintextEquality', 'InnerProduct', 'Bullet')]
SAVEPP = ['NPOT', 'IKNPOTE', 'ALSZOTE', 'cwPRFPSI', 'cwPRFmqRPMT', 'rrPKEmqRPMT', 'mqRPMTPSI', 'mqRPMTPSU', 'mqRPMTPSIcard', 'mqRPMTPSIcardsum', 'DDHOPRF', 'OTEOPRF', 'ADCP']

def tasks(tier):
    ts = [Task('roundtrip.%s' % (full.replace(' ', '-')), roundtrip(ns, ty, full, pre)) for ns, ty, full, pre in PAIRS]
    ts += [Task('roundtrip.generic-curve.%s' % ty, roundtrip('ElGamal', ty, 'ElGamal::' + ty, 0, 'ENABLE_X25519_ACCELERATION')) for ty in ('PP', 'CT')]
    ts += [Task('savefetch.%s::PP' % ns, savefetch(ns + '::SavePP', ns + '::FetchPP', ns + '::PP')) for ns in SAVEPP]
    ts += [Task('savefetch.ADCP::SP', savefetch('ADCP::SaveSP', 'ADCP::FetchSP', 'ADCP::SP')), Task('savefetch.ADCP::Account', savefetch('ADCP::SaveAccount', 'ADCP::FetchAccount', 'ADCP::Account')),
           Task('savefetch.ADCP::ToOneCTx', savefetch('ADCP::SaveCTx', 'ADCP::FetchCTx', 'ADCP::ToOneCTx', sig='ToOneCTx', skip=('sender_balance_ct',)))]
    ts += [Task('bytestring.%s::%s' % (ns, ty), bytestring('%s::%sToByteString' % (ns, ty), '%s::%s' % (ns, ty))) for ns, ty in BYTES]
    ts += [Task('bytestring.BigInt', bn_bytes), Task('bytestring.ECPoint', pt_bytes)]
    return ts
