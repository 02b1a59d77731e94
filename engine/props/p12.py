from props.nizk import *
from props.p10 import Rec, brel, E, bind_all, in_order
from props.p16 import With
from props.p05 import dlog_contract
HARNESS = ['p12.cpp']
def prog12(): return program(['crypto/setup.hpp', 'adcp/adcp.hpp'])
PRELOAD = [prog12]
ASSUMPTIONS = ['the aggregated range proof enters through its contract (P10), the table search through its contract (P06)', 'soundness of the component proofs is a cryptographic assumption; what is proved is that a transaction is accepted exactly when all of them verify, on instances that tie together the ciphertexts of the transaction and of the account',
  'the hexadecimal text of a sequence number determines the number (BN_bn2hex)', 'saving accounts and transactions to disk is not part of the proved effect', 'payments to many: 1 and 3 recipients']
Tn = 'TwistedExponentialElGamal::'
def CT(x, y): return Struct(Tn + 'CT', {'X': x, 'Y': y})
def hext(ex, c): v = c.me(); return X.seg(app('numtext', v), var('numtextlen'))  # texts of another length change the total length of the transcript, so equal lengths lose nothing
def noop(ex, c): return None
class Env:
    def __init__(s, t):
        s.t = t; s.r = r = Run(t, prog12(), unroll=64); s.enc = r.sym(Tn + 'PP', 'enc'); s.b = r.sym('Bullet::PP', 'b'); s.b.f['g'], s.b.f['h'] = s.enc.f['g'], s.enc.f['h']
        s.g, s.h = s.enc.f['g'], s.enc.f['h']; s.n = s.b.f['RANGE_LEN']; s.L = s.enc.f['MSG_LEN']; s.rec = Rec()
        r.assume(band(le(1, s.n), le(s.n, 64), eq(s.L, s.n)))
        s.pp = r.sym('ADCP::PP', 'pp'); s.pp.f['enc_part'], s.pp.f['bullet_part'] = s.enc, s.b; s.ska = r.sym('BigInt', 'ska'); s.pp.f['pka'] = s.g * s.ska
    def acct(s, nm, honest=True):
        a = s.r.sym('ADCP::Account', nm); sk, rb, m = a.f['sk'], s.r.sym('BigInt', nm + '.rb'), a.f['m']
        if honest:
            a.f['pk'] = s.g * sk; a.f['balance_ct'] = CT(s.g * (sk * rb), s.g * rb + s.h * m); s.r.assume(band(le(0, m), lt(m, X.pow2(s.n))))
        return a
    def ctr(s, **k):
        d = {'Bullet::Prove': s.rec.prove, 'Bullet::FastVerify': s.rec.verify, 'Bullet::Verify': s.rec.verify, 'ShanksDLOG': dlog_contract, Tn + 'Initialize': noop, 'ADCP::SaveAccount': noop, 'ADCP::SaveCTx': noop, 'BigInt::ToHexString': hext}
        d.update(k); return With(d)
def same_acct(r, nm, a, b):
    for k in ('pk', 'sk', 'm', 'sn'): r.prove_eq('%s: %s' % (nm, k), a.f[k], b.f[k])
    for k in ('X', 'Y'): r.prove_eq('%s: balance ciphertext %s' % (nm, k), a.f['balance_ct'].f[k], b.f['balance_ct'].f[k])
def one_complete(t, ctx):
    s = Env(t); r = s.r; a = s.acct('S'); b = s.acct('R'); v = r.sym('BigInt', 'v'); m, mr = a.f['m'], b.f['m']
    r.assume(band(le(0, v), le(v, m), lt(mr + v, X.pow2(s.n))))
    with s.ctr():
        ca, cb = r.cell(a), r.cell(b)
        tx = r.call('ADCP::CreateCTx', s.pp, ca, v, b.f['pk'], sig='ToOneCTx'); same_acct(r, 'creating a transaction leaves the account as it was', r.get(ca), a)
        if len(s.rec.p) != 1: t.result('one range proof is made', None, 'found %d' % len(s.rec.p)); return
        C, W, _ = s.rec.p[0]; r.prove('two values are range-proved', eq(C.f['C'].n, 2))
        for k, x in ((0, v), (1, m - v)):
            r.prove_eq('range-proved value %d' % k, E(W.f['v'], k), x); r.prove('value %d handed to the range proof lies in its range' % k, band(le(0, E(W.f['v'], k)), lt(E(W.f['v'], k), X.pow2(s.n))))
            r.prove_eq('commitment %d handed to the range proof opens to the value' % k, E(C.f['C'], k), s.g * E(W.f['r'], k) + s.h * E(W.f['v'], k))
        rho = E(W.f['r'], 0); is_fresh(r, 'the randomness of the transfer is a fresh draw', rho); is_fresh(r, 'the randomness of the refreshed balance is a fresh draw', E(W.f['r'], 1)); t.result('the two draws differ', E(W.f['r'], 1) != rho, None)
        for k, key in enumerate((a.f['sk'], b.f['sk'], s.ska)): r.prove_eq('component %d of the transfer is for its reader' % k, E(tx.f['transfer_ct'].f['vec_X'], k), s.g * (key * rho))
        r.prove_eq('the transfer holds the amount', tx.f['transfer_ct'].f['Y'], s.g * rho + s.h * v); r.prove_eq('the transaction carries the sender number', tx.f['sn'], a.f['sn'])
        tc = r.cell(tx); ok = to_bool(r.call('ADCP::VerifyCTx', s.pp, tc, sig='ToOneCTx')); r.prove('the honest transaction is valid', ok, extra=(brel('bok', 1),))
        if len(s.rec.v) != 1: t.result('one range proof is checked', None, 'found %d' % len(s.rec.v)); return
        for k in (0, 1): r.prove_eq('prover and verifier hand over the same commitment %d' % k, E(C.f['C'], k), E(s.rec.v[0][0].f['C'], k))
        r.prove_eq('prover and verifier hand over the same transcript', s.rec.p[0][2], s.rec.v[0][1])
        r.prove_eq('the supervisor reads the amount', r.call('ADCP::SuperviseCTx', Struct('ADCP::SP', {'ska': s.ska}), s.pp, tc, sig='ToOneCTx'), v)
        r.call('ADCP::UpdateAccount', s.pp, tc, ca, cb, sig='ToOneCTx'); A, B = r.get(ca), r.get(cb)
        effect(s, A, B, a, b, v)
        r.prove_eq('the sender reads the debited balance', r.call('ADCP::RevealBalance', s.pp, ca), m - v); r.prove_eq('the receiver reads the credited balance', r.call('ADCP::RevealBalance', s.pp, cb), mr + v)
    r.no_abort('no abort'); r.finish()
def effect(s, A, B, a, b, v):
    r = s.r
    r.prove_eq('the sender is debited exactly the amount', A.f['m'], a.f['m'] - v); r.prove_eq('the receiver is credited exactly the amount', B.f['m'], b.f['m'] + v); r.prove_eq('money is conserved', A.f['m'] + B.f['m'], a.f['m'] + b.f['m'])
    r.prove_eq('the sequence number advances by one', A.f['sn'], a.f['sn'] + 1); r.prove_eq('the receiver keeps its sequence number', B.f['sn'], b.f['sn'])
    for nm, x, y in (('sender', A, a), ('receiver', B, b)):
        for k in ('pk', 'sk'): r.prove_eq('the %s keeps its %s' % (nm, k), x.f[k], y.f[k])
def one_exact(t, ctx):
    s = Env(t); r = s.r; tx = r.sym('ADCP::ToOneCTx', 'tx', **{'tx.transfer_ct.vec_X': 3, 'tx.plaintext_equality_proof.vec_A': 3}); F = tx.f
    s.pp.f['pka'] = pt(r, 'pka')
    with s.ctr(): ok = to_bool(r.call('ADCP::VerifyCTx', s.pp, r.cell(tx), sig='ToOneCTx'))
    es = in_order(challenges(ok))
    if len(es) != 3 or len(s.rec.v) != 1: t.result('three challenges and one range proof', None, 'found %d, %d' % (len(es), len(s.rec.v))); return
    e1, e2, e3 = [P(e) for e in es]; tr, q, k, d, rf, bal = F['transfer_ct'].f, F['plaintext_equality_proof'].f, F['plaintext_knowledge_proof'].f, F['correct_refresh_proof'].f, F['refresh_sender_updated_balance_ct'].f, F['sender_balance_ct'].f
    sp = [g0(s.g.p * q['z'] + s.h.p * q['t'] - q['B'].p - tr['Y'].p * e1)]
    for j, pk in enumerate((F['pks'], F['pkr'], s.pp.f['pka'])): sp.append(g0(pk.p * q['z'] - E(q['vec_A'], j).p - E(tr['vec_X'], j).p * e1))
    sp += [g0(F['pks'].p * k['z1'] - k['A'].p - rf['X'].p * e2), g0(s.g.p * k['z1'] + s.h.p * k['z2'] - k['B'].p - rf['Y'].p * e2), brel('bok', 1)]
    g1 = bal['Y'].p - tr['Y'].p - rf['Y'].p; h1 = bal['X'].p - E(tr['vec_X'], 0).p - rf['X'].p
    sp += [g0(g1 * d['z'] - d['A1'].p - h1 * e3), g0(s.g.p * d['z'] - d['A2'].p - F['pks'].p * e3)]
    iff_spec(r, 'a transaction is valid exactly when all its proofs verify for its own ciphertexts and keys', ok, [band(*sp)])
    C = s.rec.v[0][0].f['C']; r.prove('two commitments are range-checked', eq(C.n, 2)); r.prove_eq('the transferred amount is range-checked', E(C, 0), tr['Y']); r.prove_eq('the remaining balance is range-checked', E(C, 1), rf['Y'])
    com = [('the sender', F['pks']), ('the receiver', F['pkr']), ('the sequence number', F['sn']), ('the balance X', bal['X']), ('the balance Y', bal['Y']), ('the transfer Y', tr['Y']), ('the refreshed X', rf['X']), ('the refreshed Y', rf['Y'])] + [('transfer X%d' % j, E(tr['vec_X'], j)) for j in range(3)] + [('equality proof %s' % x, q[x]) for x in ('B',)] + [('knowledge proof %s' % x, k[x]) for x in ('A', 'B')] + [('A1', d['A1']), ('A2', d['A2'])]
    bind_all(r, es[2], com, 'challenge that authenticates the transaction')
    bind_all(r, es[0], [('transfer X%d' % j, E(tr['vec_X'], j)) for j in range(3)] + [('the transfer Y', tr['Y']), ('the sender', F['pks']), ('the receiver', F['pkr'])], 'challenge of the equality proof')
    bind_all(r, es[1], [('the refreshed X', rf['X']), ('the refreshed Y', rf['Y']), ('the sender', F['pks'])], 'challenge of the knowledge proof')
    binds(r, 'the range proof runs on a transcript that commits to the transfer', s.rec.v[0][1], tr['Y'])
    r.no_abort('no abort'); r.finish()
def one_miner(t, ctx):
    s = Env(t); r = s.r; a = r.sym('ADCP::Account', 'S'); b = r.sym('ADCP::Account', 'R'); tx = r.sym('ADCP::ToOneCTx', 'tx', **{'tx.transfer_ct.vec_X': 3, 'tx.plaintext_equality_proof.vec_A': 3}); F = tx.f; up = []
    def upd(ex, c): up.append((ex.st.pc, c)); A, B = c.val(2), c.val(3); ex.store(c.lv(2), Struct(A.cls, dict(A.f, sn=P(app('up.sn'))))); ex.store(c.lv(3), Struct(B.cls, dict(B.f, sn=P(app('up.sn2'))))); return TRUE
    seen = []
    def ver(ex, c): seen.append(c.val(1)); return brel('vok', 1)
    ca, cb = r.cell(a), r.cell(b)
    with s.ctr(**{'ADCP::VerifyCTx': ver, 'ADCP::UpdateAccount': upd}): ok = to_bool(r.call('ADCP::Miner', s.pp, r.cell(tx), ca, cb, sig='ToOneCTx'))
    bal, ab = F['sender_balance_ct'].f, a.f['balance_ct'].f
    sp = band(X.val_eq(F['pks'], a.f['pk']), X.val_eq(F['pkr'], b.f['pk']), eq(F['sn'], a.f['sn']), X.val_eq(bal['X'], ab['X']), X.val_eq(bal['Y'], ab['Y']), brel('vok', 1))
    iff_spec(r, 'a transaction is applied exactly when it is valid, names both accounts and spends the current state of the sender', ok, [sp])
    A, B = r.get(ca), r.get(cb)
    for nm, x, y, u in (('sender', A, a, 'up.sn'), ('receiver', B, b, 'up.sn2')):
        r.prove('a rejected transaction leaves the %s as it was' % nm, bimp(bnot(sp), eq(x.f['sn'], y.f['sn']))); r.prove('an accepted transaction updates the %s' % nm, bimp(sp, eq(x.f['sn'], P(app(u)))))
    if seen: r.prove_eq('the transaction that is checked is the one submitted', seen[0].f['transfer_ct'].f['Y'], F['transfer_ct'].f['Y'])
    r.no_abort('no abort'); r.finish()
def MR(xs, y): return Struct(Tn + 'MRCT', {'vec_X': Vec.of_list(xs), 'Y': y})
def many_complete(n):
    def f(t, ctx):
        s = Env(t); r = s.r; a = s.acct('S'); bs = [s.acct('R%d' % i) for i in range(n)]; vs = [r.sym('BigInt', 'v%d' % i) for i in range(n)]; tot = sum(vs, P(0)); m = a.f['m']
        s.pp.f['MAX_RECEIVER_NUM'] = P(n)
        for v, b in zip(vs, bs): r.assume(band(le(0, v), lt(b.f['m'] + v, X.pow2(s.n))))
        r.assume(le(tot, m))
        with s.ctr():
            ca = r.cell(a); cb = r.cell(Vec.of_list(bs))
            tx = r.call('ADCP::CreateCTx', s.pp, ca, Vec.of_list(vs), Vec.of_list([b.f['pk'] for b in bs]), sig='ToManyCTx')
            if len(s.rec.p) != 1: t.result('one range proof is made', None, 'found %d' % len(s.rec.p)); return
            C, W, _ = s.rec.p[0]; r.prove('all amounts and the remaining balance are range-proved', eq(C.f['C'].n, n + 1))
            for k, x in list(enumerate(vs)) + [(n, m - tot)]:
                w = E(W.f['v'], k); r.prove_eq('range-proved value %d' % k, w, x); r.prove('value %d handed to the range proof lies in its range' % k, band(le(0, w), lt(w, X.pow2(s.n))))
                r.prove_eq('commitment %d handed to the range proof opens to the value' % k, E(C.f['C'], k), s.g * E(W.f['r'], k) + s.h * w)
                is_fresh(r, 'randomness %d is a fresh draw' % k, E(W.f['r'], k))
            t.result('all draws differ', len({E(W.f['r'], k).atom() for k in range(n + 1)}) == n + 1, None)
            for k, b in enumerate(bs):
                ct = E(tx.f['vec_receiver_transfer_ct'], k).f; rho = E(W.f['r'], k); r.prove_eq('transfer %d holds its amount' % k, ct['Y'], s.g * rho + s.h * vs[k])
                r.prove_eq('transfer %d is for its receiver' % k, E(ct['vec_X'], 0), s.g * (b.f['sk'] * rho)); r.prove_eq('transfer %d is for the supervisor' % k, E(ct['vec_X'], 1), s.g * (s.ska * rho))
            tc = r.cell(tx); ok = to_bool(r.call('ADCP::VerifyCTx', s.pp, tc, sig='ToManyCTx')); r.prove('the honest transaction is valid', ok, extra=(brel('bok', 1),))
            if len(s.rec.v) != 1: t.result('one range proof is checked', None, 'found %d' % len(s.rec.v)); return
            r.prove_eq('prover and verifier hand over the same transcript', s.rec.p[0][2], s.rec.v[0][1])
            sv = r.call('ADCP::SuperviseCTx', Struct('ADCP::SP', {'ska': s.ska}), s.pp, tc, sig='ToManyCTx')
            for k in range(n): r.prove_eq('the supervisor reads amount %d' % k, E(sv, k), vs[k])
            r.call('ADCP::UpdateAccount', s.pp, tc, ca, cb, sig='ToManyCTx'); A, B = r.get(ca), r.get(cb)
            r.prove_eq('the sender is debited exactly the total', A.f['m'], m - tot); r.prove_eq('the sequence number advances by one', A.f['sn'], a.f['sn'] + 1); r.prove_eq('the sender reads the debited balance', r.call('ADCP::RevealBalance', s.pp, ca), m - tot)
            for k in range(n): r.prove_eq('receiver %d is credited exactly its amount' % k, E(B, k).f['m'], bs[k].f['m'] + vs[k]); r.prove_eq('receiver %d keeps its sequence number' % k, E(B, k).f['sn'], bs[k].f['sn']); r.prove_eq('receiver %d reads the credited balance' % k, r.call('ADCP::RevealBalance', s.pp, r.cell(E(B, k))), bs[k].f['m'] + vs[k])
        r.no_abort('no abort'); r.finish()
    return f
def sym_many(r, n, nc=None, ne=None):
    tx = r.sym('ADCP::ToManyCTx', 'tx', **{'tx.vec_pkr': n, 'tx.vec_receiver_transfer_ct': 1, 'tx.vec_plaintext_equality_proof': 1}); F = tx.f; nc = n if nc is None else nc; ne = n if ne is None else ne
    F['vec_pkr'] = Vec.of_list([pt(r, 'pkr%d' % i) for i in range(n)])
    F['vec_receiver_transfer_ct'] = Vec.of_list([MR([pt(r, 'X%d_0' % i), pt(r, 'X%d_1' % i)], pt(r, 'Y%d' % i)) for i in range(nc)])
    F['vec_plaintext_equality_proof'] = Vec.of_list([Struct('PlaintextEquality::Proof', {'vec_A': Vec.of_list([pt(r, 'A%d_0' % i), pt(r, 'A%d_1' % i)]), 'B': pt(r, 'B%d' % i), 'z': r.sym('BigInt', 'z%d' % i), 't': r.sym('BigInt', 't%d' % i)}) for i in range(ne)])
    return tx
def many_exact(n):
    def f(t, ctx):
        s = Env(t); r = s.r; s.pp.f['pka'] = pt(r, 'pka'); s.pp.f['MAX_RECEIVER_NUM'] = P(n); tx = sym_many(r, n); F = tx.f
        with s.ctr(): ok = to_bool(r.call('ADCP::VerifyCTx', s.pp, r.cell(tx), sig='ToManyCTx'))
        es = in_order(challenges(ok))
        if len(es) != n + 3 or len(s.rec.v) != 1: t.result('%d challenges and one range proof' % (n + 3), None, 'found %d, %d' % (len(es), len(s.rec.v))); return
        e = [P(x) for x in es]; sp = []; k, d, bp, rf, bal, st = [F[x].f for x in ('plaintext_knowledge_proof', 'correct_refresh_proof', 'balance_proof', 'refresh_sender_updated_balance_ct', 'sender_balance_ct', 'sender_transfer_ct')]
        ct = [E(F['vec_receiver_transfer_ct'], i).f for i in range(n)]; q = [E(F['vec_plaintext_equality_proof'], i).f for i in range(n)]; pk = [E(F['vec_pkr'], i) for i in range(n)]
        for i in range(n):
            sp.append(g0(s.g.p * q[i]['z'] + s.h.p * q[i]['t'] - q[i]['B'].p - ct[i]['Y'].p * e[i]))
            for j, key in enumerate((pk[i], s.pp.f['pka'])): sp.append(g0(key.p * q[i]['z'] - E(q[i]['vec_A'], j).p - E(ct[i]['vec_X'], j).p * e[i]))
        sp += [g0(F['pks'].p * k['z1'] - k['A'].p - rf['X'].p * e[n]), g0(s.g.p * k['z1'] + s.h.p * k['z2'] - k['B'].p - rf['Y'].p * e[n]), brel('bok', 1)]
        sp.append(g0(s.g.p * bp['z'] - bp['A'].p - (st['Y'].p - sum([c['Y'].p for c in ct], P(0))) * e[n + 1]))
        g1 = bal['Y'].p - st['Y'].p - rf['Y'].p; h1 = bal['X'].p - st['X'].p - rf['X'].p
        sp += [g0(g1 * d['z'] - d['A1'].p - h1 * e[n + 2]), g0(s.g.p * d['z'] - d['A2'].p - F['pks'].p * e[n + 2])]
        iff_spec(r, 'a transaction is valid exactly when all its proofs verify for its own ciphertexts and keys', ok, [band(*sp)])
        C = s.rec.v[0][0].f['C']; r.prove('as many commitments as due are range-checked', eq(C.n, n + 1)); r.prove_eq('the remaining balance is range-checked', E(C, n), rf['Y'])
        for i in range(n): r.prove_eq('amount %d is range-checked' % i, E(C, i), ct[i]['Y'])
        com = [('the sender', F['pks']), ('the sequence number', F['sn']), ('the balance X', bal['X']), ('the balance Y', bal['Y']), ('the total X', st['X']), ('the total Y', st['Y']), ('the refreshed X', rf['X']), ('the refreshed Y', rf['Y']), ('the sum proof A', bp['A']), ('A1', d['A1']), ('A2', d['A2'])]
        for i in range(n): com += [('receiver %d' % i, pk[i]), ('amount %d' % i, ct[i]['Y']), ('transfer %d X0' % i, E(ct[i]['vec_X'], 0)), ('transfer %d X1' % i, E(ct[i]['vec_X'], 1))]
        bind_all(r, es[n + 2], com, 'challenge that authenticates the transaction')
        for i in range(n): bind_all(r, es[i], [('amount %d' % i, ct[i]['Y']), ('transfer %d X0' % i, E(ct[i]['vec_X'], 0)), ('transfer %d X1' % i, E(ct[i]['vec_X'], 1)), ('receiver %d' % i, pk[i])], 'challenge of equality proof %d' % i)
        bind_all(r, es[n], [('the refreshed X', rf['X']), ('the refreshed Y', rf['Y']), ('the sender', F['pks'])], 'challenge of the knowledge proof'); binds(r, 'the challenge of the sum proof commits to the total', es[n + 1].args[0], st['Y'])
        r.no_abort('no abort'); r.finish()
    return f
def many_shape(t, ctx):
    for n, nc, ne, mx in ((2, 2, 2, 3), (3, 2, 3, 3), (3, 3, 2, 3), (1, 3, 3, 3), (3, 1, 1, 3), (7, 7, 7, 3), (3, 4, 3, 3), (0, 0, 1, 3)):
        s = Env(t); r = s.r; s.pp.f['MAX_RECEIVER_NUM'] = P(mx); tx = sym_many(r, n, nc, ne)
        with s.ctr(): ok = to_bool(r.call('ADCP::VerifyCTx', s.pp, r.cell(tx), sig='ToManyCTx'))
        r.prove('%d receivers, %d ciphertexts, %d proofs, at most %d receivers: refused' % (n, nc, ne, mx), bnot(ok)); r.no_abort('%d receivers, %d ciphertexts, %d proofs: no abort' % (n, nc, ne)); r.finish()
def many_miner(n, na):
    def f(t, ctx):
        s = Env(t); r = s.r; a = r.sym('ADCP::Account', 'S'); bs = [r.sym('ADCP::Account', 'R%d' % i) for i in range(na)]; s.pp.f['MAX_RECEIVER_NUM'] = P(n); tx = sym_many(r, n); F = tx.f
        def upd(ex, c): A, B = c.val(2), c.val(3); ex.store(c.lv(2), Struct(A.cls, dict(A.f, sn=P(app('up.sn'))))); return TRUE
        def ver(ex, c): return brel('vok', 1)
        ca, cb = r.cell(a), r.cell(Vec.of_list(bs))
        with s.ctr(**{'ADCP::VerifyCTx': ver, 'ADCP::UpdateAccount': upd}): ok = to_bool(r.call('ADCP::Miner', s.pp, r.cell(tx), ca, cb, sig='ToManyCTx'))
        if na != n: r.prove('a transaction to %d is not applied to %d accounts' % (n, na), bnot(ok)); sp = FALSE
        else:
            bal, ab = F['sender_balance_ct'].f, a.f['balance_ct'].f
            sp = band(X.val_eq(F['pks'], a.f['pk']), eq(F['sn'], a.f['sn']), X.val_eq(bal['X'], ab['X']), X.val_eq(bal['Y'], ab['Y']), brel('vok', 1), *[X.val_eq(E(F['vec_pkr'], i), bs[i].f['pk']) for i in range(n)])
            iff_spec(r, 'a transaction is applied exactly when it is valid, names all accounts and spends the current state of the sender', ok, [sp])
        A = r.get(ca); r.prove('a rejected transaction leaves the sender as it was', bimp(bnot(sp), eq(A.f['sn'], a.f['sn']))); r.prove('an accepted transaction updates the sender', bimp(sp, eq(A.f['sn'], P(app('up.sn')))))
        r.no_abort('no abort'); r.finish()
    return f
def create(t, ctx):
    s = Env(t); r = s.r; m, sn = r.sym('BigInt', 'm'), r.sym('BigInt', 'sn'); r.assume(band(le(0, m), lt(m, X.pow2(s.n))))
    with s.ctr():
        a = r.call('ADCP::CreateAccount', s.pp, r.sym('std::string', 'id'), m, sn); is_fresh(r, 'the secret key is a fresh draw', a.f['sk']); r.prove_eq('the public key belongs to the secret key', a.f['pk'], s.g * a.f['sk'])
        r.prove_eq('the record holds the balance', a.f['m'], m); r.prove_eq('the record holds the sequence number', a.f['sn'], sn); r.prove_eq('the owner reads the balance', r.call('ADCP::RevealBalance', s.pp, r.cell(a)), m)
    r.no_abort('no abort'); r.finish()
def ctx1(r, nm): return r.sym('ADCP::ToOneCTx', nm, **{nm + '.transfer_ct.vec_X': 3, nm + '.plaintext_equality_proof.vec_A': 3})
def open_policy(t, ctx):
    s = Env(t); r = s.r; sk, rho, v = r.sym('BigInt', 'sk'), r.sym('BigInt', 'rho'), r.sym('BigInt', 'v')
    for who in (0, 1):
        tx = ctx1(r, 'tx'); a = r.sym('ADCP::Account', 'U'); a.f['sk'] = sk; a.f['pk'] = s.g * sk; tx.f['pks' if who == 0 else 'pkr'] = a.f['pk']; other = tx.f['pkr' if who == 0 else 'pks']
        tx.f['transfer_ct'] = MR([s.g * (sk * rho) if who == j else pt(r, 'X%d' % j) for j in range(3)], s.g * rho + s.h * v); r.assume(bnot(X.val_eq(other, a.f['pk'])))
        pol = Struct('ADCP::OpenPolicy', {'v': v}); pf = r.call('ADCP::JustifyPolicy', s.pp, a, tx, pol, sig='OpenPolicy'); r.prove('party %d: the honest opening is accepted' % who, to_bool(r.call('ADCP::AuditPolicy', s.pp, a, tx, pol, pf, sig='OpenPolicy')))
    r.no_abort('no abort'); r.finish()
    s = Env(t); r = s.r; tx = ctx1(r, 'tx'); a = r.sym('ADCP::Account', 'U'); pol = r.sym('ADCP::OpenPolicy', 'pol'); pf = r.sym('DLOGEquality::Proof', 'pf'); ok = to_bool(r.call('ADCP::AuditPolicy', s.pp, a, tx, pol, pf, sig='OpenPolicy')); F, d = tx.f, pf.f
    es = challenges(ok); iss, isr = X.val_eq(a.f['pk'], F['pks']), X.val_eq(a.f['pk'], F['pkr']); eqs = []
    def one(x, pk, e): return band(g0((F['transfer_ct'].f['Y'].p - s.h.p * pol.f['v']) * d['z'] - d['A1'].p - x.p * e), g0(s.g.p * d['z'] - d['A2'].p - pk.p * e))
    xs = F['transfer_ct'].f['vec_X']
    if len(es) not in (1, 2): t.result('challenges of the opening', None, 'found %d' % len(es)); return
    cand = [bor(band(iss, one(E(xs, 0), F['pks'], P(e1))), band(bnot(iss), isr, one(E(xs, 1), F['pkr'], P(e2)))) for e1 in es for e2 in es]
    iff_spec(r, 'an opening is accepted exactly when the claimer takes part and the equality proof verifies for the claimed amount', ok, cand); r.no_abort('no abort (audit)'); r.finish()
def rate_policy(t, ctx):
    s = Env(t); r = s.r; sk, r1, r2, w, t1, t2 = [r.sym('BigInt', x) for x in ('sk', 'r1', 'r2', 'w', 't1', 't2')]; v1, v2 = w * t2, w * t1  # every pair with v1 t1 = v2 t2 modulo the order, for t1, t2 not 0
    a = r.sym('ADCP::Account', 'U'); a.f['sk'] = sk; a.f['pk'] = s.g * sk; x1, x2 = ctx1(r, 'tx1'), ctx1(r, 'tx2'); x1.f['pkr'] = a.f['pk']; x2.f['pks'] = a.f['pk']
    x1.f['transfer_ct'] = MR([pt(r, 'P0'), s.g * (sk * r1), pt(r, 'P2')], s.g * r1 + s.h * v1); x2.f['transfer_ct'] = MR([s.g * (sk * r2), pt(r, 'Q1'), pt(r, 'Q2')], s.g * r2 + s.h * v2)
    pol = Struct('ADCP::RatePolicy', {'t1': t1, 't2': t2}); pf = r.call('ADCP::JustifyPolicy', s.pp, a, x1, x2, pol, sig='RatePolicy'); ok = to_bool(r.call('ADCP::AuditPolicy', s.pp, a.f['pk'], x1, x2, pol, pf, sig='RatePolicy'))
    r.prove('the honest rate proof is accepted', ok); r.no_abort('no abort'); r.finish()
    s = Env(t); r = s.r; x1, x2 = ctx1(r, 'tx1'), ctx1(r, 'tx2'); pk = pt(r, 'pk'); pol = r.sym('ADCP::RatePolicy', 'pol'); pf = r.sym('DLOGEquality::Proof', 'pf'); ok = to_bool(r.call('ADCP::AuditPolicy', s.pp, pk, x1, x2, pol, pf, sig='RatePolicy')); d = pf.f; es = challenges(ok)
    T1, T2 = x1.f['transfer_ct'].f, x2.f['transfer_ct'].f; dX = E(T1['vec_X'], 1).p * pol.f['t1'] - E(T2['vec_X'], 0).p * pol.f['t2']; dY = T1['Y'].p * pol.f['t1'] - T2['Y'].p * pol.f['t2']
    iff_spec(r, 'a rate proof is accepted exactly when the claimer received the first, sent the second and the equality proof verifies', ok, [band(X.val_eq(pk, x1.f['pkr']), X.val_eq(pk, x2.f['pks']), g0(s.g.p * d['z'] - d['A1'].p - pk.p * P(e)), g0(dY * d['z'] - d['A2'].p - dX * P(e))) for e in es]); r.no_abort('no abort (audit)'); r.finish()
def limit_policy(n):
    def f(t, ctx):
        s = Env(t); r = s.r; xs = [ctx1(r, 'tx%d' % i) for i in range(n)]; pk = pt(r, 'pk'); pol = r.sym('ADCP::LimitPolicy', 'pol'); seen = []
        def ver(ex, c): seen.append([c.val(i) for i in range(6)]); return brel('gok', len(seen))
        pf = r.sym('Gadget::Proof_type2', 'pf')
        with s.ctr(**{'Gadget::Verify': ver}): ok = to_bool(r.call('ADCP::AuditPolicy', s.pp, pk, Vec.of_list(xs), pol, pf, sig='LimitPolicy'))
        iff_spec(r, 'a limit proof over %d transactions is accepted exactly when the claimer sent all of them and the range proof verifies' % n, ok, [band(brel('gok', 1), *[X.val_eq(pk, x.f['pks']) for x in xs])])
        def inst_ok(c, w):
            i = c[1].f; r.prove_eq(w + ' key', i.f['pk'] if hasattr(i, 'f') else i['pk'], pk)
            for k, y in (('X', [E(x.f['transfer_ct'].f['vec_X'], 0) for x in xs]), ('Y', [x.f['transfer_ct'].f['Y'] for x in xs])):
                z = G(P(0))
                for q in y: z = z + q
                r.prove_eq('%s: component %s is that of the sum of the amounts' % (w, k), i['ct'].f[k], z)
            r.prove_eq(w + ': left bound', c[2], pol.f['LEFT_BOUND']); r.prove_eq(w + ': right bound', c[3], pol.f['RIGHT_BOUND'])
        if len(seen) == 1: inst_ok(seen[0], 'audit')
        else: t.result('one range check', None, 'found %d' % len(seen))
        r.no_abort('no abort'); r.finish()
    return f
def tasks(tier):
    ns = (1, 3) + ((7,) if tier == 'thorough' else ())
    ts = [Task('account.create', create), Task('one.completeness-and-effect', one_complete), Task('one.exact', one_exact), Task('one.miner', one_miner), Task('policy.open', open_policy), Task('policy.rate', rate_policy)]
    ts += [Task('policy.limit.%d' % n, limit_policy(n), bounded='%d transactions' % n) for n in (1, 2, 3)]
    for n in ns: ts += [Task('many.completeness-and-effect.%d' % n, many_complete(n), bounded='%d receivers' % n), Task('many.exact.%d' % n, many_exact(n), bounded='%d receivers' % n)]
    ts += [Task('many.miner.%d.%d' % x, many_miner(*x), bounded='%d receivers, %d accounts' % x) for x in ((1, 1), (3, 3), (3, 2), (1, 2))]
    return ts + [Task('many.shape', many_shape, bounded='8 malformed shapes')]
