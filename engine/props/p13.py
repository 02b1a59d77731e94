from props.common import *
from duo import *
HARNESS = ['p13.cpp']
INC = ['crypto/setup.hpp', 'mpc/ot/naor_pinkas_ot.hpp', 'mpc/ot/iknp_ote.hpp', 'mpc/ot/alsz_ote.hpp']
def prog(u=()): return program(INC, '', undef=u)
PRELOAD = [prog]
ASSUMPTIONS = []
def blocks(name, n):
    i = fresh_atom('i'); return Vec(P(n), i, R(app(name, P(i))))
def choices(name, n):
    i = fresh_atom('i'); return Vec(P(n), i, ite(bapp(name, P(i)), P(1), P(0)))
def at(d, n, p=None):
    """an arbitrary index below n, assumed for party p"""
    k = fresh_atom('k'); (p or d.a).r.assume(band(le(0, P(k)), lt(P(k), n))); return P(k)
def npot(t, ctx):
    d = Duo(t, prog()); n = d.sym('unsigned long', 'n')
    m0, m1, s = blocks('m0', n), blocks('m1', n), choices('sel', n)
    pp = d.a.r.call('NPOT::Setup'); d.b.r.call('NPOT::Setup')
    fs = lambda p: p.r.call('NPOT::Send', p.io, pp, m0, m1, n)
    fr = lambda p: p.r.call('NPOT::Receive', p.io, pp, s, n)
    d.run(fs, fr)
    v = d.b.result; d.b.ex.activate(); r = d.b.r
    r.prove('one message per instance', eq(v.n, n))
    k = at(d, n, d.b)
    r.prove_eq('the receiver obtains the chosen message', vget(v, k), rite(bapp('sel', k), vget(m1, k), vget(m0, k)))
    secrecy(t, d, [('m0', False), ('m1', True)])
    d.balanced(); d.finish()
def tasks(tier):
    return [Task('NPOT', npot)]
def strings(name, n, L):
    i = fresh_atom('i'); return Vec(P(n), i, seg(app(name, P(i)), L))
def beq_(a, b): return bor(band(a, b), band(bnot(a), bnot(b)))
def prove_val(r, nm, x, y):
    if isinstance(y, (Vec, Bytes)):
        k = fresh_atom('k'); pc = r.ex.st.pc
        r.prove(nm + ' (length)', eq(x.length(), y.length()))
        r.assume(band(le(0, P(k)), lt(P(k), y.length())))
        g = lambda v: byte_at(v, P(k)) if isinstance(v, Bytes) else vget(v, P(k))
        r.prove_eq(nm, g(x), g(y)); r.ex.st.pc = pc
    else: r.prove_eq(nm, x, y)
def worst(rs): return False if any(r is False for r in rs) else None if any(r is None for r in rs) else True
def secrecy(t, d, msgs):
    sel = lambda y: is_app(y, 'sel')
    rs = [(masked(x, sel, 'B', None), x) for x, q in payloads(d.b.sent())]
    bad = [x for r, x in rs if r is not True]
    t.result('the choices reach the sender only under a fresh mask', worst([r for r, x in rs]), str(bad)[:600])
    # an unchosen message is masked by a secret of the sender
    out = []
    from solver import AssumeB
    for x, q in payloads(d.a.sent()):
        for nm, chosen in msgs:
            if not mentions(x, lambda y: is_app(y, nm)): continue
            y = x
            if isinstance(y, Bytes):   # byte strings: the pad must be keyed by the sender's secret
                pass
            cs = []
            walk(y, lambda z: cs.append(z) if isinstance(z, B) and z.op == 'app' and z.args[0] == 'sel' and z.depth == 0 and z not in cs else None)
            for c in cs: y = AssumeB(c, not chosen)(y)
            if isinstance(y, Bytes):
                r = True if secret_of_sender(y, nm) else False
            else:
                r = False
                for m in y.t:
                    for a in m:
                        if not is_app(a, nm) and secret_of_sender(a, nm): r = True
            out.append((r, y))
    t.result('an unchosen message is masked by a value only the sender can compute', worst([r for r, y in out]) if out else None, str([y for r, y in out if r is not True])[:600])
def secret_of_sender(x, nm):
    hit = []
    def f(y):
        if isinstance(y, B) and y.op == 'app' and y.args[0] == 'prgbit' and mentions(y, own_rnd('A')): hit.append(1)
        if isinstance(y, App) and y.name == 'pt':
            for m in y.args[0].t:
                if len({a for a, e in m if a.name == 'rnd' and str(a.args[0]).startswith('A')}) >= 2: hit.append(1)
    walk(x, f); return bool(hit)
def mat(d, rows, cols, p):
    for r in (d.a.r, d.b.r): r.assume(band(le(1, rows), le(1, cols)))
def ote(ns, kind):
    def f(t, ctx):
        d = Duo(t, prog(), NPOT_C); rho, gam = d.sym('unsigned long', 'rows'), d.sym('unsigned long', 'cols')
        for r in (d.a.r, d.b.r): r.assume(band(le(1, rho), le(1, gam), le(rho, 1 << 20), le(gam, 1 << 10)))
        n = rho * 128
        pps = [p.r.call(ns + '::Setup', gam * 128) for p in (d.a, d.b)]
        sel = choices('sel', n); m0, m1 = blocks('m0', n), blocks('m1', n)
        if kind == 'random':
            def fs(p):
                k0, k1 = p.r.cell(Vec(n, None, R0)), p.r.cell(Vec(n, None, R0))
                p.r.call(ns + '::RandomSend', p.io, p.r.cell(pps[0]), k0, k1, n); return p.r.get(k0), p.r.get(k1)
            def fr(p):
                k = p.r.cell(Vec(n, None, R0)); p.r.call(ns + '::RandomReceive', p.io, p.r.cell(pps[1]), k, p.r.cell(sel), n); return p.r.get(k)
        elif kind == 'std':
            fs = lambda p: p.r.call(ns + '::Send', p.io, p.r.cell(pps[0]), p.r.cell(m0), p.r.cell(m1), n)
            fr = lambda p: p.r.call(ns + '::Receive', p.io, p.r.cell(pps[1]), p.r.cell(sel), n)
        elif kind == 'onesided':
            fs = lambda p: p.r.call(ns + '::OnesidedSend', p.io, p.r.cell(pps[0]), p.r.cell(m1), n)
            fr = lambda p: p.r.call(ns + '::OnesidedReceive', p.io, p.r.cell(pps[1]), p.r.cell(sel), n)
        elif kind in ('bytes', 'onesided-bytes'):
            L = d.sym('unsigned long', 'len'); o = 'Onesided' if kind != 'bytes' else ''
            for r in (d.a.r, d.b.r): r.assume(le(1, L))
            m0, m1 = strings('m0', n, L), strings('m1', n, L)
            if o: fs = lambda p: p.r.call(ns + '::OnesidedSendByteVector', p.io, p.r.cell(pps[0]), p.r.cell(m1), n)
            else: fs = lambda p: p.r.call(ns + '::SendByteVector', p.io, p.r.cell(pps[0]), p.r.cell(m0), p.r.cell(m1), n)
            fr = lambda p: p.r.call(ns + '::' + o + 'ReceiveByteVector', p.io, p.r.cell(pps[1]), p.r.cell(sel), n)
        d.run(fs, fr)
        v = d.b.result; d.b.ex.activate(); r = d.b.r
        if 'onesided' in kind:
            k = at(d, n, d.b); s = bapp('sel', k)
            r.prove('the receiver scans every instance', eq(v.tot, n))
            c, x = v.at(k)
            r.prove('exactly the instances with choice 1 are delivered, in order', beq_(c, s))
            r.assume(s); prove_val(r, 'the receiver obtains the message of every instance with choice 1', x, vget(m1, k))
            secrecy(t, d, [('m1', True)]); d.balanced(); d.finish(); return
        r.prove('one value per instance', eq(v.n, n))
        k = at(d, n, d.b); s = bapp('sel', k)
        if kind == 'random':
            k0, k1 = d.a.result
            r.prove('one pair per instance', band(eq(k0.n, n), eq(k1.n, n)))
            x0, x1 = vget(k0, k), vget(k1, k)
        else: x0, x1 = vget(m0, k), vget(m1, k)
        prove_val(r, 'the receiver obtains the chosen value', vget(v, k), vite(s, x1, x0))
        secrecy(t, d, [('m0', False), ('m1', True)]) if kind != 'random' else None
        d.balanced(); d.finish()
    return f
def tasks(tier):
    T = [Task('NPOT', npot)]
    for ns in ('IKNPOTE', 'ALSZOTE'):
        for k in ('random', 'std', 'onesided') + (('bytes', 'onesided-bytes') if ns == 'ALSZOTE' else ()): T.append(Task('%s/%s' % (ns, k), ote(ns, k)))
    return T
