"""Two-party protocols: both parties' real code is executed symbolically, each in its own executor, joined by two byte streams.
NetIO::SendBytes/ReceiveBytes enter through their contracts (discharged by P03); the typed Send*/Receive* are executed as written.
A party runs until it needs bytes its peer has not produced yet; then the peer runs.  The schedule does not matter: each
direction is a deterministic byte stream and a party's behaviour depends only on the bytes it reads."""
import threading
from terms import *
from values import *
import externals as X
from interp import CONTRACTS
from vc import Run, Task, Aborts, Missing
from props.common import *

class Deadlock(Unsupported): pass
class Stop(BaseException): pass

class Party:
    def __init__(self, duo, run, who):
        self.duo = duo; self.r = run; self.ex = run.ex; self.who = who
        run.ex.extra['who'] = who
        run.ex.chan_party = self
        self.out = run.cell(Stream(EMPTY, None, TRUE, 'w'), 'out'); self.inp = run.cell(Stream(EMPTY, None, TRUE, 'r'), 'in')
        v = run.ex.default('NetIO', True)
        self.io = run.cell(v, 'io')
        self.go = threading.Event(); self.state = 'new'; self.err = None; self.result = None
    def sent(self): return self.ex.st.mem[self.out[0]].b
class Duo:
    def __init__(self, task, prog, sub={}, **kw):
        self.task = task; self.subc = sub; self.msgs = {}
        self.a = Party(self, Run(task, prog, **kw), 'A'); self.b = Party(self, Run(task, prog, **kw), 'B')
        self.a.peer = self.b; self.b.peer = self.a
    def assume(self, c):
        self.a.r.assume(c); self.b.r.assume(c)
    def sym(self, t, name, **sz):
        v = self.a.r.sym(t, name, **sz)
        return self.b.r.sym(t, name, **sz) if v is None else (self.b.r.sym(t, name, **sz), v)[1]
    def run(self, fa, fb):
        """fa(party), fb(party): bodies of the parties"""
        use(True, self.subc)
        main = threading.Event()
        def body(p, f):
            try:
                p.go.wait(); p.go.clear()
                if self.stop: raise Stop()
                p.ex.activate(); p.result = f(p); p.state = 'done'
            except Stop: p.state = 'stopped'
            except BaseException as e: p.err = e; p.state = 'failed'
            finally:
                q = p.peer
                if q.state in ('new', 'wait') and p.state == 'done' and not self.stop: q.ex.activate(); q.go.set()
                elif q.state in ('new', 'wait'): self.stop = True; q.go.set()
                else: main.set()
        self.stop = False
        ts = [threading.Thread(target=body, args=(p, f), daemon=True) for p, f in ((self.a, fa), (self.b, fb))]
        for t in ts: t.start()
        self.a.state = 'run'; self.a.go.set()
        for t in ts: t.join()
        use(False, self.subc)
        for p in (self.a, self.b):
            if p.err is not None: raise p.err
        # shared facts: both parties' path conditions hold in a joint run
        for p in (self.a, self.b):
            for c in p.peer.ex.st.pc:
                if c not in p.ex.st.pc: p.ex.assume(c)
        self.a.ex.activate()
    def balanced(self):
        for p in (self.a, self.b):
            p.r.prove('%s: every byte sent is received' % p.peer.who, eq(p.ex.st.mem[p.inp[0]].pos, p.peer.sent().length()))
    def finish(self):
        self.a.r.finish(); self.b.r.finish()
def send_contract(ex, c):
    p = ex.chan_party
    v = ex.load(p.out)
    n = P(c.val(1))
    b = X.mem_read(ex, c.val(0), n, 'void')
    ex.store(p.out, v.at(b=v.b + b))
def recv_contract(ex, c):
    n = P(c.val(1))
    if n.is_zero(): return
    X.mem_write(ex, c.val(0), take(ex, n), 'void')
def take(ex, n, peek=False):
    """the next n bytes from the peer"""
    p = ex.chan_party; q = p.peer
    v = ex.load(p.inp)
    need = le(v.pos + n, q.sent().length())
    if any(a.name.startswith('ph:') for a in all_atoms(v.pos)):     # first pass of the loop rule: the position is not known yet
        ex.store(p.inp, v.at(pos=v.pos + n)); return seg(app('ph:prov', v.pos), n)
    while decide(need) is not True:
        if q.state == 'done': raise Deadlock('%s waits for bytes %s never sends (%s)' % (p.who, q.who, q.state))
        if ex.splits: raise Unsupported('receive under an undecided condition')
        if ex.loopk: raise Unsupported('interaction inside a loop')
        if q.state == 'wait' and not q.ready(): raise Deadlock('both parties wait')
        have = q.sent().length()
        p.need = (v.pos + n); p.ready = lambda: decide_in(p.ex, le(p.need, q.sent().length())) is True
        p.state = 'wait'; q.state = 'run'; q.go.set()
        p.go.wait(); p.go.clear()
        if p.duo.stop: raise Stop()
        p.state = 'run'; p.ex.activate()
        need = le(v.pos + n, q.sent().length())
        if q.sent().length() == have and decide(need) is not True: raise Deadlock('%s waits for bytes %s does not send' % (p.who, q.who))
    if peek: return
    b = bslice(q.sent(), v.pos, n)
    ex.store(p.inp, v.at(pos=v.pos + n))
    return b
NPT = 65
BREBUILD['netpt'] = lambda p: netpt(G(p))
def netpt(g): return seg(app('netpt', g.p), NPT)
X.INJ['netpt'] = lambda x, y: g0(x[0] - y[0])
def pts_at(ex, ptr, n):
    lv = ptr.lv()
    if lv[1] and lv[1][-1][0] == 'i': return (lv[0], lv[1][:-1]), lv[1][-1][1]
    if isinstance(ex.load(lv), Vec): return lv, P(0)
    return lv, None
def send_pts(ex, c):
    """contract of SendECPoints/SendECPoint (discharged by P03 together with the receiving side)"""
    p = ex.chan_party; v = ex.load(p.out)
    if len(c) == 1: b = netpt(c.val(0))
    else:
        n = P(c.val(1))
        if n.is_zero(): return
        lv, i0 = pts_at(ex, c.val(0), n)
        if i0 is None:
            if n != P(1): raise Unsupported('several points sent from one object')
            b = netpt(ex.load(lv))
        else:
            j = fresh_atom('i'); pc = ex.st.pc; ex.assume(band(le(0, P(j)), lt(P(j), n)))
            x = vget(ex.load(lv), i0 + P(j)); ex.st.pc = pc
            if not isinstance(x, G): raise Unsupported('points expected')
            b = brep(n, j, netpt(x))
    ex.store(p.out, v.at(b=v.b + b))
def dept(b):
    if len(b.segs) == 1 and isinstance(b.segs[0], tuple) and b.segs[0][0] != 'rep' and b.segs[0][0].name == 'netpt' and b.segs[0][1] == P(NPT): return G(b.segs[0][0].args[0])
    raise Unsupported('bytes received as a point: %s' % str(b)[:200])
def recv_pts(ex, c):
    one = len(c) == 1
    n = P(1) if one else P(c.val(1))
    if n.is_zero(): return
    b = take(ex, n * NPT)
    if one: ex.store(c.lv(0), dept(b)); return
    lv, i0 = pts_at(ex, c.val(0), n)
    if i0 is None:
        if n != P(1): raise Unsupported('several points received into one object')
        ex.store(lv, dept(b)); return
    if n.is_const() and n.const() <= 16:
        v = ex.load(lv)
        for k in range(n.const()): v = vset(v, i0 + k, dept(bslice(b, P(k * NPT), P(NPT))))
        ex.store(lv, v); return
    j = fresh_atom('i'); pc = ex.st.pc; ex.assume(band(le(0, P(j)), lt(P(j), n)))
    x = dept(bslice(b, P(j) * NPT, P(NPT))); ex.st.pc = pc
    ex.store(lv, vrange(ex.load(lv), i0, n, j, x))
def decide_in(ex, c):
    ex.activate(); return decide(c)
def use(on, sub={}):
    for k, f in tuple(sub.items()) + (('NetIO::SendBytes', send_contract), ('NetIO::ReceiveBytes', recv_contract), ('NetIO::SendECPoints', send_pts), ('NetIO::SendECPoint', send_pts),
                 ('NetIO::ReceiveECPoints', recv_pts), ('NetIO::ReceiveECPoint', recv_pts)):
        if on: CONTRACTS[k] = f
        else: CONTRACTS.pop(k, None)

# ------------------------------------------------------------------ contracts of sub-protocols
class Sub:
    """the sender's contract puts one opaque message on its stream, the receiver's contract takes it"""
    def __init__(self): self.msgs = {}
def sub_send(ex, name, payload):
    p = ex.chan_party; v = ex.load(p.out)
    m = p.duo.msgs; k = '%s%d' % (name, len(m)); m[k] = payload
    if ex.loopk or ex.splits: raise Unsupported('sub-protocol in a loop or branch')
    ex.store(p.out, v.at(b=v.b + seg(app('sub:' + k), P(app('sublen:' + k)))))
    ex.assume(le(1, P(app('sublen:' + k)))); p.peer.ex.assume(le(1, P(app('sublen:' + k))))
def sub_recv(ex, name):
    p = ex.chan_party; q = p.peer
    while True:
        v = ex.load(p.inp); s = q.sent()
        if decide(lt(v.pos, s.length())) is True: break
        take(ex, P(1), peek=True)
    off = P(0)
    for sg in s.segs:
        if off == v.pos or decide(eq(off, v.pos)) is True:
            if isinstance(sg, tuple) and sg[0] != 'rep' and sg[0].name.startswith('sub:' + name):
                k = sg[0].name[4:]
                ex.store(p.inp, v.at(pos=v.pos + sg[1])); return p.duo.msgs[k]
            break
        off = off + seglen(sg)
    raise Deadlock('%s expects the peer to run %s' % (p.who, name))
def npot_send(ex, c):
    sub_send(ex, 'NPOT', (c.val(2), c.val(3), P(c.val(4))))
def npot_recv(ex, c):
    s = c.val(2); n = P(c.val(3)); m0, m1, nn = sub_recv(ex, 'NPOT')
    if nn != n: raise Unsupported('different numbers of base transfers: %r and %r' % (nn, n))
    if isinstance(s, Bytes): s = bytes_to_vec(s)
    i = fresh_atom('i'); pc = ex.st.pc; ex.assume(band(le(0, P(i)), lt(P(i), n)))
    x = to_int(vget(s, P(i)))
    if decide(bor(eq(x, 0), eq(x, 1))) is not True: raise Unsupported('choices of the base transfer are not bits')
    r = rite(eq(x, 1), vget(m1, P(i)), vget(m0, P(i))); ex.st.pc = pc
    return Vec(n, i, r)
NPOT_C = {'NPOT::Send': npot_send, 'NPOT::Receive': npot_recv}

# ------------------------------------------------------------------ what a message discloses
def walk(x, f, seen=None):
    """f(subterm) for every application and boolean inside x"""
    seen = set() if seen is None else seen
    if isinstance(x, (App, B, Poly, Ring2, Bytes)):
        if x in seen: return
        seen.add(x)
    if isinstance(x, App):
        f(x)
        for y in x.args: walk(y, f, seen)
    elif isinstance(x, B):
        f(x)
        for y in x.args: walk(y, f, seen)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, e in m: walk(a, f, seen); walk(e, f, seen)
    elif isinstance(x, Ring2):
        for m in x.t:
            for a in m: walk(a, f, seen)
    elif isinstance(x, Bytes):
        for s in x.segs: walk(s, f, seen)
    elif isinstance(x, tuple):
        for y in x: walk(y, f, seen)
    else:
        ch = getattr(x, 'children', None)
        if ch:
            for y in ch(): walk(y, f, seen)
def mentions(x, pred):
    hit = []
    walk(x, lambda y: hit.append(1) if not hit and pred(y) else None)
    return bool(hit)
def is_app(y, *names): return isinstance(y, App) and y.name in names or isinstance(y, B) and y.op == 'app' and y.args[0] in names
def own_rnd(who):
    return lambda y: isinstance(y, App) and (y.name == 'rnd' or y.name == 'rndblk') and str(y.args[0]).startswith(who)
def payloads(b, idx=None):
    """(payload, [(index atom, count)]) of every leaf segment of a byte stream"""
    for s in b.segs:
        if isinstance(s, bytes): continue
        if s[0] == 'rep':
            i = fresh_atom('k')
            for x, q in payloads(open_b(s[2], s[3], P(i))): yield x, [(i, P(s[1]))] + q
        elif s[0].name in ('netpt', 'pt'): yield G(s[0].args[0]), []
        elif s[0].name == 'blk': yield s[0].args[0], []
        elif s[0].name.startswith('sub:'): continue
        else: yield Bytes((s,)), []
def masked(x, secret, who, split):
    """True: x discloses nothing about the secret (a fresh value of party `who` masks it); False: x depends on the secret and on
    no fresh value of the party; None: undecided.  split: the secret conditions to decide first"""
    if not mentions(x, secret): return True
    if not mentions(x, own_rnd(who)): return False
    cs = []
    walk(x, lambda y: cs.append(y) if isinstance(y, B) and y.op == 'app' and secret(y) and y.depth == 0 and y not in cs else None)
    if isinstance(x, G):
        from solver import AssumeB
        xs = [x.p]
        for c in cs[:4]: xs = [AssumeB(c, v)(y) for y in xs for v in (True, False)]
        def ok(p):
            return any(len(m) == 1 and m[0][1] == 1 and abs(c) == 1 and own_rnd(who)(m[0][0]) and m[0][0].name == 'rnd' and m[0][0].args[1] == Q
                       and not any(occurs(m[0][0], Poly({o: v})) for o, v in p.t.items() if o != m) for m, c in p.t.items())
        return True if all(ok(p) for p in xs) else None
    if isinstance(x, Ring2):
        # additive pad: a pseudorandom block under a fresh key, not mentioning the secret
        for m in x.t:
            if len(m) == 1:
                a, = m
                if a.name == 'aesE' and mentions(a, own_rnd(who)) and not mentions(a, secret): return True
        return None
    return None
