"""Verification tasks: symbolic inputs, obligations, discharge, evidence."""
import time, traceback, re, os, sys, json
from terms import *
from values import *
import astload, solver, externals, contracts
from interp import Program, Exec, norm_type, targs, qt, qt0, INT_TYPES, is_byte, CONTRACTS, Call, is_ref
from externals import val_eq

ALL_INCLUDES = None
_prog = {}
def program(includes, code='', undef=()):
    k = (tuple(includes), code, tuple(undef))
    if k not in _prog: _prog[k] = Program(astload.load(list(includes), code, undef=tuple(undef)))
    return _prog[k]

def symv(ex, t, name, idx=(), sizes=None):
    t = ex.rtype(t); sizes = sizes or {}
    m = re.match(r'(.*?)\[(\d+)\](.*)$', t)
    if m:
        et = m.group(1).strip() + m.group(3)
        n = int(m.group(2))
        if is_byte(et): return seg(app(name, *idx), n)
        i = fresh_atom('i')
        return Vec(P(n), i, symv(ex, et, name, idx + (P(i),), sizes))
    if t == 'BigInt': return P(app(name, *idx))
    if t == 'ECPoint': return G(P(app('G:' + name, *idx)))
    if t == 'bool': return bapp(name, *idx)
    if t in INT_TYPES:
        if name in sizes: return P(sizes[name])
        v = P(app(name, *idx))
        if not INT_TYPES[t][1] and not idx: ex.assume(le(0, v))
        return v
    if t == '__m128i': return R(app(name, *idx))
    if t == 'std::string' or t in ('std::vector<unsigned char>', 'std::vector<uint8_t>'):
        n = P(sizes[name]) if name in sizes else P(app('len', name, *idx))
        if not idx and not n.is_const(): ex.assume(le(0, n))
        return seg(app(name, *idx), n) if not n.is_zero() else EMPTY
    if t.startswith('std::vector<'):
        et = targs(t)[0]
        n = P(sizes[name]) if name in sizes else P(app('len', name, *idx))
        if not idx and not n.is_const(): ex.assume(le(0, n))
        i = fresh_atom('i')
        return Vec(n, i, symv(ex, et, name, idx + (P(i),), sizes))
    if t.startswith('std::tuple<') or t.startswith('std::pair<'):
        return Struct('tuple', {str(k): symv(ex, x, '%s.%d' % (name, k), idx, sizes) for k, x in enumerate(targs(t))})
    q, r = ex.rec(t)
    if r is not None:
        f = {}
        for c in r.get('inner', ()):
            if c.get('kind') == 'FieldDecl':
                f[c['name']] = symv(ex, qt(c), name + '.' + c['name'], idx, sizes)
        return Struct(q, f)
    return ex.default(t, True)

class Missing(Unsupported): pass

class Run:
    """one symbolic execution context"""
    def __init__(self, task, prog, **kw):
        self.task = task; self.prog = prog
        self.ex = Exec(prog, **kw)
    # ---- calls
    def fn(self, q, sig=None, nparams=None):
        c = self.prog.by_name.get(q)
        if not c: raise Missing('function %s not found in the tree' % q)
        if sig is not None:
            s = re.sub(r'\s+', '', sig)
            c = [d for d in c if s in re.sub(r'\s+', '', qt0(d))]
        if nparams is not None:
            c = [d for d in c if sum(1 for x in d.get('inner', ()) if x.get('kind') == 'ParmVarDecl') == nparams]
        seen = []
        for d in c:
            if not any(d['id'] == e['id'] for e in seen): seen.append(d)
        if not seen: raise Missing('overload of %s (%s) not found' % (q, sig))
        return seen[0]
    def ptypes(self, fn):
        return [qt0(c) for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
    def cell(self, v, hint='v'): return (self.ex.new_cell(v, hint), ())
    def get(self, lv): return self.ex.load(lv)
    def call(self, q, *args, sig=None, n=None, this=None):
        """args: values or lvalues (tuple (cell,path)); values are put into cells"""
        fn = q if isinstance(q, dict) else self.fn(q, sig, n)
        al = []
        pt = [norm_type(qt(c)) for c in fn.get('inner', ()) if c.get('kind') == 'ParmVarDecl']
        for k, a in enumerate(args):
            if isinstance(a, tuple) and len(a) == 2 and isinstance(a[0], str): al.append(('l', a))
            else: al.append(('l', self.cell(a)) )
            if k < len(pt) and not al[-1][1][1]: self.ex.ctypes.setdefault(al[-1][1][0], pt[k].replace('const ', '').rstrip('& ').strip())
        self.ex.activate()
        r = self.ex.call_decl(fn, al, this=this)
        self.task.functions.add(self.prog.qual.get(fn['id']))
        if isinstance(r, Ref): r = self.ex.load(r.l)
        if not self.ex.st.alive: raise Aborts('every path of %s aborts' % self.prog.qual.get(fn['id']))
        return r
    def sym(self, t, name, **sizes):
        return symv(self.ex, t, name, (), sizes)
    def assume(self, b): self.ex.assume(b)
    def prove(self, name, goal, extra=()):
        self.ex.activate()
        self.task.prove(name, self.ex.st.pc + tuple(extra), goal)
    def prove_eq(self, name, a, b, extra=()):
        """value equality up to group/ring congruence; vectors compared for every index"""
        self.ex.activate()
        try: g = val_eq(a, b)
        except Unsupported as e:
            self.task.result(name, None, 'uncomparable: %s' % e); return
        self.task.prove(name, self.ex.st.pc + tuple(extra), g)
    def no_abort(self, name):
        """every recorded abort path is infeasible under the assumptions"""
        for pc, kind, at in self.ex.aborts:
            self.task.prove('%s: %s unreachable at %s' % (name, kind, at), pc, FALSE)
    def no_race(self, name):
        if self.ex.races:
            self.task.result(name, False, '; '.join(map(str, self.ex.races)))
        else: self.task.result(name, True, None)
    def finish(self):
        t = self.task
        t.inlined |= self.ex.inlined; t.contracts |= self.ex.contracts_used; t.externs |= self.ex.externs_used
        t.assumed |= self.ex.assumed; t.summaries += self.ex.loop_summaries
class Aborts(Unsupported): pass

class Task:
    def __init__(self, name, fn, bounded=None, timeout=60, wall=240):
        """bounded: None for an unbounded proof, else the text of the bound"""
        self.name = name; self.run_fn = fn; self.bounded = bounded; self.timeout = timeout; self.wall = wall
        self.obls = []          # (name, status, detail)
        self.functions = set(); self.inlined = set(); self.contracts = set(); self.externs = set(); self.assumed = set()
        self.summaries = 0
        self.error = None; self.time = 0; self.mode = 'proof'
    def result(self, name, status, detail): self.obls.append((name, status, detail))
    def prove(self, name, hyps, goal):
        dl = time.time() + self.timeout
        hyps = tuple(hyps)
        try:
            st, det = solver.prove(hyps, goal, deadline=dl)
        except RecursionError:
            st, det = None, 'recursion'
        if st is True and goal is not TRUE and solver.sat(hyps) is False:
            self.obls.append((name, None, 'vacuous: hypotheses unsatisfiable')); return
        if st is False:
            import evalt
            conf = evalt.refute(hyps, goal)
            if conf is None:
                self.obls.append((name, None, 'solver countermodel not confirmed by term evaluation: %s' % short(det))); return
            self.obls.append((name, False, '%s\n  counterexample valuation: %s' % (short(det), short(conf)))); return
        self.obls.append((name, st, None if st is True else short(det)))
    def run(self, ctx):
        t0 = time.time()
        try:
            self.run_fn(self, ctx)
            if not self.obls: self.error = 'no obligation generated'
        except Unsupported as e:
            self.error = 'outside the verifier\'s reach: %s' % e
        except astload.ExtractionError as e:
            self.error = 'extraction failed: %s' % str(e)[:500]
        except RecursionError as e:
            self.error = 'recursion limit'
        except Exception as e:
            self.error = 'internal: %s\n%s' % (e, traceback.format_exc()[-1500:])
        self.time = time.time() - t0
        return self
    @property
    def ok(self): return self.error is None and all(s is True for _, s, _ in self.obls)
    @property
    def refuted(self): return [o for o in self.obls if o[1] is False]

def short(x, n=int(os.environ.get("VSHORT", "600"))):
    s = str(x)
    return s if len(s) <= n else s[:n] + '...'
