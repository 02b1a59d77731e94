from props.common import *
import frames, props.p12, props.p13, props.p14, props.p15, props.p16, props.p20
HARNESS = ['p18.cpp']
PROGS = [('adcp', props.p12.prog12), ('ot', props.p13.prog), ('oprf', props.p14.prog), ('psi', props.p15.prog), ('pso', props.p16.prog), ('vole', props.p20.prog)]
ALT = [('ot', lambda: props.p13.prog(('ENABLE_X25519_ACCELERATION',))), ('psi', lambda: program(props.p15.INC, '', undef=('ENABLE_X25519_ACCELERATION',))), ('oprf', lambda: props.p14.prog(('ENABLE_X25519_ACCELERATION',))), ('pso', lambda: props.p16.prog(('ENABLE_X25519_ACCELERATION',)))]
PRELOAD = [p for _, p in PROGS] + [p for _, p in ALT]
ASSUMPTIONS = ['a called function without a body here writes only through its non-const reference and pointer parameters', 'an object reached through distinct pointers or containers is not the same object (no aliasing between differently named arguments)',
    'index arrays used to scatter results (permutation_map) are injective: precondition of the documented interface', 'parallel regions that are not loops (OKVS solve/decode, table loading) enter through the real-code replay']
def mk(getp, key, alt):
    def f(task, ctx):
        p = getp(); F = frames.Frames(p)
        for d, n, fs in index(p).get(key, []):
            task.functions.add(key)
            for o, v, det in frames.check_loop(F, d, n, fs): task.result(o + (alt and ' (%s)' % alt), v, det)
    return f
_ix = {}
def index(p):
    if id(p) not in _ix:
        r = _ix[id(p)] = {}; seen = set()
        for d, n, fs in frames.loops(p):
            w = (frames.qual(p, d), (n.get('range') or {}).get('begin', {}).get('offset') or id(n))
            if w in seen: continue
            seen.add(w); r.setdefault(frames.qual(p, d), []).append((d, n, fs))
    return _ix[id(p)]
def tasks(tier):
    out = []; seen = set()
    for alt, progs in (('', PROGS), ('second configuration', ALT)):
        for nm, g in progs:
            try: ks = list(index(g()))
            except Exception as e:
                if alt: continue
                raise
            for k in ks:
                if (k, alt) in seen: continue
                seen.add((k, alt)); out.append(Task(k + ('/b' if alt else ''), mk(g, k, alt)))
    return out
