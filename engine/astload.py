"""Mechanical extraction: run clang on a driver TU that includes /repo headers, keep every
top-level declaration whose location lies in /repo or in the driver (complete AST, template
instantiations included); everything from system headers is dropped (those callees are the
trusted external contracts)."""
import subprocess, json, os, hashlib, pickle, sys, re, tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
OSSL = '/usr/local/openssl/include'

class ExtractionError(Exception):
    pass

def write_config(cfg):
    src = open(os.path.join(REPO, 'config/config.h.in')).read()
    out = []
    for l in src.splitlines():
        m = re.match(r'#cmakedefine (\w+)', l)
        if m:
            out.append('#define IS_LINUX 1' if m.group(1) == 'IS_LINUX' else '/* #undef %s */' % m.group(1))
        else:
            out.append(re.sub(r'@\w+@', '8' if 'NUMBER_OF' in l else '1', l))
    open(cfg, 'w').write('\n'.join(out) + '\n')
DEFINE_FILES = ('crypto/ec_group.hpp', 'mpc/rpmt/cwprf_mqrpmt.hpp')
def strip_defines(text, names):
    """configuration variant: the named switches are left undefined"""
    return '\n'.join('' if any(re.match(r'\s*#\s*define\s+%s\b' % n, l) for n in names) else l for l in text.split('\n'))
def config_overlay(tmpdir, undef=()):
    cfg = os.path.join(tmpdir, 'config.h')
    write_config(cfg)
    ov = os.path.join(tmpdir, 'overlay.yaml')
    roots = [{'name': os.path.join(REPO, 'config'), 'type': 'directory',
               'contents': [{'name': 'config.h', 'type': 'file', 'external-contents': cfg}]}]
    for k, f in enumerate(DEFINE_FILES if undef else ()):
        if not os.path.exists(os.path.join(REPO, f)): continue
        g = os.path.join(tmpdir, 'stripped%d.hpp' % k)
        open(g, 'w').write(strip_defines(open(os.path.join(REPO, f)).read(), undef))
        roots.append({'name': os.path.join(REPO, os.path.dirname(f)), 'type': 'directory',
                      'contents': [{'name': os.path.basename(f), 'type': 'file', 'external-contents': g}]})
    json.dump({'version': 0, 'use-external-names': False, 'roots': roots}, open(ov, 'w'))
    return ov

def clang_cmd(driver, tmpdir, extra=(), undef=()):
    return ['clang++', '-std=c++17', '-fopenmp', '-maes', '-msse4.1', '-mpclmul', '-I', OSSL, '-I', os.path.join(HERE, 'inc'),
            '-ivfsoverlay', config_overlay(tmpdir, undef), '-Wno-everything', '-fsyntax-only', *extra, driver]

def _last_file(buf, lo=0, hi=None):
    pos = len(buf) if hi is None else hi
    while True:
        pos = buf.rfind(b'"file": "', lo, pos)
        if pos < 0:
            return None
        pre = buf[max(0, pos - 80):pos].rstrip()
        if pre.endswith(b'"includedFrom": {'):
            continue
        e = buf.find(b'"', pos + 9)
        return buf[pos + 9:e].decode()

def load(includes, code='', defines=(), undef=(), use_cache=True):
    """Return list of top-level decl dicts."""
    tmpdir = tempfile.mkdtemp(prefix='verif_ast_')
    try:
        drv = os.path.join(tmpdir, 'driver.cpp')
        with open(drv, 'w') as f:
            for i in includes:
                f.write('#include "%s/%s"\n' % (REPO, i))
            f.write(code)
        cmd = clang_cmd(drv, tmpdir, ['-D' + d for d in defines] + ['-D' + u[1:] for u in undef if u.startswith('+')], tuple(u for u in undef if not u.startswith('+')))
        # cache key: driver text + all preprocessed repo headers
        key = None
        cdir = os.path.join(os.path.dirname(HERE), '.cache')
        h = hashlib.sha256(open(drv, 'rb').read() + repr((defines, undef, REPO)).encode() + open(__file__, 'rb').read())
        for root, dirs, files in os.walk(REPO):
            dirs[:] = sorted(d for d in dirs if d not in ('_build', '.git', 'docs', 'test', 'build'))
            for fn in sorted(files):
                p = os.path.join(root, fn)
                h.update(p.encode()); h.update(open(p, 'rb').read())
        key = os.path.join(cdir, h.hexdigest()[:32] + '.pkl')
        if use_cache and os.path.exists(key):
            try:
                return pickle.load(open(key, 'rb'))
            except Exception:
                pass
        res = _run(cmd, drv)
        if use_cache:
            try:
                os.makedirs(cdir, exist_ok=True)
                tmp = key + '.%d' % os.getpid()
                pickle.dump(res, open(tmp, 'wb'), protocol=4)
                os.replace(tmp, key)
                ents = sorted((os.path.getmtime(os.path.join(cdir, f)), f) for f in os.listdir(cdir) if f.endswith('.pkl'))
                for _, f in ents[:-40]:
                    os.remove(os.path.join(cdir, f))
            except OSError:
                pass
        return res
    finally:
        import shutil
        shutil.rmtree(tmpdir, ignore_errors=True)

def _run(cmd, drv):
    cmd = cmd[:-1] + ['-Xclang', '-ast-dump=json'] + cmd[-1:]
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=1 << 22)
    import threading
    err = []
    t = threading.Thread(target=lambda: err.append(p.stderr.read())); t.start()
    kept = []
    lastfile = '<unknown>'
    def finish(a, b):
        nonlocal lastfile
        startfile = lastfile
        head = data[a:min(b, a + 4000)]
        i = head.find(b'"range"')
        f = _last_file(head[:i] if i >= 0 else head)
        dfile = f or lastfile
        lf = _last_file(data, a, b)
        if lf:
            lastfile = lf
        if dfile.startswith(REPO + '/') or dfile == drv:
            kept.append((startfile, json.loads(data[a:b])))
    data = p.stdout.read()
    pos = 0
    while True:
        s = data.find(b'\n    {\n', pos)
        if s < 0:
            break
        e = data.find(b'\n    }', s + 6)
        while e >= 0 and data[e + 6:e + 7] not in (b',', b'\n'):
            e = data.find(b'\n    }', e + 1)
        if e < 0:
            break
        finish(s + 1, e + 6)
        pos = e + 5
    p.wait(); t.join()
    if p.returncode != 0:
        raise ExtractionError('clang failed on the current tree:\n' + err[0].decode(errors='replace')[:3000])
    out = []
    for startfile, d in kept:
        _annot(d, startfile)
        out.append(d)
    return out

def _annot(d, startfile):
    st = {'file': startfile, 'line': 0}
    def loc(l):
        if not l:
            return None
        if 'spellingLoc' in l:
            loc(l['spellingLoc'])
            return loc(l['expansionLoc'])
        if 'file' in l:
            st['file'] = l['file']
        if 'line' in l:
            st['line'] = l['line']
        if 'offset' in l:
            return (st['file'], st['line'], l.get('col', 0))
        return None
    def walk(n):
        a = loc(n.get('loc'))
        r = n.get('range')
        b = None
        if r:
            b = loc(r.get('begin')); loc(r.get('end'))
        n['_at'] = b or a
        n.pop('range', None); n.pop('loc', None)
        for c in n.get('inner', ()):
            if isinstance(c, dict):
                walk(c)
    sys.setrecursionlimit(20000)
    walk(d)

if __name__ == '__main__':
    import time
    t0 = time.time()
    r = load(sys.argv[1:], use_cache=False)
    print(len(r), time.time() - t0)
    from collections import Counter
    C = Counter()
    def w(n):
        C[n.get('kind')] += 1
        for c in n.get('inner', ()): w(c)
    for d in r: w(d)
    for k, v in C.most_common(): print(v, k)
