#!/usr/bin/env python3
"""mkseed.py SPEC.py...: each SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ main returning 0/1)
writes /verif/seeded/<ID>/ after checking that the demo passes on the clean tree and fails on the changed one"""
import sys, os, subprocess, shutil, json, tempfile
SH = '''#!/bin/bash
# exit 0: behaviour as specified; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
mkdir "$T/src" && tar --exclude=./_build --exclude=./.git --exclude=./docs -cf - . | tar -C "$T/src" -xf - || exit 2
sed -i 's/\\(THREAD_NUM[^0-9]*\\)[0-9]*/\\1%(threads)s/' "$T/src/config/config.h"
sed -i '/define IS_MACOS/d' "$T/src/config/config.h"
O=/usr/local/openssl
g++ -std=c++17 -w -O1 -fopenmp -maes -msse2 -msse4 -mpclmul -I"$T/src" -I$O/include "$D/demo.cpp" -o "$T/demo" $O/lib64/libssl.a $O/lib64/libcrypto.a -ldl -lpthread || exit 2
cd "$T" && timeout 200 ./demo > "$T/out" 2>&1; rc=$?
tail -3 "$T/out"; exit $rc
'''
for spec in sys.argv[1:]:
    ns = {}; exec(open(spec).read(), ns)
    d = os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/seeded/' + ns['ID']; os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_'); r = w + '/repo'
    subprocess.check_call(['git', 'clone', '-q', '/repo', r])
    for f, a, b in ns['EDITS']:
        s = open(r + '/' + f).read()
        assert s.count(a) == ns.get('COUNT', {}).get(a, 1), (f, a, s.count(a))
        open(r + '/' + f, 'w').write(s.replace(a, b))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', r, 'diff'], text=True))
    open(d + '/demo.cpp', 'w').write(ns['DEMO']); open(d + '/demo.sh', 'w').write(SH % dict(threads='8')); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=ns['PROPERTY'], needs=ns['NEEDS'], what_it_breaks=ns['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    bad = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
    subprocess.check_call(['git', '-C', r, 'checkout', '-q', '--', '.'])
    good = subprocess.run(['bash', d + '/demo.sh'], cwd=r, capture_output=True, text=True)
    print(ns['ID'], 'clean', good.returncode, 'patched', bad.returncode, '' if good.returncode == 0 and bad.returncode else 'PROBLEM ' + good.stdout + good.stderr[-600:] + bad.stdout[-300:] + bad.stderr[-600:])
    shutil.rmtree(w)
