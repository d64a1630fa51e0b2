"""dev tool: python3 plant.py ID  -- reads /tmp/plants.py (dict PLANTS) and confirms a planted bug in a scratch copy, then writes /verif/seeded/ID"""
import sys, os, subprocess, shutil, json, importlib.util
spec = importlib.util.spec_from_file_location('plants', '/tmp/plants.py')
m = importlib.util.module_from_spec(spec)
spec.loader.exec_module(m)
DEMO = '''#!/bin/bash
# builds demo.rs against the library just built and runs it
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
lib="$(ls -t target/debug/deps/libnlsn_delaunay-*.rlib | head -1)"
rustc --edition 2018 -A warnings -L dependency=target/debug/deps --extern nlsn_delaunay="$lib" "$here/demo.rs" -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
'''
HEAD = '''use nlsn_delaunay::elements::{bounding_box::*, edge::*, polyline::*, triangle::*, vertex::*};
use nlsn_delaunay::planar::{triangulation::*, triangulator::*};
use nlsn_delaunay::properties::continence::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;

fn v(x: f64, y: f64) -> Rc<Vertex> {
    Rc::new(Vertex::new(x, y))
}

'''
W = '/tmp/plantrepo'


def sh(c, cwd=W, ok=True):
    r = subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


def setup():
    # /repo itself is where the build scripts look, so the scratch copy has its own target
    if not os.path.exists(W):
        subprocess.run(['cp', '-a', '/repo', W])
    sh('git checkout -q -- . ; git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')


ENV = '. /opt/vp/env.sh >/dev/null; cd %s; ' % W


def main(i):
    p = m.PLANTS[i]
    setup()
    d = '/verif/seeded/' + i
    os.makedirs(d, exist_ok=True)
    body = p.get('demo', '')
    if 'demo_sh' in p:
        open(d + '/demo.sh', 'w').write(p['demo_sh'])
        for n, t in p.get('files', {}).items():
            open(d + '/' + n, 'w').write(t)
    else:
        open(d + '/demo.sh', 'w').write(DEMO)
        open(d + '/demo.rs', 'w').write(HEAD + body)
    os.chmod(d + '/demo.sh', 0o755)
    rc, o = sh("bash -c '%s cargo test --workspace --no-run --offline'" % ENV)
    assert rc == 0, o[-2000:]
    rc, o = sh("bash -c '%s bash %s/demo.sh'" % (ENV, d))
    print('demo unchanged', rc)
    if rc:
        print(o[-1500:])
        return 1
    for f, a, b in p['edits']:
        s = open(W + '/' + f).read()
        n = p.get('nth', 0)
        assert s.count(a) >= 1, ('not found', a)
        if s.count(a) > 1 and 'nth' not in p:
            raise SystemExit('ambiguous %d' % s.count(a))
        k = -1
        for _ in range(n + 1):
            k = s.index(a, k + 1)
        s = s[:k] + b + s[k + len(a):]
        open(W + '/' + f, 'w').write(s)
    rc, o = sh("bash -c '%s cargo test --workspace --no-run --offline'" % ENV)
    if rc:
        print('BUILD FAILS', o[-1500:])
        return 1
    ok = 0
    for k in range(3):
        rc, o = sh("bash -c '%s timeout 300 cargo test --workspace --no-fail-fast --offline -- --test-threads 8'" % ENV)
        fails = [l for l in o.splitlines() if l.startswith('test ') and 'FAILED' in l]
        if rc:
            print('TESTS FAIL', fails[:6], rc)
            shutil.rmtree(d)
            return 1
    rc, o = sh("bash -c '%s bash %s/demo.sh'" % (ENV, d))
    print('demo patched', rc, o.strip()[-200:])
    if rc in (0, 2):
        return 1
    diff = subprocess.run('git diff', shell=True, cwd=W, capture_output=True, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': p['prop'], 'needs': p['needs'], 'what_it_breaks': p['what']}, open(d + '/meta.json', 'w'), indent=1)
    print('OK', i)
    return 0


for i in (sys.argv[1:] or list(m.PLANTS)):
    print('==', i)
    if not (len(sys.argv) == 1 and os.path.exists('/verif/seeded/%s/patch.diff' % i)):
        main(i)
