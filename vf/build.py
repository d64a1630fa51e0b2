"""Builds the MIR dumper and dumps the MIR of /repo's current working tree."""
import os, subprocess, shutil, json, glob, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, 'build')
REPO = os.environ.get('VERIF_REPO', '/repo')


def sh(cmd, cwd=None, env=None, quiet=True, timeout=1200):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


class BuildError(Exception):
    pass


def sysroot():
    rc, o = sh(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise BuildError('no nightly toolchain: ' + o)
    return o.strip()


def dump():
    """-> list of the two dumps (library, binary)"""
    os.makedirs(BUILD, exist_ok=True)
    mt = os.path.join(BUILD, 'mirdump')
    rc, o = sh(['cargo', '+nightly', 'build', '--release', '--offline'], cwd=os.path.join(VERIF, 'mirdump'), env={'CARGO_TARGET_DIR': mt})
    if rc:
        raise BuildError('mirdump does not build:\n' + o[-4000:])
    out = os.path.join(BUILD, 'md')
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    td = os.path.join(BUILD, 'mdt')
    # the two crates of the package are always recompiled, their dependencies are not
    for d in glob.glob(os.path.join(td, 'debug', '.fingerprint', 'nlsn-delaunay-*')) + glob.glob(os.path.join(td, 'debug', 'build', 'nlsn-delaunay')):
        shutil.rmtree(d, ignore_errors=True)
    env = {'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib'), 'CARGO_TARGET_DIR': td, 'MIRDUMP_OUT': out,
           'RUSTC_WORKSPACE_WRAPPER': os.path.join(mt, 'release', 'mirdump')}
    rc, o = sh(['cargo', '+nightly', 'check', '--lib', '--bins', '--offline'], cwd=REPO, env=env)
    if rc:
        raise BuildError('the tree does not compile:\n' + o[-4000:])
    r = []
    for k in ('lib', 'bin'):
        p = os.path.join(out, 'nlsn_delaunay-%s.json' % k)
        if not os.path.exists(p):
            raise BuildError('no MIR dumped for the ' + k + '\n' + o[-2000:])
        r.append(json.load(open(p)))
    return r
