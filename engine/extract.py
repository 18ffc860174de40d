"""Build the MIR extractor if needed and dump the current /repo crate.  No result is cached across
runs: every call recompiles the crate from /repo's working tree in a fresh target directory."""
import hashlib, json, os, shutil, subprocess, sys, tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FUSER_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')


class ExtractError(Exception):
    """The current source does not compile."""


class DriverError(Exception):
    """The extractor itself cannot be built here: nothing is known about the source."""


def _run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def sysroot():
    r = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True)
    if r.returncode:
        raise DriverError('nightly rustc not available')
    return r.stdout.strip()


def driver():
    src = os.path.join(VERIF, 'driver', 'main.rs')
    ver = subprocess.run(['rustc', '+nightly', '-vV'], stdout=subprocess.PIPE, text=True).stdout
    h = hashlib.sha256(open(src, 'rb').read() + ver.encode()).hexdigest()[:16]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, 'driver-' + h)
    if not os.path.exists(exe):
        tmp = exe + '.%d' % os.getpid()
        r = _run(['rustc', '+nightly', '-O', '--edition', '2021', src, '-o', tmp])
        if r.returncode:
            raise DriverError('driver build failed:\n' + r.stdout[-4000:])
        os.replace(tmp, exe)
    return exe


def dump(repo=None):
    repo = repo or REPO
    exe = driver()
    tdir = tempfile.mkdtemp(prefix='fuser-extract-')
    try:
        out = os.path.join(tdir, 'dump.json')
        env = dict(os.environ)
        env.update(LD_LIBRARY_PATH=sysroot() + '/lib', RUSTC_WORKSPACE_WRAPPER=exe, FUSER_DUMP_CRATE='html5_fuser',
                   FUSER_DUMP_OUT=out, CARGO_TARGET_DIR=os.path.join(tdir, 't'))
        env.pop('RUSTFLAGS', None)
        r = _run(['cargo', '+nightly', 'check', '--lib', '--offline'], cwd=repo, env=env)
        if r.returncode or not os.path.exists(out):
            raise ExtractError('extraction failed:\n' + r.stdout[-4000:])
        return json.load(open(out))
    finally:
        shutil.rmtree(tdir, ignore_errors=True)


if __name__ == '__main__':
    d = dump()
    print('functions %d adts %d impls %d' % (len(d['fns']), len(d['adts']), len(d['impls'])))
    if len(sys.argv) > 1:
        json.dump(d, open(sys.argv[1], 'w'))
