"""Builds, from /repo's current working tree: the LLVM IR of the crate, its dependencies and
the harness (dev profile: overflow checks on), and the native replayers (dev and release)."""
import glob, hashlib, os, shutil, subprocess, sys, time
import harness

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SCV_REPO', '/repo')
CACHE = os.path.join(ROOT, '.build')
TOOLCHAIN = 'stable-x86_64-unknown-linux-gnu'


def tree_hash():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        ds.sort()
        for f in sorted(fs):
            files.append(os.path.join(d, f))
    files += [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'Cargo.lock'), os.path.join(ROOT, 'engine', 'harness.py'),
              os.path.join(ROOT, 'engine', 'params.py'), os.path.join(ROOT, 'engine', 'build.py')]
    for f in files:
        h.update(f.encode() + b'\0')
        try:
            with open(f, 'rb') as fh:
                h.update(fh.read())
        except IOError:
            pass
        h.update(b'\0')
    return h.hexdigest()[:24]


class BuildError(Exception):
    pass


def run(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError(p.stdout[-6000:])


def build(opt=False):
    """opt: LLVM IR after optimisation (no overflow checks), for the thorough tier.  -> dict(ll=[paths], dev=path, release=path, seconds=..)"""
    t0 = time.time()
    key = tree_hash() + ('o' if opt else '')
    prof = 'release' if opt else 'debug'
    out = os.path.join(CACHE, key)
    done = os.path.join(out, 'done')
    if not os.path.exists(done):
        os.makedirs(CACHE, exist_ok=True)
        for old in os.listdir(CACHE):
            p = os.path.join(CACHE, old)
            try:
                if time.time() - os.path.getmtime(p) > 3600 * 3:
                    shutil.rmtree(p, ignore_errors=True)
            except OSError:
                pass
        tmp = out + '.%d' % os.getpid()
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(os.path.join(tmp, 'src'))
        with open(os.path.join(tmp, 'Cargo.toml'), 'w') as f:
            f.write(harness.CARGO % REPO)
        with open(os.path.join(tmp, 'src', 'lib.rs'), 'w') as f:
            f.write(harness.generate())
        with open(os.path.join(tmp, 'src', 'main.rs'), 'w') as f:
            f.write(harness.MAIN)
        lock = os.path.join(REPO, 'Cargo.lock')
        shutil.copy(lock if os.path.exists(lock) else os.path.join(ROOT, 'engine', 'Cargo.lock.base'), os.path.join(tmp, 'Cargo.lock'))
        base = dict(os.environ)
        for k in ('RUSTFLAGS', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
            base.pop(k, None)
        for k in list(base):
            if k.startswith('CARGO_PROFILE_'):
                del base[k]
        base.setdefault('HOME', '/root')
        base['PATH'] = '/root/.cargo/bin:' + base.get('PATH', '/usr/bin:/bin')
        base['RUSTUP_TOOLCHAIN'] = TOOLCHAIN
        base['CARGO_NET_OFFLINE'] = 'true'
        e1 = dict(base, RUSTFLAGS='--cfg safecurves_verif --emit=llvm-ir -C codegen-units=1 -C symbol-mangling-version=v0 -Cdebuginfo=0 -Zshare-generics=no -Awarnings',
                  RUSTC_BOOTSTRAP='1', CARGO_TARGET_DIR=os.path.join(tmp, 't1'))
        e2 = dict(base, RUSTFLAGS='--cfg safecurves_verif -Cdebuginfo=0 -Awarnings', CARGO_TARGET_DIR=os.path.join(tmp, 't2'))
        if opt:
            e1['RUSTFLAGS'] += ' -C no-vectorize-loops -C no-vectorize-slp -Z merge-functions=disabled'
        p2 = subprocess.Popen(['cargo', 'build', '--offline', '--release', '--bin', 'replay'], env=e2, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        try:
            run(['cargo', 'build', '--offline'] + (['--release'] if opt else []), e1, tmp)
        finally:
            o2 = p2.communicate()[0]
        if p2.returncode:
            raise BuildError(o2[-6000:])
        os.makedirs(os.path.join(tmp, 'ir'))
        for f in glob.glob(os.path.join(tmp, 't1', prof, 'deps', '*.ll')):
            if not os.path.basename(f).startswith(('libc-', 'replay-')):
                shutil.copy(f, os.path.join(tmp, 'ir'))
        shutil.copy(os.path.join(tmp, 't1', prof, 'replay'), os.path.join(tmp, 'replay-dev'))
        shutil.copy(os.path.join(tmp, 't2', 'release', 'replay'), os.path.join(tmp, 'replay-release'))
        shutil.rmtree(os.path.join(tmp, 't1'))
        shutil.rmtree(os.path.join(tmp, 't2'))
        open(os.path.join(tmp, 'done'), 'w').close()
        try:
            os.rename(tmp, out)
        except OSError:
            shutil.rmtree(tmp, ignore_errors=True)
    os.utime(out)
    return dict(ll=sorted(glob.glob(os.path.join(out, 'ir', '*.ll'))), dev=os.path.join(out, 'replay-dev'),
                release=os.path.join(out, 'replay-release'), seconds=time.time() - t0, key=key)


if __name__ == '__main__':
    print(build())
