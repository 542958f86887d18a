"""The type-checked program of /repo's current working tree, as data.

The crates are compiled (checked) with the repository's own toolchain, with the driver in ../driver standing in for
rustc; it writes the HIR items and the MIR of everything reachable to JSON. Nothing is run. What is derived is kept
under /verif/.build (ignored by git), named by the content of the sources, so that an unchanged tree is not compiled
again; a missing or stale copy is rebuilt.
"""
import fcntl
import hashlib
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
CRATES = ('aeonflux', 'signal_credential', 'credential')
BUILT = {'wasm': ('wasm',)}
FLAGS = {'default': '--features u64_backend', 'std': '--no-default-features --features "u64_backend std nightly"', 'wasm': ''}
STOP = '''curve25519_dalek merlin bincode serde rand sha2 digest clear_on_drop subtle failure libc keccak block_buffer
byteorder generic_array core alloc std backtrace serde_json wasm_bindgen'''.split()
GO = '''core::option core::result core::ops core::convert core::cmp core::clone core::default core::iter core::char
core::borrow core::array'''.split()


class BuildError(Exception):
    pass


def sh(script, env=None, cwd=None, timeout=1500):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1\n' + script], env=e, cwd=cwd or REPO,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf8', 'replace')


def sources():
    """Every file the analysed crates are made of."""
    r = []
    for top in ('aeonflux', 'signal-credential', 'ffi', 'wasm', 'swift'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', 'node_modules', 'tests', 'benches'))
            for f in sorted(fs):
                p = os.path.join(d, f)
                if f.endswith(('.rs', '.toml', '.h', '.swift', '.js')) and os.path.isfile(p):
                    r.append(p)
    return r


def digest(paths, extra=()):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode() + b'\0')
        with open(p, 'rb') as f:
            h.update(hashlib.sha256(f.read()).digest())
    for x in extra:
        h.update(str(x).encode() + b'\0')
    return h.hexdigest()[:20]


class Lock(object):
    def __enter__(self):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, 'lock'), 'w')
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        self.f.close()


def driver():
    d = os.path.join(VERIF, 'driver')
    src = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith('.rs')]
    out = os.path.join(BUILD, 'driver-' + digest(src))
    exe = os.path.join(out, 'drv')
    if not os.path.exists(exe):
        os.makedirs(out, exist_ok=True)
        rc, log = sh('cd %s && rustc --edition 2015 -O main.rs -o %s.tmp && mv %s.tmp %s' % (d, exe, exe, exe))
        if rc:
            raise BuildError('the driver does not compile:\n' + log[-3000:])
    return exe


def prune(prefix, keep, n=6):
    ds = sorted((os.path.getmtime(os.path.join(BUILD, f)), f) for f in os.listdir(BUILD) if f.startswith(prefix))
    for _, f in ds[:-n]:
        if f != keep:
            shutil.rmtree(os.path.join(BUILD, f), ignore_errors=True)


WASM = """[package]
name = "wasm"
version = "0.1.0"
authors = []
[lib]
name = "wasm"
path = "%s/wasm/src/lib.rs"
[dependencies.signal-credential]
version = "0.1"
path = "%s/signal-credential"
default-features = false
features = ["std", "nightly", "u64_backend"]
[dependencies]
rand = { version = "0.5" }
wasm-bindgen = { version = "0.2", features = ["serde-serialize"] }
[workspace]
"""


def dump(config='default'):
    """The directory with the JSON of the crates: of the three which are built, or (config 'wasm') of the interface to
    JavaScript, which is compiled here with the versions of its dependencies at hand, or (config 'std') of the
    three with the standard library, as the tests use two of them."""
    crates = BUILT.get(config, CRATES)
    with Lock():
        exe = driver()
        key = digest(sources(), [os.path.basename(os.path.dirname(exe)), config, FLAGS[config]] + STOP + GO)
        name = 'dump-%s-%s' % (config, key)
        out = os.path.join(BUILD, name)
        if all(os.path.exists(os.path.join(out, c + '.json')) for c in crates):
            os.utime(out)
            return out
        tmp = out + '.tmp'
        shutil.rmtree(tmp, ignore_errors=True)
        os.makedirs(tmp)
        for n, l in (('stop', STOP), ('go', GO)):
            with open(os.path.join(tmp, n), 'w') as f:
                f.write('\n'.join(l) + '\n')
        target = os.path.join(BUILD, 'target-' + config)
        # The crates themselves are always compiled anew; their dependencies only once.
        for d, ds, fs in os.walk(target):
            if os.path.basename(d) == '.fingerprint':
                for x in ds:
                    if x.startswith(('aeonflux-', 'signal-credential-', 'ffi-', 'credential-', 'wasm-')) and not x.startswith('wasm-bindgen'):
                        shutil.rmtree(os.path.join(d, x), ignore_errors=True)
                ds[:] = []
        where = os.path.join(REPO, 'ffi')
        if config == 'wasm':
            where = os.path.join(BUILD, 'wasm-' + hashlib.sha256(REPO.encode()).hexdigest()[:10])
            os.makedirs(where, exist_ok=True)
            with open(os.path.join(where, 'Cargo.toml'), 'w') as f:
                f.write(WASM % (REPO, REPO))
        script = '''
export LD_LIBRARY_PATH=$(rustc --print sysroot)/lib
export VP_CRATES=%s VP_OUT=%s VP_STOP=%s/stop VP_GO=%s/go
export CARGO_TARGET_DIR=%s CARGO_INCREMENTAL=0 RUSTC_WRAPPER=%s RUSTFLAGS=-Zalways-encode-mir
cd %s && cargo check %s 2>&1 | tail -60; exit ${PIPESTATUS[0]}
''' % (','.join(crates), tmp, tmp, tmp, target, exe, where, FLAGS[config])
        rc, log = sh(script)
        missing = [c for c in crates if not os.path.exists(os.path.join(tmp, c + '.json'))]
        if rc or missing:
            raise BuildError('the crates do not compile (missing %s):\n%s' % (missing, log[-4000:]))
        shutil.rmtree(out, ignore_errors=True)
        os.rename(tmp, out)
        prune('dump-%s-' % config, name)
        return out


if __name__ == '__main__':
    good = 0
    for config in sys.argv[1:] or ('default', 'std', 'wasm'):
        try:
            print(dump(config))
            good += config != 'wasm'
        except BuildError as e:
            print(e)
    sys.exit(0 if good else 2)                     # the checks look at what compiles
