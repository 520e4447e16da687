"""Build the compiler driver, run it over /repo's working tree, load the facts."""
import fcntl
import glob
import hashlib
import json
import os
import pickle
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('B2_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
DRIVER = os.path.join(VERIF, 'driver')

CONFIGS = {'base': [], 'serde': ['--features', 'serde_support']}


class FactError(Exception):
    pass


def _run(cmd, env=None, cwd=None, timeout=850):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode('utf-8', 'replace')


def _sysroot():
    rc, out = _run(['rustc', '+nightly', '--print', 'sysroot'])
    if rc:
        raise FactError('no nightly toolchain: ' + out[-300:])
    return out.strip().splitlines()[-1]


def _hash_files(files):
    h = hashlib.sha256()
    for f in sorted(files):
        h.update(f.encode())
        with open(f, 'rb') as fh:
            h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


def driver_hash():
    return _hash_files(glob.glob(DRIVER + '/src/*.rs') + [DRIVER + '/Cargo.toml', DRIVER + '/rust-toolchain.toml'])


def repo_hash():
    fs = [f for f in glob.glob(REPO + '/src/**/*', recursive=True) if os.path.isfile(f)]
    for extra in ('Cargo.toml', 'Cargo.lock', 'build.rs'):
        if os.path.exists(REPO + '/' + extra):
            fs.append(REPO + '/' + extra)
    fs += [f for f in glob.glob(REPO + '/.cargo/*') if os.path.isfile(f)]
    return _hash_files(fs)


def base_env():
    env = dict(os.environ)
    for k in ('RUSTUP_TOOLCHAIN', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'CARGO_TARGET_DIR', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTDOCFLAGS'):
        env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    env.setdefault('HOME', '/root')
    return env


def build_driver():
    exe = os.path.join(BUILD, 'driver-' + driver_hash()[:16])
    if os.path.exists(exe):
        return exe
    env = base_env()
    env['CARGO_TARGET_DIR'] = os.path.join(BUILD, 'driver-target')
    rc, out = _run(['cargo', '+nightly', 'build', '--offline', '--manifest-path', DRIVER + '/Cargo.toml'], env=env, cwd=DRIVER)
    if rc:
        raise FactError('driver build failed:\n' + out[-3000:])
    src = os.path.join(BUILD, 'driver-target', 'debug', 'b2facts')
    tmp = exe + '.tmp%d' % os.getpid()
    shutil.copy2(src, tmp)
    os.rename(tmp, exe)
    return exe


def _lockfile():
    if not os.path.exists(REPO + '/Cargo.lock') and os.path.exists('/opt/vp/Cargo.lock'):
        shutil.copyfile('/opt/vp/Cargo.lock', REPO + '/Cargo.lock')


def _extract(cfg, out):
    exe = build_driver()
    env = base_env()
    sysroot = _sysroot()
    env['LD_LIBRARY_PATH'] = sysroot + '/lib' + (':' + env['LD_LIBRARY_PATH'] if env.get('LD_LIBRARY_PATH') else '')
    env['RUSTC_WORKSPACE_WRAPPER'] = exe
    env['B2FACTS_OUT'] = out
    target = os.path.join(BUILD, 'target-' + cfg)
    env['CARGO_TARGET_DIR'] = target
    # cargo's freshness cache would silently skip the wrapper: forget this crate's units first
    for d in ('debug/.fingerprint', 'debug/build', 'debug/incremental'):
        for p in glob.glob(os.path.join(target, d, 'box2d[-_]rs*')):
            shutil.rmtree(p, ignore_errors=True)
    cmd = ['cargo', '+nightly', 'check', '--lib', '--offline', '--manifest-path', REPO + '/Cargo.toml'] + CONFIGS[cfg]
    rc, log = _run(cmd, env=env, cwd=VERIF)
    if rc == 0 and not os.path.exists(out):
        shutil.rmtree(target, ignore_errors=True)
        rc, log = _run(cmd, env=env, cwd=VERIF)
    if rc or not os.path.exists(out):
        raise FactError('cargo check (%s) failed rc=%s:\n%s' % (cfg, rc, log[-3000:]))


def load(cfg='base'):
    """facts of /repo's current working tree in one feature configuration."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock-' + cfg), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        with open(os.path.join(BUILD, 'lock-driver'), 'w') as lk2:
            fcntl.flock(lk2, fcntl.LOCK_EX)
            build_driver()
        _lockfile()
        h = hashlib.sha256((repo_hash() + driver_hash()).encode()).hexdigest()[:20]
        out = os.path.join(BUILD, 'facts-%s-%s.json' % (cfg, h))
        if not os.path.exists(out):
            for old in glob.glob(os.path.join(BUILD, 'facts-%s-*.json*' % cfg)):
                try:
                    os.remove(old)
                except OSError:
                    pass
            _extract(cfg, out)
    with open(out) as fh:
        d = json.load(fh)
    d['hash'] = h
    return d


if __name__ == '__main__':
    t = time.time()
    for c in sys.argv[1:] or list(CONFIGS):
        d = load(c)
        print(c, len(d['fns']), 'functions', '%.1fs' % (time.time() - t))
