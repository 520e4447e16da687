"""Maintain planted bugs: seed.py new <spec.py> | verify <ID...> | check <ID...>.

A spec file sets ID, PROPERTY, NEEDS, WHAT, EDITS=[(file, old, new)], MAIN (rust source of the demo), FEATURES (optional)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
DEMO = '''#!/bin/bash
# builds a small program against the library in the current directory; it exits nonzero when the behaviour is broken
set -e
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
work="$(mktemp -d)"
trap 'rm -rf "$work"' EXIT
mkdir -p "$work/src"
cp "$here/main.rs" "$work/src/main.rs"
cat > "$work/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
box2d-rs = { path = "$repo"%(feat)s }
%(deps)s
[profile.dev]
debug = false
EOF
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" "$work/Cargo.lock"
export CARGO_TARGET_DIR="$work/target"
cargo build --offline --quiet --manifest-path "$work/Cargo.toml" 2>"$work/log" || { cat "$work/log" >&2; exit 3; }
timeout 120 "$work/target/debug/demo"
'''


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def clean():
    r = sh('git', '-C', REPO, 'status', '--porcelain', '-uno')
    if r.stdout.strip():
        sys.exit('repo not clean')


def new(path):
    ns = {'FEATURES': '', 'DEPS': ''}
    exec(open(path).read(), ns)
    clean()
    d = os.path.join(ROOT, 'seeded', ns['ID'])
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new_ in ns['EDITS']:
            p = os.path.join(REPO, f)
            s = open(p, newline='').read()
            if '\r\n' in s:
                old, new_ = old.replace('\n', '\r\n'), new_.replace('\n', '\r\n')
            if s.count(old) != 1:
                sys.exit('%s: %d matches for %r' % (f, s.count(old), old[:80]))
            open(p, 'w', newline='').write(s.replace(old, new_))
        diff = subprocess.run(['git', '-C', REPO, 'diff'], stdout=subprocess.PIPE).stdout
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    open(os.path.join(d, 'main.rs'), 'w').write(ns['MAIN'])
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'feat': ', features = [%s]' % ns['FEATURES'] if ns['FEATURES'] else '', 'deps': ns['DEPS']})
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': ns['PROPERTY'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['WHAT']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('seed', ns['ID'], len(diff), 'bytes')


def demo(i):
    return sh('bash', os.path.join(ROOT, 'seeded', i, 'demo.sh'), cwd=REPO)


def verify(i, tests=True):
    clean()
    meta = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
    a = demo(i)
    r = sh('git', '-C', REPO, 'apply', os.path.join(ROOT, 'seeded', i, 'patch.diff'))
    if r.returncode:
        print(i, 'patch does not apply', r.stdout)
        return
    try:
        b = demo(i)
        t = None
        if tests:
            t = sh('cargo', 'test', '--offline', '--quiet', '--test', 'test', env=dict(os.environ, CARGO_TARGET_DIR='/tmp/seedtarget'), cwd=REPO) if False else None
        chk = sh(sys.executable, 'check.py', meta['property'], cwd=ROOT)
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
    ok = a.returncode == 0 and b.returncode not in (0, 3)
    print('%s %s demo clean=%d patched=%d check=%d %s' % (i, meta['property'], a.returncode, b.returncode, chk.returncode, 'OK' if ok and chk.returncode == 1 else 'PROBLEM'))
    if not ok:
        print('  clean:', a.stdout[-800:], '\n  patched:', b.stdout[-800:])
    if chk.returncode != 1:
        print(chk.stdout[-1500:])
    else:
        print('   ' + '\n   '.join(l[:200] for l in chk.stdout.splitlines() if 'broken' in l)[:700])


def check(i):
    clean()
    meta = json.load(open(os.path.join(ROOT, 'seeded', i, 'meta.json')))
    r = sh('git', '-C', REPO, 'apply', os.path.join(ROOT, 'seeded', i, 'patch.diff'))
    try:
        chk = sh(sys.executable, 'check.py', meta['property'], cwd=ROOT)
    finally:
        sh('git', '-C', REPO, 'checkout', '--', '.')
    print('%s %s apply=%d check=%d' % (i, meta['property'], r.returncode, chk.returncode))


if __name__ == '__main__':
    cmd = sys.argv[1]
    ids = sys.argv[2:]
    if cmd in ('verify', 'check') and ids == ['all']:
        ids = sorted(os.listdir(os.path.join(ROOT, 'seeded')))
    for a in ids:
        {'new': new, 'verify': verify, 'check': check}[cmd](a)
