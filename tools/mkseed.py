#!/usr/bin/env python3
"""mkseed.py SPEC...: makes /verif/seeded/<id>/ from a spec (a Python file defining ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO) after confirming, in a
scratch copy of the repository, that the change applies to original lines, builds, passes the stable tests, and that the demonstration tells the trees apart."""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

OUT = '/verif/seeded'
BASE = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()[-1]
DEMO_SH = '''#!/bin/bash
# Builds the demonstration against the repository in the current directory and runs it.
H=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir "$T/src"
cp "$H/demo.rs" "$T/src/main.rs"
cp "$R/Cargo.lock" "$T/Cargo.lock"
cat > "$T/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.0.0"
edition = "2024"
[workspace]
[dependencies]
unsized-vec = { path = "$R"%(feat)s }
emplacable = { path = "$R/emplacable", features = ["std"] }
%(deps)s
EOF
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$T/target" RUSTUP_TOOLCHAIN=nightly-2025-07-01-x86_64-unknown-linux-gnu
export RUSTFLAGS="-Csymbol-mangling-version=v0 -Awarnings"
cd "$T"
cargo build%(rel)s --offline > "$T/log" 2>&1 || { cat "$T/log"; exit 3; }
timeout 60 "$T/target/%(dir)s/demo"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, capture_output=True, text=True, **kw)


def build_and_test(w):
    """The stable tests of a scratch copy of the repository."""
    env = dict(os.environ, RUSTUP_TOOLCHAIN='nightly-2025-07-01-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TARGET_DIR=w + '/target',
               RUSTFLAGS='-Csymbol-mangling-version=v0', RUSTDOCFLAGS='-Csymbol-mangling-version=v0', RUSTC_ICE='0', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
    r = sh('cargo test --workspace --all-features --all-targets --offline 2>&1; cargo test --workspace --all-features --doc --offline 2>&1; cargo check -p unsized-vec --lib --bins --offline 2>&1', w, env=env)
    bad = [x for x in r.stdout.splitlines() if re.search(r'^test .*FAILED|^error|panicked|signal', x)]
    ok = len(re.findall(r'^test .* \.\.\. (ok|bench)', r.stdout, re.M))
    return bad, ok


def make(spec):
    s = dict(FEAT='', DEPS='', REL=False)
    exec(open(spec).read(), s)
    w = tempfile.mkdtemp(prefix='seed-')
    d = os.path.join(OUT, s['ID'])
    tmp = tempfile.mkdtemp(prefix='seedout-')
    try:
        subprocess.run(['cp', '-a', '/repo/.', w], check=True)
        sh('git checkout -q -- .', w)
        for f, old, new in s['EDITS']:
            t = open(w + '/' + f).read()
            if t.count(old) != 1:
                print(s['ID'], 'edit matches', t.count(old), 'times:', old[:60])
                return False
            open(w + '/' + f, 'w').write(t.replace(old, new))
        diff = sh('git diff', w).stdout
        # removed lines have to be lines of the original repository
        mine = []
        for f in {e[0] for e in s['EDITS']}:
            bl = sh('git blame -s --root -l HEAD -- %s' % f, w).stdout.splitlines()
            n = 0
            for h in re.finditer(r'^@@ -(\d+)(?:,(\d+))? ', sh('git diff -U0 -- %s' % f, w).stdout, re.M):
                a, c = int(h.group(1)), int(h.group(2) or 1)
                for i in range(a, a + c):
                    n += 1
                    if not bl[i - 1].lstrip('^').startswith(BASE[:30]):
                        mine.append((f, i, bl[i - 1][-60:]))
        if mine:
            print(s['ID'], 'touches lines of later commits', mine)
        bad, ok = build_and_test(w)
        if bad:
            print(s['ID'], 'tests', bad[:5])
            return False
        open(tmp + '/patch.diff', 'w').write(diff)
        open(tmp + '/demo.rs', 'w').write(s['DEMO'].lstrip())
        open(tmp + '/demo.sh', 'w').write(DEMO_SH % dict(feat=', features = ["serde"]' if s['FEAT'] else '', deps=s['DEPS'], rel=' --release' if s['REL'] else '', dir='release' if s['REL'] else 'debug'))
        os.chmod(tmp + '/demo.sh', 0o755)
        json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(tmp + '/meta.json', 'w'), indent=1)
        r1 = sh(tmp + '/demo.sh', w)
        sh('git checkout -q -- .', w)
        r0 = sh(tmp + '/demo.sh', w)
        good = r0.returncode == 0 and r1.returncode not in (0, 3)
        print(s['ID'], 'tests ok', ok, '| demo unchanged', r0.returncode, 'patched', r1.returncode, 'GOOD' if good else 'BAD')
        if not good or '-v' in sys.argv:
            print(r0.stdout[-1500:], r0.stderr[-1500:], '----', r1.stdout[-800:], r1.stderr[-800:])
        if good:
            shutil.rmtree(d, ignore_errors=True)
            shutil.copytree(tmp, d)
        return good
    finally:
        shutil.rmtree(w, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)


for f in sys.argv[1:]:
    if f != '-v':
        make(f)
