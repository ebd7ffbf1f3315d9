"""tools/seed.py FILE: plants the bugs described in FILE (python: BUGS = [dict(id, prop, edits=[(file, old, new)], main=rust, needs, breaks)])
in a scratch copy of /repo, keeps those that build, pass the tests and are shown by their demonstration."""
import json
import os
import shutil
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = '/tmp/seedrepo'
DEMO = '''#!/bin/sh
# exit 0: the property holds on the shown input; non-zero: it is broken
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/demo.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<EOF
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[dependencies]
crypto-pure = { path = "$repo" }
[workspace]
EOF
cp "$repo/Cargo.lock" "$d/Cargo.lock" 2>/dev/null
cd "$d" || exit 3
CARGO_TARGET_DIR="$d/target" cargo build --offline -q || exit 3
"$d/target/debug/demo"
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    only = sys.argv[2:]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        d = os.path.join(V, 'seeded', b['id'])
        if os.path.isdir(d) and not only:
            continue
        if os.path.isdir(S):
            shutil.rmtree(S)
        sh('cp -a /repo %s' % S)
        for f, old, new in b['edits']:
            p = os.path.join(S, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        patch = sh('git -C %s diff' % S).stdout
        r = sh('cargo test --offline 2>&1 | grep -E "^test result|FAILED|failed|error|warning: unused" | head -20', cwd=S)
        ok = 'FAILED' not in r.stdout and 'error' not in r.stdout and 'test result: ok' in r.stdout
        if not ok:
            print(b['id'], 'tests do not pass:\n', r.stdout[:1500])
            continue
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(patch)
        open(os.path.join(d, 'demo.rs'), 'w').write(b['main'])
        open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump({'property': b['prop'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh(os.path.join(d, 'demo.sh'), cwd='/repo')
        c = sh(os.path.join(d, 'demo.sh'), cwd=S)
        good = a.returncode == 0 and c.returncode not in (0, 3)
        print(b['id'], 'kept' if good else 'DROPPED', a.returncode, c.returncode, '' if good else a.stdout[-600:] + c.stdout[-600:], flush=True)
        if not good:
            shutil.rmtree(d)
    if os.path.isdir(S):
        shutil.rmtree(S)


main()
