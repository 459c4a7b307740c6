"""Helper to write planted bugs: mkbug.bug(id, property, edits, demo, needs, breaks, kind)."""
import json, os, subprocess
R = '/tmp/mkbug.repo'  # a copy, so that /repo is never touched
S = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
HEAD = '''#!/bin/bash
# run with cwd = the repository; exits 0 if the behaviour is right
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH" RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
t="$(mktemp -d)"; trap 'rm -rf "$t"' EXIT
mkdir "$t/src"; cp "$here/main.rs" "$t/src/"; cp "$repo/Cargo.lock" "$t/"
'''
TOML = {
'koopa': '''cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
koopa = { path = "$repo/koopa" }
[workspace]
E
''',
'nolog': '''cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
koopa = { path = "$repo/koopa", features = ["no-front-logger"] }
[workspace]
E
''',
'lib': '''mkdir "$t/lib"
cat > "$t/lib/Cargo.toml" <<E
[package]
name = "lkoopa"
version = "0.1.0"
edition = "2024"
[lib]
path = "$repo/libkoopa/src/lib.rs"
[dependencies]
koopa = { path = "$repo/koopa" }
E
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
koopa = { path = "$repo/koopa" }
lkoopa = { path = "lib" }
[workspace]
E
''',
}
RUN = '''cd "$t" && CARGO_TARGET_DIR="$t/target" timeout 250 cargo run --offline -q
'''
def bug(id, prop, edits, demo, needs, breaks, kind='koopa', extra=None):
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', R + '/'], check=True)
    assert subprocess.run(['git', '-C', R, 'status', '--short'], capture_output=True).stdout == b''
    for f, old, new in edits:
        p = R + '/' + f; s = open(p).read()
        n = s.count(old)
        if n != 1:
            subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.']); raise SystemExit(f'{id}: {n} matches of {old!r}')
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', R, 'diff'], capture_output=True, text=True).stdout
    # removed lines have to be original ones
    subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    cur = None; orig = 0; mine = 0
    import re
    for l in diff.splitlines():
        if l.startswith('--- a/'): cur = l[6:]; blame = subprocess.run(['git', '-C', R, 'blame', '-s', cur], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('@@'): ln = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            if blame[ln].startswith('^'): orig += 1
            else: mine += 1; print(f'{id}: not original: {blame[ln]}')
            ln += 1
        elif l.startswith(' '): ln += 1
    if not orig: print(f'{id}: removes no original line')
    open(d + '/main.rs', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(HEAD + TOML[kind] + (extra or RUN))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
