"""mkseed(id, prop, edits, main_rs, needs, breaks): write /verif/seeded/<id>/ from edits made to /repo's HEAD."""
import os, json, subprocess, tempfile
def mkseed(id, prop, edits, main_rs, needs, breaks):
    d = f'/verif/seeded/{id}'
    os.makedirs(d, exist_ok=True)
    assert not subprocess.getoutput('git -C /repo status --porcelain -uno')
    try:
        for f, a, b in edits:
            p = '/repo/src/' + f
            s = open(p).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            line0 = s[:s.index(a)].count('\n') + 1
            n = a.count('\n') + 1
            bl = subprocess.getoutput(f'git -C /repo blame -s -L{line0},+{n} {p}').split('\n')
            if not any('c2e9b24' in l for l in bl): print('NOTE: no original line in', f, repr(a))
            open(p, 'w').write(s.replace(a, b))
        open(d + '/patch.diff', 'w').write(subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True, check=True).stdout)
    finally:
        subprocess.check_call(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/main.rs', 'w').write(main_rs.strip() + '\n')
    open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# exit 0: the behaviour holds; run with cwd = the repository, after it was built
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
trap 'rm -rf /tmp/rhdemo_{id}' EXIT
mkdir -p /tmp/rhdemo_{id}/src || exit 2
cp "$here/main.rs" /tmp/rhdemo_{id}/src/main.rs && cp "$repo/Cargo.lock" /tmp/rhdemo_{id}/Cargo.lock
cat > /tmp/rhdemo_{id}/Cargo.toml <<EOF
[package]
name = "rhdemo"
version = "0.0.0"
edition = "2021"
[dependencies]
ringhopper = {{ path = "$repo/src/ringhopper" }}
ringhopper-primitives = {{ path = "$repo/src/ringhopper-primitives" }}
ringhopper-structs = {{ path = "$repo/src/ringhopper-structs" }}
ringhopper-engines = {{ path = "$repo/src/ringhopper-engines" }}
[profile.dev]
debug = false
[workspace]
EOF
cd /tmp/rhdemo_{id} && CARGO_TARGET_DIR=/tmp/rhdemo_{id}/target CARGO_NET_OFFLINE=true cargo run --offline --quiet
''')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
