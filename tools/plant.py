#!/usr/bin/env python3
"""plant.py DEF.py [check ids...]: build a planted bug from a definition, confirm it in a scratch copy and run checks on it.
DEF.py sets: id, prop, edits=[(file, old, new)...], main (demo program), needs, breaks, release (bool), demo (optional script)"""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run in the repository; exits 0 when the property holds
here=$(cd "$(dirname "$0")" && pwd); repo=$PWD
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir "$t/src" && cp "$here/main.rs" "$t/src/main.rs" || exit 3
cat > "$t/Cargo.toml" <<E
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
crypto-pure = { path = "$repo" }
[profile.release]
debug-assertions = false
overflow-checks = false
E
cd "$t" && CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true cargo build --offline --quiet %s || exit 3
%s
'''


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def main():
    d = {}
    exec(open(sys.argv[1]).read(), d)
    checks = sys.argv[2:] or [d['prop']]
    t = tempfile.mkdtemp(prefix='plant-')
    try:
        w = t + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', w])
        out = os.path.join(V, 'seeded', d['id'])
        os.makedirs(out, exist_ok=True)
        rel = d.get('release', True)
        open(out + '/main.rs', 'w').write(d['main'])
        open(out + '/demo.sh', 'w').write(d.get('demo') or DEMO % ('--release' if rel else '', d.get('run') or
                                          'timeout 250 "$t/target/%s/demo"' % ('release' if rel else 'debug')))
        os.chmod(out + '/demo.sh', 0o755)
        e = dict(os.environ, CARGO_TARGET_DIR=t + '/target', CARGO_NET_OFFLINE='true')
        r = sh('bash %s/demo.sh' % out, cwd=w, env=e)
        print('demo clean:', r.returncode, (r.stdout + r.stderr)[-300:])
        good = r.returncode == 0
        for f, a, b in d['edits']:
            s = open(w + '/' + f).read()
            assert s.count(a) == 1, (f, a, s.count(a))
            open(w + '/' + f, 'w').write(s.replace(a, b))
        open(out + '/patch.diff', 'w').write(sh('git diff', cwd=w).stdout)
        r = sh('bash %s/demo.sh' % out, cwd=w, env=e)
        print('demo bug:', r.returncode, (r.stdout + r.stderr)[-400:])
        good &= r.returncode not in (0, 3)
        for a in ('', '--no-default-features'):
            r = sh('cargo test --offline ' + a, cwd=w, env=e)
            print('tests', a, r.returncode, [l for l in r.stdout.splitlines() if 'test result' in l or 'FAILED' in l][:6], r.stderr[-200:] if r.returncode else '')
            good &= r.returncode == 0
        json.dump(dict(property=d['prop'], needs=d['needs'], what_it_breaks=d['breaks']), open(out + '/meta.json', 'w'), indent=1)
        print('CONFIRMED' if good else 'NOT CONFIRMED')
        for c in checks:
            r = sh('./check %s quick' % c, cwd=V, env=dict(os.environ, VERIF_REPO=w))
            print('check', c, r.returncode, r.stdout[-900:], r.stderr[-500:])
    finally:
        shutil.rmtree(t)


main()
