#!/usr/bin/env python3
"""dev tool: writes /verif/seeded/<id>/ from an edit and a demo; checks the demo both ways with an include overlay."""
import difflib, json, os, subprocess, sys, tempfile, shutil, stat
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = r'''#!/bin/bash
# exit 0: behaviour as required; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; B=$R/_build/bazel-out/k8-opt/bin
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
find "$B/tachyon/base" "$B/tachyon/math" "$B/tachyon/crypto" "$B/tachyon/zk" "$B/tachyon/c" -name '*.o' | grep -v -e unittests -e examples -e generator -e _test -e benchmark -e main > "$T/objs"
ar rcs "$T/l.a" $(cat "$T/objs") 2>/dev/null
g++ -std=c++17 -O1 -DNDEBUG -w -no-pie @OMP@ ${OVERLAY:+-I$OVERLAY} -isystem "$D/stubs" -I"$R" -I"$B" -isystem /opt/vp/tachyon_build/include "$D/demo.cc" "$T/l.a" -o "$T/demo" -lglog -lgflags -lgmpxx -lgmp -Wl,--start-group /usr/lib/x86_64-linux-gnu/libabsl_*.a -Wl,--end-group -lpthread > "$T/log" 2>&1 || { tail -c 1500 "$T/log"; exit 99; }
cd "$T" && timeout 200 "$T/demo"
'''


def seed(id, prop, edits, needs, breaks, demo, omp='', check=True, stubs=False):
    """edits: list of (file, old, new)"""
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    ov = tempfile.mkdtemp()
    diff = ''
    texts = {}
    hdr_only = True
    for f, old, new in edits:
        t = texts.get(f) or open('/repo/' + f).read()
        assert t.count(old) == 1, (id, f, 'occurs %d times' % t.count(old))
        texts[f] = t.replace(old, new)
    for f, t in texts.items():
        o = open('/repo/' + f).read()
        diff += ''.join(difflib.unified_diff(o.splitlines(True), t.splitlines(True), 'a/' + f, 'b/' + f))
        p = os.path.join(ov, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(t)
        if f.endswith('.cc'):
            hdr_only = False
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cc', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(SH.replace('@OMP@', omp))
    os.chmod(d + '/demo.sh', 0o755)
    if stubs:
        shutil.copytree(V + '/stubs', d + '/stubs', dirs_exist_ok=True)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
    if check:
        r0 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
        r1 = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True, env=dict(os.environ, OVERLAY=ov)) if hdr_only else None
        print(id, prop, 'clean', r0.returncode, 'patched', r1.returncode if r1 else '(cc)', '' if r0.returncode == 0 and (not r1 or r1.returncode not in (0, 99)) else 'BAD ' + (r0.stdout + (r1.stdout if r1 else ''))[-600:])
    shutil.rmtree(ov)


if __name__ == '__main__':
    for f in sys.argv[1:]:
        exec(open(f).read(), dict(seed=seed))
