#!/usr/bin/env python3
"""dev tool: random small changes of the files of a property in a scratch worktree; lists those the check misses.
usage: mutate.py WORKTREE PID N SEED [file-substring]"""
import json, os, random, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
wt, pid, n, seed = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
only = sys.argv[5] if len(sys.argv) > 5 else ''
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
p = next(x for x in props if x['id'] == pid)
files = sorted(set(p['anchors']['files']))
files = [f.split(':')[0] for f in files]
files = [f for f in files if only in f and os.path.isfile(os.path.join(wt, f))]
rnd = random.Random(seed)
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '),
       (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\+=', '-='), (r'-=', '+='), (r'\*=', '+='), (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\b2\b', '3'), (r'One\(\)', 'Zero()'), (r'Zero\(\)', 'One()'),
       (r'\bif \((?!constexpr)', 'if (!'), (r'DoubleInPlace', 'SquareInPlace'), (r'NegateInPlace', 'SquareInPlace'), (r'^( +)[\w\[\]\.\*>-]+(\(.*\)| [-+*]?= [^;]*);$', r'\1;'), (r'\bx\b', 'y'), (r'\bi\b', 'j'), (r'\bleft\b', 'right'), (r'<< ', '>> '), (r'\ba\b', 'b'), (r'c0', 'c1'), (r'std::max', 'std::min'), (r'std::min', 'std::max')]
cand = []
for f in files:
    t = open(os.path.join(wt, f)).read().split('\n')
    for k, l in enumerate(t):
        s = l.strip()
        if not s or s.startswith(('//', '#', '*', 'static_assert', 'using', 'template', 'namespace', 'include', 'TRACE', 'DCHECK', 'CHECK', 'LOG', 'friend', 'class', 'struct', 'enable')) or 'operator' in s or 'enable_if' in s or 'ToString' in s or '<<' in s and '"' in s:
            continue
        code = l.split('//')[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                new = code[:m.start()] + m.expand(b) + code[m.end():]
                if new.strip() != code.strip():
                    cand.append((f, k, l, new))
rnd.shuffle(cand)
byfile = {}
done = 0
for f, k, l, new in cand:
    if done >= n:
        break
    if byfile.get(f, 0) >= max(2, 2 * n // max(1, len(files))):
        continue
    path = os.path.join(wt, f)
    src = open(path).read()
    t = src.split('\n')
    t[k] = new
    open(path, 'w').write('\n'.join(t))
    try:
        r = subprocess.run(['python3-vt', V + '/lib/run.py', pid], capture_output=True, text=True, env=dict(os.environ, VERIF_REPO=wt, VERIF_SEED='1', VERIF_TIER='quick'), timeout=900)
        out, rc = r.stdout + r.stderr, r.returncode
    except subprocess.TimeoutExpired:
        out, rc = 'TIMEOUT', 'timeout'
    finally:
        open(path, 'w').write(src)
    if 'error:' in out:
        continue
    done += 1
    byfile[f] = byfile.get(f, 0) + 1
    und = re.findall(r'undecided=(\d+)', out)
    print('MISS' if rc == 0 else 'hit' if rc == 1 else 'RC%s' % rc, pid, '%s:%d' % (f.replace('tachyon/', ''), k + 1), '|', l.strip(), '=>', new.strip(), '' if rc == 1 else und, '' if rc in (0, 1) else out[-200:], flush=True)
