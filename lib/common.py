"""Shared plumbing of the checks: building IR from /repo's working tree,
reporting, evidence."""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
TB = '/opt/vp/tachyon_build'
GEN = os.path.join(REPO, '_build/bazel-out/k8-opt/bin')
SCRATCH = None


def scratch():
    global SCRATCH
    if SCRATCH is None:
        base = os.environ.get('VERIF_SCRATCH') or tempfile.gettempdir()
        SCRATCH = tempfile.mkdtemp(prefix='verif-', dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(SCRATCH, ignore_errors=True))
    return SCRATCH


_gen = None


def fresh_gen():
    """regenerate every generated header from the working tree's generators,
    templates and BUILD declarations into scratch; the include root"""
    global _gen
    if _gen is not None:
        return _gen
    d = os.path.join(scratch(), 'gen')
    os.makedirs(d, exist_ok=True)
    for x in ('tachyon', 'third_party', 'bazel'):
        l = os.path.join(d, x)
        if not os.path.lexists(l):
            os.symlink(os.path.join(REPO, x), l)
    sh = ("python3 %s/gen.py %s . > gen.log 2>&1 && ninja -C . $(grep -E '^build bazel-out' build.ninja | grep ': gen ' "
          "| awk '{print $2}' | sed 's/:$//' | grep -E '\\.(h|cc)$') >> gen.log 2>&1") % (TB, REPO)
    r = subprocess.run(['bash', '-c', sh], cwd=d)
    out = os.path.join(d, 'bazel-out/k8-opt/bin')
    if r.returncode != 0 or not os.path.isdir(out):
        log = open(os.path.join(d, 'gen.log')).read()[-1500:]
        if not os.path.isdir(GEN):
            raise BuildError('generated headers cannot be produced:\n' + log)
        print('note: generators did not build, using the generated headers of the last build')
        out = GEN
    _gen = out
    return out


def gen_includes(fresh=False):
    if not fresh and os.path.isdir(GEN):
        return ['-I' + REPO, '-I' + GEN]
    return ['-I' + REPO, '-I' + fresh_gen()]


def cxx_flags(stubs=False, fresh=False):
    f = ['-std=c++17', '-DNDEBUG', '-w', '-ferror-limit=5']
    if stubs:
        f += ['-isystem', os.path.join(VERIF, 'stubs')]
    f += gen_includes(fresh)
    f += ['-isystem', TB + '/include', '-I' + os.path.join(VERIF, 'harness')]
    return f


class BuildError(Exception):
    pass


def emit_ir(src, out=None, extra=(), opt='-O1', stubs=True, fresh=False):
    out = out or os.path.join(scratch(), os.path.basename(src) + '.' +
                              hashlib.sha1(' '.join(extra).encode()).hexdigest()[:8] + '.ll')
    cmd = ['clang++', *cxx_flags(stubs, fresh), opt, '-fno-vectorize', '-fno-slp-vectorize',
           '-fno-exceptions', *extra, '-emit-llvm', '-S', src, '-o', out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise BuildError('%s\n%s' % (' '.join(cmd), r.stderr[:3000]))
    return out


def load_ir(src, extra=(), opt='-O1', stubs=True, fresh=False):
    from llir import parse_module
    p = emit_ir(src, extra=extra, opt=opt, stubs=stubs, fresh=fresh)
    with open(p) as f:
        # inline assembly that is only a comment emits no code
        return parse_module(re.sub(r'(?m)^\s*(tail )?call void asm sideeffect "#[^"$]*".*\n', '', f.read()))


class Report:
    def __init__(self, pid, level='proof'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.obligations = 0
        self.discharged = 0
        self.viol = []
        self.undecided = []
        self.samples = []
        self.extra = {}
        self.functions = set()
        self.assumptions = []
        self.known = load_known(pid)
        self.known_hit = []
        self.broken = []

    def ok(self, what, sample=None):
        self.obligations += 1
        self.discharged += 1
        if len(self.samples) < 8 and (sample or self.discharged % 37 == 1):
            self.samples.append(sample or what)

    def bad(self, where, what, **kw):
        self.obligations += 1
        key = where
        d = dict(where=where, what=what, **kw)
        for k in self.known:
            if k['key'] == key and k.get('what', '') in what:
                self.known_hit.append((k, d))
                return
        self.viol.append(d)

    def unk(self, where, why):
        self.obligations += 1
        self.undecided.append(dict(where=where, why=str(why)[:400]))

    def floor(self, name, got, need):
        """fail the check (exit 2) when far fewer instances than confirmed by hand were found"""
        self.extra.setdefault('instances', {})[name] = got
        if got < need:
            self.broken.append('instance count %s: %d < %d' % (name, got, need))

    def finish(self, rule='', trusted=(), explanation=''):
        tier = os.environ.get('VERIF_TIER', 'quick')
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        cov = dict(obligations=self.obligations, discharged=self.discharged,
                   undecided=len(self.undecided), rule=rule,
                   checker_cmd='python3-vt lib/run.py ' + self.pid,
                   trusted_base=list(trusted) or ['clang 18 front end and LLVM IR', 'lib/absint.py', 'lib/alg.py'],
                   explanation=explanation or rule,
                   samples=self.samples or ['(none)'],
                   functions_analysed=sorted(self.functions)[:400],
                   functions_analysed_count=len(self.functions),
                   undecided_list=self.undecided[:60],
                   known_findings=[d['where'] for _, d in self.known_hit])
        cov.update(self.extra)
        ev = dict(property=self.pid, tier=tier, seed=seed, level=self.level, coverage=cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 3),
                  violations=len(self.viol))
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        evp = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(evp, 'w') as f:
            json.dump(ev, f, indent=1)
        for k, d in {k['key'] + k.get('what', ''): (k, d) for k, d in self.known_hit}.values():
            print('KNOWN-FINDING: property=%s %s: %s' % (self.pid, d['where'], d['what'][:200]))
        for u in self.undecided[:10]:
            print('undecided: %s: %s' % (u['where'], u['why'][:200]))
        if self.viol:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.replay.json')
            with open(rp, 'w') as f:
                json.dump(self.viol, f, indent=1)
            for v in self.viol[:20]:
                print('violation at %s: %s' % (v['where'], v['what'][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if self.broken:
            for b in self.broken:
                print('check broken: ' + b)
            return 2
        print('ok property=%s obligations=%d discharged=%d undecided=%d known=%d (%.1fs)' %
              (self.pid, self.obligations, self.discharged, len(self.undecided), len(self.known_hit), time.time() - self.t0))
        return 0


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if not ln:
                continue
            d = json.loads(ln)
            if d.get('property') == pid and d.get('status', 'open') == 'open':
                out.append(d)
    return out
