"""Common parts of the checks of the schema compiler: run it on many schemas, compile the outputs in batches."""
import hashlib, json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor
import build as B

INC = ['-I', os.path.join(B.REPO, 'include')]


class Violation(Exception):
    def __init__(self, case, what):
        Exception.__init__(self, what)
        self.case, self.what = case, what


class Stats:
    def __init__(self):
        self.evaluations = self.transitions = self.validated = 0
        self.states, self.outcomes, self.samples, self.counters = set(), set(), [], {}
        self.known = []

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n

    def state(self, s):
        self.states.add(hashlib.blake2b(s.encode('utf-8', 'surrogateescape') if isinstance(s, str) else s, digest_size=8).digest())

    def outcome(self, s):
        self.outcomes.add(s)

    def sample(self, s, every=997):
        if self.evaluations % every == 0 and len(self.samples) < 6:
            self.samples.append(s[:600])

    def write(self, path, prop, tier, rule, t0, violations, assumptions=(), exhaustive=True):
        cov = dict(evaluations=self.evaluations, states=len(self.states), transitions=self.transitions,
                   traces_validated_against_impl=self.validated, distinct_outcomes=len(self.outcomes), **self.counters)
        cov.update(rule=rule, exhaustive=exhaustive and not violations, samples=self.samples or ['none'])
        with open(path, 'w') as h:
            json.dump(dict(property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1')), level='model_checking',
                           coverage=cov, assumptions=list(assumptions), wall_s=time.time() - t0, violations=violations), h, indent=1)
        print('%s: evaluations=%d states=%d transitions=%d validated=%d outcomes=%d %s wall=%.1fs' % (
            prop, self.evaluations, len(self.states), self.transitions, self.validated, len(self.outcomes),
            ' '.join('%s=%s' % kv for kv in sorted(self.counters.items())), time.time() - t0))


def call(cmd, timeout=20, **kw):
    """rc, output; rc is None for a hang"""
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, errors='replace', **kw)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return None, 'does not terminate'


def pmap(fn, items, jobs=B.JOBS):
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(fn, items))


def chunks(v, n):
    return [v[i:i + n] for i in range(0, len(v), n)]


def syntax(path, flags=()):
    cmd = (['ccache'] if os.environ.get('VT_CCACHE') and 0 else []) + [B.CXX, '-std=c++20', '-fsyntax-only', '-w', '-O0'] + INC + list(flags) + [path]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors='replace')
    if p.returncode and ' error:' not in p.stdout:
        raise B.BuildError('the C++ compiler failed: ' + p.stdout[-2000:])
    return p.returncode, p.stdout


def batch_compile(work, tag, units, flags, batch):
    """units: (case, text to compile); compiles them in batches, splits a failing batch; raises Violation"""
    groups = chunks(units, batch)

    def one(ig):
        i, g = ig
        path = os.path.join(work, 'b_%s_%s.cc' % (tag, i))
        with open(path, 'w') as h:
            h.write('\n'.join(t for _, t in g) + '\n')
        return syntax(path, flags)

    res = pmap(one, list(enumerate(groups)))
    for i, (rc, out) in enumerate(res):
        if rc == 0:
            continue
        g = groups[i]
        while len(g) > 1:  # find one culprit
            half = g[:len(g) // 2]
            rc, o = one(('x%d' % i, half))
            if rc:
                g, out = half, o
            else:
                rc, o = one(('x%d' % i, g[len(g) // 2:]))
                if rc == 0:  # only together; the whole batch is the case
                    break
                g, out = g[len(g) // 2:], o
        j = max(0, out.find(' error:') - 200)
        raise Violation(g[0][0] if len(g) == 1 else 'batch of %d schemas' % len(g), 'the generated code does not compile:\n' + out[j:j + 2500])


def batch_programs(work, tag, units, flags, batch, opt='-O0'):
    """units: (case, C++ text which tests itself when it is loaded and prints FAIL); every batch is one program"""
    groups = chunks(units, batch)
    flags = ['-std=c++20', '-w', opt, '-x', 'c++'] + INC + list(flags)

    def one(ig):
        i, g = ig
        path, exe = os.path.join(work, 'p_%s_%s.cc' % (tag, i)), os.path.join(work, 'p_%s_%s' % (tag, i))
        with open(path, 'w') as h:
            h.write('\n'.join(t for _, t in g) + '\nint main() { }\n')
        p = subprocess.run([B.CXX] + flags + [path, '-o', exe], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, errors='replace')
        os.unlink(path)
        if p.returncode:
            if ' error:' not in p.stdout and 'undefined reference' not in p.stdout and 'multiple definition' not in p.stdout:
                raise B.BuildError('the C++ compiler failed: ' + p.stdout[-2000:])
            return 'compile', p.stdout
        rc, out = call([exe], timeout=120)
        os.unlink(exe)
        return ('ok' if rc == 0 else 'run'), '%s (exit %s)' % (out[-1500:], rc)

    for i, (how, out) in enumerate(pmap(one, list(enumerate(groups)))):
        if how == 'ok':
            continue
        g = groups[i]
        while len(g) > 1:
            parts = [g[:len(g) // 2], g[len(g) // 2:]]
            res = [one(('x%d' % i, p)) for p in parts]
            bad = [k for k in (0, 1) if res[k][0] != 'ok']
            if not bad:
                break
            g, (how, out) = parts[bad[0]], res[bad[0]]
        j = max(0, out.find(' error:') - 300) if how == 'compile' else 0
        raise Violation(g[0][0] if len(g) == 1 else 'batch of %d schemas' % len(g), ('the generated code does not compile:\n' if how == 'compile' else 'wrong behaviour: ') + out[j:j + 2500])
