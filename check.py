#!/usr/bin/env python3
"""python3 check.py <property> quick|thorough [--only N]

Builds the check of a property from /repo's current tree, runs it and reports.
exit 0: held; exit 1: VIOLATION line; anything else: no verdict.
"""
import importlib, json, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
import build as B
import fixtures

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-sanitize=nonnull-attribute', '--param', 'asan-use-after-return=0', '-fno-omit-frame-pointer', '-g1']
# property -> how it is built
CHECKS = {}


def cxx(prop, src, fixt, flags=('-O1',), **kw):
    CHECKS[prop] = dict(kind='cxx', src=src, fixtures=fixt, flags=list(flags), **kw)


def py(prop, module, **kw):
    CHECKS[prop] = dict(kind='py', module=module, **kw)


exec(open(os.path.join(ROOT, 'checks', 'registry.py')).read())


def violation(prop, tier, what, detail):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s-%s.json' % (prop, tier))
    with open(path, 'w') as h:
        json.dump({'property': prop, 'tier': tier, 'input': what, 'observed': detail,
                   'replay': 'python3 /verif/check.py %s %s' % (prop, tier)}, h, indent=1)
    print('case: %s\nobserved: %s' % (what, detail[-3000:]))
    print('VIOLATION property=%s replay=%s' % (prop, path))
    sys.stdout.flush()
    return 1


def merge(path, parts):
    """one evidence file of several builds"""
    def add(x, y):
        for k, v in y.items():
            if isinstance(v, dict):
                add(x.setdefault(k, {}), v)
            elif isinstance(v, (int, float)) and not isinstance(v, bool) and isinstance(x.get(k), (int, float)) and k not in ('violations', 'distinct_outcomes', 'seed'):
                x[k] += v
    all_ = parts[0][1]
    for _, p in parts[1:]:
        add(all_, p)
    with open(path, 'w') as h:
        json.dump(all_, h, indent=1)


def main():
    prop, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    only = sys.argv[4] if len(sys.argv) > 4 and sys.argv[3] == '--only' else None
    c = CHECKS[prop]
    seed = os.environ.get('VERIF_SEED', '1')
    work = os.path.join(ROOT, 'build', prop)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    evidence = os.path.join(ROOT, 'evidence', prop + '.json')
    t0 = time.time()
    keep = os.environ.get('VT_KEEP')
    try:
        if c['kind'] == 'py':
            mod = importlib.import_module('checks.' + c['module'])
            return mod.main(prop, tier, evidence, work, only, violation)
        parts = []
        for tag, more in c.get('variants') or [('', [])]:
            b = B.Build(prop)
            flags = list(c['flags']) + list(c.get('thorough_flags', []) if tier == 'thorough' else []) + list(more)
            files = [fixtures.ALL[n]() for n in c['fixtures']]
            exe = b.build(os.path.join(ROOT, 'checks', c['src']), files, flags, libs=c.get('libs', ()), own_flags=c.get('own_flags'),
                          extra_cc=[os.path.join(ROOT, 'checks', x) for x in c.get('extra', ())])
            print('%s: %s built in %.1f s' % (prop, tag, time.time() - t0))
            sys.stdout.flush()
            cmd = [exe, '--tier', tier, '--replays', os.path.join(ROOT, 'replays'), '--work', work, '--seed', seed,
                   '--known', os.path.join(ROOT, 'known_findings.txt'), '--workers', os.environ.get('VT_JOBS', '8')]
            cmd += ['--only', only] if only else ['--evidence', evidence]
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:detect_stack_use_after_return=0:malloc_context_size=3:quarantine_size_mb=16:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=2048',
                       UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
            rc = subprocess.call(cmd, env=env)
            if rc or only:
                return rc
            parts.append((tag, json.load(open(evidence))))
        if len(parts) > 1:
            merge(evidence, parts)
        return 0
    except B.SubjectError as e:
        return violation(prop, tier, 'building the fixture schemas with the compiler under test', str(e))
    except B.BuildError as e:
        print('no verdict: %s' % e, file=sys.stderr)
        return 2
    except Exception:
        import traceback
        traceback.print_exc()
        return 2
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
