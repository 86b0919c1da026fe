"""Builds one check from /repo's current working tree (nothing is reused between runs)."""
import os, subprocess, sys, shutil, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VT_REPO', '/repo')
sys.path.insert(0, os.path.join(ROOT, 'schema'))
CXX = os.environ.get('VT_CXX', 'g++')
JOBS = int(os.environ.get('VT_JOBS', '8'))


class BuildError(Exception):
    """the framework itself could not be built (no verdict)"""


class SubjectError(Exception):
    """a valid schema could not be compiled by the compiler under test, or its output does not compile"""


def run(cmd, timeout=600, cwd=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=cwd,
                       errors='replace')
    return p.returncode, p.stdout


def pmap(fn, items):
    with ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(fn, i) for i in items]
        return [f.result() for f in futs]


class Build:
    def __init__(self, name):
        self.dir = os.path.join(ROOT, 'build', name)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        self.gen = os.path.join(self.dir, 'gen')
        os.makedirs(self.gen)
        self.protoc = os.path.join(self.dir, 'spb-protoc')
        self.t0 = time.time()

    def cc(self, src, obj, flags):
        cmd = ['ccache'] if os.environ.get('VT_CCACHE') else []
        cmd += [CXX, '-std=c++20', '-c', src, '-o', obj, '-w', '-I', os.path.join(REPO, 'include'), '-I', self.gen,
                '-I', os.path.join(ROOT, 'lib')] + flags
        return run(cmd)

    def compiler_sources(self):
        base = os.path.join(REPO, 'src', 'spb-proto-compiler')
        out = []
        for d, _, fs in os.walk(base):
            out += [os.path.join(d, f) for f in fs if f.endswith(('.cpp', '.cc', '.cxx'))]
        return base, sorted(out)

    def build_protoc(self, flags=('-O0',), path=None):
        path = path or self.protoc
        base, srcs = self.compiler_sources()
        objs = []

        def one(s):
            o = os.path.join(self.dir, os.path.basename(path) + '_' + os.path.relpath(s, base).replace('/', '_') + '.o')
            rc, out = self.cc(s, o, ['-I', base] + list(flags))
            if rc:
                raise BuildError('compiling %s:\n%s' % (s, out[-3000:]))
            return o

        objs = pmap(one, srcs)
        rc, out = run([CXX, '-o', path] + objs + [f for f in flags if f.startswith('-fsan')])
        if rc:
            raise BuildError('linking spb-protoc:\n' + out[-3000:])

    def generate(self, files, extra_imports=()):
        """files: dsl.File objects"""
        for f in files:
            with open(os.path.join(self.gen, f.name + '.proto'), 'w') as h:
                h.write(f.proto())
            with open(os.path.join(self.gen, f.name + '.bind.hpp'), 'w') as h:
                h.write(f.bind())
            with open(os.path.join(self.gen, 'bind_' + f.name + '.cc'), 'w') as h:
                h.write(f.bind_cc())
        with open(os.path.join(self.gen, 'register.cc'), 'w') as h:
            h.write('#include "vt_iface.hpp"\nnamespace vt {\n')
            for f in files:
                h.write('void register_%s(Registry&);\n' % f.name)
            h.write('void register_all(Registry& r) {\n')
            for f in files:
                h.write(' register_%s(r);\n' % f.name)
            h.write('}\n}\n')
        for f in files:
            rc, out = run([self.protoc, '-I', os.path.join(REPO, 'include/spb/proto'), '-I', self.gen,
                           '--cpp_out=' + self.gen, os.path.join(self.gen, f.name + '.proto')], timeout=60)
            if rc:
                raise SubjectError('spb-protoc rejected the valid schema %s.proto: %s' % (f.name, out[-1500:]))

    def build(self, check_cc, files, flags, protoc_flags=('-O0',), libs=(), defs=(), extra_cc=(), own_flags=None):
        """returns the path of the executable"""
        exe = os.path.join(self.dir, 'check')
        flags = list(flags) + list(defs)
        with ThreadPoolExecutor(JOBS) as ex:
            def compile_own(src):
                o = os.path.join(self.dir, os.path.basename(src) + '.o')
                rc, out = self.cc(src, o, flags if own_flags is None else list(own_flags))
                if rc:
                    raise BuildError('compiling %s:\n%s' % (src, out[-6000:]))
                return o

            own = [ex.submit(compile_own, s) for s in [check_cc] + list(extra_cc)]
            self.build_protoc(protoc_flags)
            objs = []
            if files:
                self.generate(files)

                def compile_gen(src):
                    o = os.path.join(self.dir, os.path.basename(src) + '.o')
                    rc, out = self.cc(os.path.join(self.gen, src), o, flags)
                    if rc:
                        i = out.find('error:')
                        if i < 0:  # killed, out of memory, ...
                            raise BuildError('compiling %s:\n%s' % (src, out[-4000:]))
                        raise SubjectError('generated code does not compile (%s):\n%s' % (src, out[max(0, i - 300):i + 3000]))
                    return o

                srcs = ['register.cc']
                for f in files:
                    srcs += [f.name + '.pb.cc', 'bind_' + f.name + '.cc']
                gen = [ex.submit(compile_gen, s) for s in srcs]
                objs += [g.result() for g in gen]
            objs += [o.result() for o in own]
        rc, out = run([CXX, '-o', exe] + objs + [f for f in flags if f.startswith(('-fsan', '-g', '-static'))] +
                      list(libs) + ['-lpthread'])
        if rc:
            raise SubjectError('generated code does not link:\n' + out[-4000:]) if 'pb.cc' in out or 'undefined' in out \
                else BuildError('linking:\n' + out[-4000:])
        return exe
