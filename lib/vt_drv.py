"""Runs checks/protoc_driver.cc: the main() of the compiler under test on many texts, next to the parser of protobuf."""
import os, shutil, struct, subprocess, threading
import build as B

FIELDS = ('rc', 'h', 'cc', 'same', 'code', 'sig', 'meaning', 'crc', 'csig', 'message', 'google', 'why', 'faults')
CANON, TWICE, GOOGLE, FAULTS = 1, 2, 4, 8


class Result:
    __slots__ = FIELDS

    def __init__(self, line):
        p = line.rstrip('\n').split('|')
        if len(p) != len(FIELDS):
            raise B.BuildError('answer of the driver: %r' % line[:500])
        for k, v in zip(FIELDS, p):
            setattr(self, k, v)
        self.rc, self.crc = int(self.rc), int(self.crc)


class Driver:
    def __init__(self, b, tag, flags, san=()):
        """b: build.Build; compiles the compiler and the driver"""
        base, srcs = b.compiler_sources()
        self.work, self.tag = b.dir, tag
        self.exe = os.path.join(b.dir, 'driver_' + tag)
        own = os.path.join(B.ROOT, 'checks', 'protoc_driver.cc')

        def one(s):
            o = os.path.join(b.dir, 'd%s_%s.o' % (tag, os.path.basename(os.path.dirname(s)) + '_' + os.path.basename(s)))
            if s == own:
                cmd = (['ccache'] if os.environ.get('VT_CCACHE') else []) + [B.CXX, '-std=c++17', '-O1', '-w', '-c', s, '-o', o]
                rc, out = B.run(cmd)
            else:
                rc, out = b.cc(s, o, ['-I', base] + list(flags) + list(san) + (['-Dmain=spb_protoc_main'] if os.path.relpath(s, base) == 'main.cpp' else []))
            if rc:
                raise B.BuildError('compiling %s:\n%s' % (s, out[-3000:]))
            return o

        objs = B.pmap(one, [own] + srcs)
        rc, out = B.run([B.CXX, '-o', self.exe] + objs + list(san) + ['-lprotobuf', '-lpthread', '-ldl'])
        if rc:
            raise B.BuildError('linking the driver:\n' + out[-3000:])
        self.n = 0
        self.lock = threading.Lock()

    def run(self, frames, env=None):
        """frames: (flags, bytes) -> Results, in one process"""
        with self.lock:
            self.n += 1
            d = os.path.join(self.work, 'r_%s_%d' % (self.tag, self.n))
        os.makedirs(d + '/inc')
        shutil.copytree(os.path.join(B.REPO, 'include/spb/proto'), d + '/inc', dirs_exist_ok=True)
        if os.path.isdir('/usr/include/google/protobuf'):
            os.makedirs(d + '/inc/google/protobuf', exist_ok=True)
            for f in os.listdir('/usr/include/google/protobuf'):
                if f.endswith('.proto'):
                    shutil.copy('/usr/include/google/protobuf/' + f, d + '/inc/google/protobuf/' + f)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=1024:malloc_context_size=3:quarantine_size_mb=1',
                 UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1:exitcode=99')
        e.update(env or {})
        with open(d + '/err', 'wb') as err:
            p = subprocess.Popen([self.exe, d], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=e)

            def feed():
                try:
                    for fl, t in frames:
                        p.stdin.write(struct.pack('II', fl, len(t)) + t)
                    p.stdin.close()
                except BrokenPipeError:
                    pass
            th = threading.Thread(target=feed)
            th.start()
            out = [Result(l.decode('utf-8', 'replace')) for l in p.stdout]
            th.join()
            rc = p.wait()
        if rc or len(out) != len(frames):
            raise B.BuildError('the driver ended with %s after %d of %d texts: %s' % (rc, len(out), len(frames), open(d + '/err', errors='replace').read()[-1500:]))
        if not os.environ.get('VT_KEEP'):
            shutil.rmtree(d, ignore_errors=True)
        return out

    def run_all(self, frames, jobs=B.JOBS):
        """the same in several processes; every one gets every jobs-th frame"""
        from concurrent.futures import ThreadPoolExecutor
        parts = [frames[i::jobs] for i in range(jobs)]
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(self.run, parts))
        out = [None] * len(frames)
        for i, r in enumerate(res):
            out[i::jobs] = r
        return out
