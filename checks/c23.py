"""C23: every set of files which import one another: which types are visible, which one a name means, where the outputs
go and that they compile together, whatever the order, and that every file is governed by its own syntax and options."""
import hashlib, itertools, os, shutil, sys, time
import build as B
sys.path.insert(0, os.path.join(B.ROOT, 'lib'))
import vt_py as V
from checks.c18 import HEAD

PKGS = [(), ('p',), ('p', 'q'), ('p', 'q', 'r'), ('q',), ('r', 'p'), ('p', 'p')]
LABS = ['opt', 'rep', 'map', 'one', 'req']


class File:
    def __init__(self, path, pkg, imports=(), syntax='proto2'):
        self.path, self.pkg, self.imports, self.syntax = path, tuple(pkg), list(imports), syntax
        self.types = []    # (path tuple, kind 'm' or 'e'), parents first
        self.refs = []     # (scope tuple, label, spelling)
        self.head = ''

    def text(self):
        out = ['syntax = "%s";' % self.syntax, self.head]
        if self.pkg:
            out.append('package %s;' % '.'.join(self.pkg))
        for kind, f in self.imports:
            out.append('import %s"%s";' % (kind + ' ' if kind else '', f if isinstance(f, str) else f.path))
        num = itertools.count(1)

        def emit(p, kind):
            if kind == 'e':
                out.append('enum %s { V_%s = 0; }' % (p[-1], '_'.join(p)))
                return
            out.append('message %s {' % p[-1])
            for c, k in self.types:
                if len(c) == len(p) + 1 and c[:-1] == p:
                    emit(c, k)
            for i, (s, lab, sp) in enumerate(self.refs):
                if s == p:
                    n = next(num)
                    if lab == 'map':
                        out.append(' map<int32, %s> f%d = %d;' % (sp, i, n))
                    elif lab == 'one':
                        out.append(' oneof f%d { %s a%d = %d; int32 b%d = %d; }' % (i, sp, i, n, i, n + 1000))
                    else:
                        out.append(' %s %s f%d = %d;' % ({'opt': 'optional', 'rep': 'repeated', 'req': 'required'}[lab], sp, i, n))
            out.append('}')

        for p, k in self.types:
            if len(p) == 1:
                emit(p, k)
        return '\n'.join(out) + '\n'

    def visible(self):
        """own file, the imported ones and what these import publicly"""
        seen, todo = [self], [f for _, f in self.imports if not isinstance(f, str)]
        while todo:
            f = todo.pop(0)
            if f not in seen:
                seen.append(f)
                todo += [g for k, g in f.imports if k == 'public']
        return seen

    def resolve(self, scope, spelling):
        vis = self.visible()
        types = {f.pkg + p: f for f in vis for p, _ in f.types}
        scopes = set(types) | {f.pkg[:i] for f in vis for i in range(1, len(f.pkg) + 1)}
        parts = tuple(spelling.split('.'))
        s = self.pkg + scope
        while True:
            if s + parts[:1] in scopes:
                if len(parts) > 1:
                    # a part which is no scope (an enum) does not count as one
                    t = types.get(s + parts[:1])
                    if t is None or dict((t.pkg + p, k) for p, k in t.types)[s + parts[:1]] == 'm':
                        return s + parts if s + parts in types else None
                elif s + parts in types:
                    return s + parts
            if not s:
                return None
            s = s[:-1]


def cpp(full):
    return '::' + '::'.join(full)


def pb_path(path, ext='.pb.h'):
    return path[:-6] + ext


def varint(b, i):
    r = s = 0
    while True:
        c = b[i]
        i += 1
        r |= (c & 127) << s
        s += 7
        if c < 128:
            return r, i


def wire(b):
    i = 0
    while i < len(b):
        t, i = varint(b, i)
        if t & 7 == 0:
            v, i = varint(b, i)
        elif t & 7 == 2:
            n, i = varint(b, i)
            v, i = b[i:i + n], i + n
        else:
            n = 8 if t & 7 == 1 else 4
            v, i = b[i:i + n], i + n
        yield t >> 3, v


def google_types(desc, name):
    """(message path, field) -> full type name, of the file `name` in a FileDescriptorSet"""
    out = {}

    def message(m, scope):
        fs = list(wire(m))
        here = scope + (next(v for n, v in fs if n == 1).decode(),)
        oneofs = [next(w for k, w in wire(v) if k == 1).decode() for n, v in fs if n == 8]
        entries = {}
        for n, v in fs:
            if n == 3:
                e = list(wire(v))
                nm = next(w for k, w in e if k == 1).decode()
                if nm.endswith('Entry') and any(k == 7 and (7, 1) in list(wire(w)) for k, w in e):
                    for k, w in e:
                        if k == 2:
                            f = dict(wire(w))
                            if f[1] == b'value':
                                entries[nm] = f.get(6, b'').decode()
                else:
                    message(v, here)
        for n, v in fs:
            if n == 2:
                f = dict(wire(v))
                t = f.get(6, b'').decode()
                nm = f[1].decode()
                if t and t.split('.')[-1] in entries:
                    t = entries[t.split('.')[-1]]
                if 9 in f and nm[0] == 'a':
                    nm = 'f' + nm[1:]
                if t:
                    out[here, nm] = tuple(t[1:].split('.'))

    for n, f in wire(desc):
        if n == 1:
            fs = list(wire(f))
            if next(v for k, v in fs if k == 1).decode() == name:
                for k, v in fs:
                    if k == 4:
                        message(v, ())
    return out


class Config:
    """files; the last one is looked at by the oracle; `bad`: spellings which must be refused (scope, spelling)"""

    def __init__(self, kind, files, bad=()):
        self.kind, self.files, self.bad = kind, files, list(bad)

    def case(self):
        if len(self.files) > 20:
            return '%s of %d files, the last one is %s' % (self.kind, len(self.files), self.files[-1].path)
        return ' '.join('[%s] %s' % (f.path, ' '.join(f.text().split())) for f in self.files)


def rename(parts, n):
    return tuple(x + str(n) for x in parts)


def scopes(thorough):
    """a imports b; all packages of both, decoys of the same name everywhere"""
    n = itertools.count()
    decoys = [('none', None)] + [('own', None), ('nested', None), ('qmsg', None), ('pmsg', None)]
    for where in ('before', 'after', 'behind', 'behind_public'):
        decoys += [(where, p) for p in PKGS]
    for pa, pb in itertools.product(PKGS, PKGS):
        for dk, dp in decoys:
            i = next(n)
            R = lambda *x: rename(x, i)
            b = File('b%d.proto' % i, rename(pb, i))
            b.types = [(R('T'), 'm'), (R('E'), 'e'), (R('O'), 'm'), (R('O', 'N'), 'm'), (R('O', 'F'), 'e')]
            a = File('a%d.proto' % i, rename(pa, i), [('', b)])
            a.types = [(R('M'), 'm'), (R('M', 'K'), 'm')]
            files = [b, a]
            # the decoys have the other kind
            dtypes = [(R('T'), 'e'), (R('E'), 'm'), (R('O'), 'm'), (R('O', 'N'), 'e'), (R('O', 'F'), 'm')]
            if dk == 'own':
                if pa == pb:
                    continue
                a.types = dtypes + a.types
            elif dk == 'nested':
                a.types = [a.types[0]] + [(R('M') + p, k) for p, k in dtypes] + a.types[1:]
            elif dk in ('qmsg', 'pmsg'):
                nm = R(dk[0])
                if (pa + (dk[0],)) in [x[:len(pa) + 1] for x in (pa, pb)] and len(pa) < max(len(pa), len(pb)):
                    continue  # a message and a package of the same name
                a.types = [(nm, 'm')] + [(nm + p, k) for p, k in dtypes] + a.types
            elif dk != 'none':
                if dp == pb:
                    continue
                c = File('c%d.proto' % i, rename(dp, i))
                c.types = dtypes
                files.insert(0, c)
                if dk == 'before':
                    a.imports.insert(0, ('', c))
                elif dk == 'after':
                    a.imports.append(('', c))
                else:
                    b.imports.append(('public' if dk == 'behind_public' else '', c))
            names = {}
            for f in a.visible():
                for p, k in f.types:
                    names.setdefault(f.pkg + p, []).append(k)
            if any(len(v) > 1 for v in names.values()):
                continue
            bad, rot = [], i
            spellings = []
            for f in (files if dk in ('before', 'after', 'behind', 'behind_public') else [b]):
                if f is a:
                    continue
                for p, _ in f.types:
                    full = f.pkg + p
                    spellings += ['.'.join(full[k:]) for k in range(len(full))]
            for scope in (R('M'), R('M', 'K')):
                for sp in dict.fromkeys(spellings):
                    if a.resolve(scope, sp) is None:
                        bad.append((scope, sp))
                    else:
                        rot += 1
                        a.refs.append((scope, LABS[rot % 5], sp))
            yield Config('scopes', files, bad if thorough else bad[:1] + bad[-1:])


def dags(thorough):
    """every graph of imports and public imports of four files; every visible type is used, every other one refused"""
    n = itertools.count()
    pairs = [(i, j) for i in range(4) for j in range(i)]
    schemes = [[('p',)] * 4, [('p',), ('p', 'q'), ('p', 'q', 'r'), ('q',)], [(), ('q', 'p'), ('p',), ()]]
    for si, scheme in enumerate(schemes):
        for kinds in itertools.product([None, '', 'public'], repeat=6):
            if not thorough and si and kinds.count('public') > 2:
                continue
            i = next(n)
            fs = []
            for k in range(4):
                f = File('g%d_%d.proto' % (i, k), rename(scheme[k], 'g%d' % i))
                f.types = [(('G%d_%d' % (i, k),), 'm')]
                f.imports = [(kind, fs[j]) for (x, j), kind in zip(pairs, kinds) if x == k and kind is not None]
                if (i + k) % 2:
                    f.imports.reverse()
                fs.append(f)
            bad = []
            for k, f in enumerate(fs):
                for j, g in enumerate(fs[:k]):
                    full = '.'.join(g.pkg + g.types[0][0])
                    sp = g.types[0][0][0] if g.pkg == f.pkg else full
                    if f.resolve(f.types[0][0], sp) is None:
                        if k == 3:
                            bad.append((f.types[0][0], sp))
                    else:
                        f.refs.append((f.types[0][0], LABS[(i + j) % 5], sp))
            yield Config('dags', fs, bad if si == 0 else [])


def ladders():
    for depth in (2, 16, 64, 120):
        for width in (2, 3):
            for kind in ('', 'public'):
                fs, prev = [], []
                for d in range(depth):
                    row = []
                    for w in range(width):
                        f = File('l%d_%d_%s%d_%d.proto' % (depth, width, kind, d, w), ('l',))
                        f.types = [(('L%s%d_%d_%d_%d' % (kind, depth, width, d, w),), 'm')]
                        f.imports = [(kind, x) for x in prev]
                        for x in prev:
                            f.refs.append((f.types[0][0], 'rep', x.types[0][0][0]))
                        row.append(f)
                        fs.append(f)
                    prev = row
                yield Config('ladders', fs)


def layouts(root):
    """files in directories, equal names in other directories, every spelling of the command line"""
    n = itertools.count()
    dirs = ['', 'd/', 'd/e/']
    for ds in itertools.product(dirs, repeat=3):
        for same in (0, 1):
            if same and len(set(ds)) < 3:
                continue
            for edges in ((1, 0, 1), (1, 1, 1), (1, 1, 0)):  # a-b a-c b-c
                for variant in range(11):
                    if variant == 8 and len(set(ds)) > 1:
                        continue
                    i = next(n)
                    stems = ['x%d' % i] * 3 if same else ['a%d' % i, 'b%d' % i, 'c%d' % i]
                    fs = [File(d + s + '.proto', ('lay%d' % i,)) for d, s in zip(ds, stems)]
                    for f, t in zip(fs, 'ABC'):
                        f.types = [((t + str(i),), 'm')]
                    a, b, c = fs
                    for on, (x, y) in zip(edges, ((a, b), (a, c), (b, c))):
                        if on:
                            x.imports.append(('', y if variant != 8 else y.path.split('/')[-1]))
                            x.refs.append((x.types[0][0], LABS[len(x.refs) + variant % 3], y.types[0][0][0]))
                    if any(os.path.dirname(x.path) and os.path.join(os.path.dirname(x.path), y.path) in (a.path, b.path, c.path) for x in fs for _, y in x.imports if not isinstance(y, str)):
                        continue  # found next to the file which imports it
                    yield variant, [c, b, a]


def command(variant, root, files):
    """arguments of both compilers and the working directory"""
    rel = [f.path for f in files]
    absolute = [os.path.join(root, x) for x in rel]
    if variant == 0:
        return ['-I', root], absolute, '/', 0
    if variant == 1:
        return ['-I' + root], absolute, '/', 0
    if variant == 2:
        return ['--proto_path=' + root + '/'], absolute, '/', 0
    if variant == 3:
        return ['-I', '.'], rel, root, 0
    if variant == 4:
        return ['-I./'], ['./' + x for x in rel], root, 0
    if variant == 5:
        return ['-I', '..'], ['../' + x for x in rel], root + '/d', 0
    if variant == 6:
        return ['-I', root + '/empty', '-I', root], absolute, '/', 0
    if variant == 7:
        return ['-I', root + '/d/..'], [os.path.join(root, 'd/..', x) for x in rel], '/', 0
    if variant == 8:
        return [], [x.split('/')[-1] for x in rel], os.path.join(root, os.path.dirname(rel[0])), 0
    if variant == 9:
        return ['-I', root], absolute, '/', 1  # all at once
    return ['-I', root, '-I', root + '/empty/', '--proto_path=' + root + '/nothing'], rel[::-1], root, 1


def main(prop, tier, evidence, work, only, violation):
    t0 = time.time()
    thorough = tier == 'thorough'
    b = B.Build(prop)
    b.build_protoc(('-O1',))
    st = V.Stats()
    root, out = os.path.join(work, 's'), os.path.join(work, 'o')
    os.makedirs(root)
    os.makedirs(out)

    def put(base, path, text):
        p = os.path.join(base, path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h:
            h.write(text)
        return p

    def spb(path, outdir=out):
        return V.call([b.protoc, '-I', root, '--cpp_out=' + outdir, path])

    def verdict(c):
        """Violation or (units)"""
        f = c.files[-1]
        paths = [put(root, x.path, x.text()) for x in c.files]
        ds = os.path.join(work, 'd_' + f.path + '.pb')
        rc, txt = V.call(['protoc', '-I', root, '--descriptor_set_out=' + ds, f.path], cwd=root)
        if rc:
            raise B.BuildError('the model of visibility is wrong: protoc refuses %s: %s' % (c.case(), txt))
        with open(ds, 'rb') as h:
            types = google_types(h.read(), f.path)
        os.unlink(ds)
        asserts = []
        for i, (scope, lab, sp) in enumerate(f.refs):
            want = f.resolve(scope, sp)
            if types.get((scope, 'f%d' % i)) != want:
                raise B.BuildError('the model of scopes is wrong: %s is %s, not %s in %s' % (sp, types.get((scope, 'f%d' % i)), want, c.case()))
            asserts.append('static_assert(std::is_same_v<vt_c::un_t<decltype(%s::f%d)>, %s>);' % (cpp(f.pkg + scope), i, cpp(want)))
        for x, p in list(zip(c.files, paths)):
            rc, txt = spb(p)
            if rc != 0:
                return V.Violation(c.case(), '%s is %s: %s' % (x.path, 'refused' if rc is not None and 0 < rc < 120 else 'not finished (%s)' % rc, txt[-400:]))
        res = ['#include "%s"' % pb_path(f.path)] + asserts
        odd = []
        for k, (scope, sp) in enumerate(c.bad):
            g = File(f.path.replace('.proto', '_x%d.proto' % k), f.pkg, f.imports)
            # an own name for the message which is extended
            g.types, g.refs = [((t[0] + 'x%d' % k,) + t[1:], kd) if t[0] == scope[0] else (t, kd) for t, kd in f.types], []
            sc = (scope[0] + 'x%d' % k,) + scope[1:]
            g.refs = [(sc, LABS[k % 5], sp)]
            p = put(root, g.path, g.text())
            rc, txt = V.call(['protoc', '-I', root, '--descriptor_set_out=/dev/null', g.path], cwd=root)
            if not rc:
                raise B.BuildError('the model of visibility is wrong: protoc accepts ' + g.text())
            rc, txt = spb(p)
            if rc is None or rc < 0 or rc > 120:
                return V.Violation(c.case() + ' ' + g.text(), 'crash or hang: ' + txt[-300:])
            if rc == 0:
                odd.append(('[%s] %s' % (g.path, ' '.join((c.case() + ' ' + g.text()).split())), '#include "%s"' % pb_path(g.path, '.pb.cc')))
            st.count('invisible_refused' if rc else 'invisible_to_cpp')
        return '\n'.join(res), ['#include "%s"' % pb_path(x.path, '.pb.cc') for x in c.files], odd

    lroot, lout, lgoogle = [os.path.join(work, x) for x in ('ls', 'lo', 'lg')]
    for d in ('ls/d/e', 'ls/empty', 'lo', 'lg'):
        os.makedirs(os.path.join(work, d))

    def layout(vf):
        variant, fs = vf
        case = 'variant %d: %s' % (variant, Config('layouts', fs).case())
        for f in fs:
            put(lroot, f.path, f.text())
        flags, args, cwd, once = command(variant, lroot, fs)
        want = [pb_path(f.path.split('/')[-1] if variant == 8 else f.path, e) for f in fs for e in ('.pb.h', '.pb.cc')]
        for part in ([args] if once else [[x] for x in args]):
            rc, txt = V.call([b.protoc] + flags + ['--cpp_out=' + lout] + part, cwd=cwd)
            if rc != 0:
                return V.Violation(case, 'refused: %s %s' % (rc, txt[-400:]))
        grc, gtxt = V.call(['protoc'] + flags + ['--cpp_out=' + lgoogle] + args, cwd=cwd)
        for w in want:
            if not os.path.exists(os.path.join(lout, w)):
                return V.Violation(case, 'the output %s is missing' % w)
            if not grc and not os.path.exists(os.path.join(lgoogle, w)):
                raise B.BuildError('the model of outputs is wrong: %s %s' % (w, case))
        st.count('layouts_as_google', not grc)
        ns = cpp(fs[0].pkg)
        asserts = []
        for f in fs:
            for k, (sc, _, sp) in enumerate(f.refs):
                asserts.append('static_assert(std::is_same_v<vt_c::un_t<decltype(%s::%s::f%d)>, %s::%s>);' % (ns, sc[0], k, ns, sp))
        head = '\n'.join('#include "%s"' % w for w in want if w.endswith('.h'))
        return case, want, head + '\n' + '\n'.join(asserts), '\n'.join('#include "%s"' % w for w in want if w.endswith('.cc'))

    def missing(i):
        """one file of a chain does not exist"""
        k, gone, name = i
        fs = [File('m%d_%d.proto' % (k, j), ('m',)) for j in range(4)]
        base = os.path.join(work, 'ms%d' % k)
        mout = os.path.join(work, 'mo%d' % k)
        os.makedirs(mout)
        for j, f in enumerate(fs):
            f.types = [(('M%d_%d' % (k, j),), 'm')]
            if j:
                f.imports = [(('', 'public')[k & 1], fs[j - 1] if j - 1 != gone else name or fs[j - 1])]
            if j != gone:
                put(base, f.path, f.text())
        os.makedirs(os.path.join(base, 'd'))
        for j, f in enumerate(fs):
            if j == gone:
                continue
            rc, txt = V.call([b.protoc, '-I', base, '--cpp_out=' + mout, os.path.join(base, f.path)])
            ok = os.path.exists(os.path.join(mout, pb_path(f.path)))
            if (rc == 0) != (j < gone) or ok != (j < gone) or (rc and not txt.strip()) or rc is None or rc < 0:
                return V.Violation('chain of imports, %s of file %d is missing: %s' % (name, gone, f.text()), 'exit %s, output %s: %s' % (rc, ok, txt[-300:]))

    def search(i):
        """t.proto and u.proto in any of three directories, t imports u: the first directory of the command line wins"""
        k, (tin, uin, order, sub, form) = i
        base, sout = os.path.join(work, 'se%d' % k), os.path.join(work, 'so%d' % k)
        os.makedirs(sout)
        os.makedirs(os.path.join(base, 'own'))
        for x in 'abc':
            os.makedirs(os.path.join(base, x, sub))
            if x in tin:
                put(os.path.join(base, x), sub + 't.proto', 'syntax = "proto2"; package t%s; import public "%su.proto"; message T { optional int32 x = 1; }' % (x, sub))
            if x in uin:
                put(os.path.join(base, x), sub + 'u.proto', 'syntax = "proto2"; package u%s; message U { optional int32 x = 1; }' % x)
        t = next((x for x in order if x in tin), '')
        u = next((x for x in order if x in uin), '')
        flags = []
        for x in ('own',) + order:
            d = os.path.join(base, x)
            flags += [['-I', d], ['-I' + d], ['--proto_path=' + d], ['-I', d + '/']][form]
        case = 'search of directories %s, t.proto in %s, u.proto in %s, below "%s", form %d' % (''.join(order), ''.join(tin), ''.join(uin), sub, form)
        if t and u and t in uin and t != u:
            return case, 'own'  # next to the file which imports it: spb-protoc looks there first
        n = 0
        for ref in ['t%s.T' % x for x in 'abc'] + ['u%s.U' % x for x in 'abc']:
            m = put(os.path.join(base, 'own'), 'm%d.proto' % n, 'syntax = "proto2"; package m; import "%st.proto"; message M { optional %s r = 1; }' % (sub, ref))
            want = bool(t and u and ref in ('t%s.T' % t, 'u%s.U' % u))
            n += 1
            if form == 0:
                grc, gtxt = V.call(['protoc'] + flags + ['--cpp_out=' + sout, m])
                if (grc == 0) != want:
                    raise B.BuildError('the model of the search is wrong: %s %s %s' % (case, ref, gtxt))
            rc, txt = V.call([b.protoc] + flags + ['--cpp_out=' + sout, m])
            if rc is None or rc < 0 or (rc == 0) != want or (rc and not txt.strip()):
                return V.Violation(case + ', a field of type ' + ref, '%s (exit %s %s)' % ('has to be refused' if not want else 'has to be accepted', rc, txt[-300:]))
        return case, (t, u)

    configs = list(scopes(thorough)) + list(dags(thorough)) + list(ladders())
    if only is not None:
        configs = [c for c in configs if c.case() == only] if not only.isdigit() else [configs[int(only)]]
    units, full, odd, luts, lfull = [], [], [], [], []
    inc = ['-I', out, '-include', put(work, 'head.hpp', '#pragma once\n' + HEAD)]
    try:
        for c, r in zip(configs, V.pmap(verdict, configs)):
            st.evaluations += 1
            st.transitions += len(c.files) + len(c.bad)
            st.validated += len(c.files[-1].refs) + len(c.bad)
            st.state(c.case())
            st.count(c.kind)
            st.sample(c.case())
            if isinstance(r, V.Violation):
                raise r
            units.append((c.case(), r[0]))
            if c.kind != 'ladders':
                full.append((c.case(), '\n'.join(r[1])))
            odd += r[2]
        lays = list(layouts(lroot)) if only is None else []
        exist = []
        for vf, r in zip(lays, V.pmap(layout, lays)):
            st.evaluations += 1
            st.transitions += 3
            st.count('layouts')
            if isinstance(r, V.Violation):
                raise r
            st.state(r[0])
            st.outcome(vf[0])
            exist += r[1]
            luts.append((r[0], r[2]))
            lfull.append((r[0], r[3]))
        if lays:
            there = {os.path.relpath(os.path.join(d, f), lout) for d, _, fs in os.walk(lout) for f in fs}
            if there != set(exist):
                raise V.Violation('all layouts', 'outputs which belong to no file: ' + ' '.join(sorted(there - set(exist))[:5]))
        subsets = [c for n in range(4) for c in itertools.combinations('abc', n)]
        orders = [c for n in (1, 2, 3) for c in itertools.permutations('abc', n)]
        found = [(tin, uin, order, sub, form) for tin in subsets for uin in subsets for order in orders for sub, form in ((('', 0), ('d/', 1), ('', 2), ('d/e/', 0), ('d/', 3)) if thorough else (('', 0), ('d/', 2)))]
        for r in V.pmap(search, list(enumerate(found)) if only is None else []):
            st.evaluations += 1
            st.transitions += 6
            if isinstance(r, V.Violation):
                raise r
            st.state(r[0])
            st.outcome(r[1])
            st.count('searches_own' if r[1] == 'own' else 'searches')
        gone = list(enumerate(itertools.product((0, 1, 2), ('', 'd', 'd/', 'none/m.proto', ' ', 'm.prot', '../m.proto', '/m.proto'), (0, 1))))
        for r in V.pmap(missing, [(k, g, nm) for k, (g, nm, _) in gone] if only is None else []):
            st.evaluations += 1
            st.transitions += 3
            st.count('missing')
            if r:
                raise r
        print('%.0f s: %d units, %d odd' % (time.time() - t0, len(units), len(odd)))
        for (case, _), (rc, txt) in zip(odd, V.pmap(lambda u: V.syntax(put(work, 'odd/%s.cc' % hashlib.md5(u[0].encode()).hexdigest(), u[1]), inc), odd)):
            if rc == 0:
                raise V.Violation(case, 'a reference which means nothing is accepted')
        V.batch_compile(work, 'u', units, inc, 60)
        print('%.0f s headers' % (time.time() - t0))
        st.transitions += len(units)
        linc = ['-I', lout] + inc[2:]
        V.batch_compile(work, 'l', luts, linc, 60)
        V.batch_compile(work, 'm', lfull if thorough else lfull[::5], linc, 12)
        st.transitions += len(lfull)
        if not thorough:
            full = full[::7]
        V.batch_compile(work, 'f', full, inc, 12)
        print('%.0f s full' % (time.time() - t0))
    except V.Violation as e:
        st.write(evidence, prop, tier, RULE, t0, 1)
        return violation(prop, tier, e.case, e.what)
    st.write(evidence, prop, tier, RULE, t0, 0)
    return 0


RULE = ('two files: 7 x 7 packages, messages, enums and nested types of the imported file, every spelling from two scopes, types of the same names and the other kind '
        'in own, enclosing, imported, indirectly and publicly imported scopes; every graph of imports and public imports over 4 files in 3 package schemes; ladders up to 120 deep; '
        'directories x equal file names x 11 command lines; two files in any subset of three directories x every order of -I; missing files. model: scopes and visibility, validated against protoc for every set; '
        'every header is compiled with an assertion of the type of each field, a part of the sources as well')
