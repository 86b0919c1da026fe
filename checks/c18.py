"""C18: every graph of messages: the compiler accepts it iff a C++ order exists, its output compiles, and every field has
the type which the scoping rules of protobuf give."""
import itertools, os, shutil, sys, time
import build as B
sys.path.insert(0, os.path.join(B.ROOT, 'lib'))
import vt_py as V

LABELS = {'req': 'required', 'opt': 'optional', 'rep': 'repeated', 'map': 'map', 'one': 'oneof'}
HEAD = '''#include <type_traits>
#include <memory>
#include <optional>
#include <vector>
#include <map>
#include <variant>
#include <string>
namespace vt_c {
template <class T> struct un { using type = T; };
template <class T> struct un<std::optional<T>> { using type = T; };
template <class T> struct un<std::unique_ptr<T>> { using type = T; };
template <class T> struct un<std::vector<T>> { using type = T; };
template <class K, class T> struct un<std::map<K, T>> { using type = T; };
template <class T> struct un<std::variant<std::monostate, T, int32_t>> { using type = T; };
template <class T> using un_t = typename un<std::remove_cvref_t<T>>::type;
}
'''


class Schema:
    """tree: list of (path tuple) of messages in declaration order (parents first); edges: (from path, label, spelling)"""

    def __init__(self, name, paths, edges, enums=()):
        self.name, self.paths, self.edges, self.enums = name, paths, edges, list(enums)
        self.pkg = 'P.' + name if len(name) % 2 else name

    def resolve(self, scope, spelling):
        """protobuf: the innermost scope which declares the first component decides"""
        parts = tuple(spelling.split('.'))
        full_pkg = tuple(self.pkg.split('.'))
        types = {full_pkg + p for p in self.paths} | {full_pkg + p for p in self.enums}
        scopes = types | {full_pkg[:i] for i in range(1, len(full_pkg) + 1)}
        s = full_pkg + scope
        while True:
            first = s + parts[:1]
            if first in scopes:
                if len(parts) == 1:
                    if first in types:
                        return first[len(full_pkg):]
                else:
                    return (s + parts)[len(full_pkg):] if s + parts in types else None
            if not s:
                return None
            s = s[:-1]

    def proto(self):
        out = ['syntax = "proto2";', 'package %s;' % self.pkg]
        num = {}

        def emit(p, ind):
            out.append('%smessage %s {' % (ind, p[-1]))
            mine = [(i, e) for i, e in enumerate(self.edges) if e[0] == p]
            early = [x for x in mine if x[0] % 2]
            for group in (early, None, [x for x in mine if not x[0] % 2]):
                if group is None:
                    for c in self.paths:
                        if len(c) == len(p) + 1 and c[:-1] == p:
                            emit(c, ind + ' ')
                    for c in self.enums:
                        if c[:-1] == p and len(c) == len(p) + 1:
                            out.append('%s enum %s { E_%s = 0; }' % (ind, c[-1], '_'.join(c)))
                    continue
                for i, (_, lab, sp) in group:
                    n = num[p] = num.get(p, 0) + 1
                    if lab == 'map':
                        out.append('%s map<int32, %s> f%d = %d;' % (ind, sp, i, n))
                    elif lab == 'one':
                        out.append('%s oneof f%d { %s a%d = %d; int32 b%d = %d; }' % (ind, i, sp, i, n, i, n + 100))
                    else:
                        out.append('%s %s %s f%d = %d;' % (ind, LABELS[lab], sp, i, n))
            out.append(ind + '}')

        for p in self.paths:
            if len(p) == 1:
                emit(p, '')
        for c in self.enums:
            if len(c) == 1:
                out.append('enum %s { E_%s = 0; }' % (c[0], c[0]))
        return '\n'.join(out) + '\n'

    def case(self):
        return ' '.join(self.proto().split())

    def expected(self):
        """'accept', 'reject' (no meaning or no C++ order), 'either' (a limit of the tool, if it is reported)"""
        hard, soft = set(), set()
        either = False
        for p, lab, sp in self.edges:
            t = self.resolve(p, sp)
            if t is None:
                return 'reject'
            if t in self.enums:
                # an enum is complete once its enclosing messages are
                deep = t[:-1]
                c = 0
                while c < min(len(deep), len(p)) and deep[c] == p[c]:
                    c += 1
                if c < len(deep) and c < len(p):
                    hard.add((p[:c], deep[c], p[c]))
                continue
            c = 0
            while c < min(len(t), len(p)) and t[c] == p[c]:
                c += 1
            value = lab in ('req', 'map', 'one')
            if c == len(t):  # itself or an enclosing message
                if value:
                    return 'either'  # infinite, or a container of an incomplete type
                if '.' in sp:
                    either = True
                continue
            if c == len(p):  # nested in the message itself
                continue
            if value or len(t) > c + 1:
                hard.add((p[:c], t[c], p[c]))
            elif '.' in sp:
                soft.add((p[:c], t[c], p[c]))
        def cyclic(es):
            es = set(es)
            while es:
                heads = {(s, b) for s, a, b in es}
                free = {e for e in es if (e[0], e[1]) not in heads}
                if not free:
                    return True
                es -= free
            return False
        if cyclic(hard):
            return 'either'
        if cyclic(hard | soft):
            return 'either'
        return 'either' if either else 'accept'

    def asserts(self, header):
        ns = '::' + self.pkg.replace('.', '::')
        out = ['#include "%s"' % header]
        for i, (p, lab, sp) in enumerate(self.edges):
            t = self.resolve(p, sp)
            out.append('static_assert(std::is_same_v<vt_c::un_t<decltype(%s::%s::f%d)>, %s::%s>);' % (ns, '::'.join(p), i, ns, '::'.join(t)))
        return '\n'.join(out)


def flat(names):
    return [(n,) for n in names]


def graphs(thorough):
    n = [0]

    def mk(paths, edges, enums=()):
        n[0] += 1
        return Schema('g%d' % n[0], paths, edges, enums)

    # two messages, every label on every edge (also to itself)
    AB = flat('AB')
    pairs = list(itertools.product(AB, AB))
    for labs in itertools.product([None, 'req', 'opt', 'rep', 'map', 'one'], repeat=4):
        yield mk(AB, [(a, l, b[0]) for (a, b), l in zip(pairs, labs) if l])
    # three messages without edges to itself
    ABC = flat('ABC')
    pairs = [(a, b) for a in ABC for b in ABC if a != b]
    for labs in itertools.product([None, 'opt', 'rep', 'req'] if thorough else [None, 'opt', 'req'], repeat=6):
        yield mk(ABC, [(a, l, b[0]) for (a, b), l in zip(pairs, labs) if l])
    for labs in itertools.product([None, 'map', 'one', 'rep'] if thorough else [None, 'one', 'rep'], repeat=6):
        if any(l in ('map', 'one') for l in labs):
            yield mk(ABC, [(a, l, b[0]) for (a, b), l in zip(pairs, labs) if l])
    # four messages
    ABCD = flat('ABCD')
    pairs = [(a, b) for a in ABCD for b in ABCD if a != b]
    for labs in itertools.product([None, 'opt'], repeat=12):
        if thorough or sum(map(bool, labs)) <= 6:
            yield mk(ABCD, [(a, l, b[0]) for (a, b), l in zip(pairs, labs) if l])
    if thorough:
        for labs in itertools.product([None, 'req'], repeat=12):
            yield mk(ABCD, [(a, l, b[0]) for (a, b), l in zip(pairs, labs) if l])
    # long chains and cycles in every direction
    for k in (5, 8, 12):
        names = ['M%d' % i for i in range(k)]
        for lab in ('opt', 'rep', 'req', 'map', 'one'):
            for step in (1, -1, 2, 3):
                for closed in (0, 1):
                    es = [((names[i],), lab, names[(i + step) % k]) for i in range(k) if closed or 0 <= i + step < k]
                    yield mk(flat(names), es)
                    if closed:
                        yield mk(flat(names), es[1:] + [(es[0][0], 'opt', es[0][2])])
    # nested: every shape of three messages, every reference by its simple name and by its path
    shapes = [[('A',), ('A', 'B'), ('C',)], [('A',), ('C',), ('C', 'B')], [('A',), ('A', 'B'), ('A', 'C')],
              [('A',), ('A', 'B'), ('A', 'B', 'C')], [('A',), ('B',), ('B', 'C')]]
    for paths in shapes:
        refs = []
        for a in paths:
            for b in paths:
                refs.append((a, b))
        for sp_kind in (0, 1, 2):
            def spell(a, b):
                if sp_kind == 0:
                    return b[-1]
                return '.'.join(b) if sp_kind == 1 else None
            # up to three references
            labs = ('req', 'opt', 'rep', 'one', 'map') if thorough else ('req', 'opt', 'one')
            for k in (1, 2, 3):
                if k == 3 and (sp_kind or not thorough):
                    labs2 = ('req', 'opt') if not sp_kind else ()
                else:
                    labs2 = labs
                for combo in itertools.combinations(refs, k):
                    for ls in itertools.product(labs2, repeat=k):
                        s = mk(paths, [])
                        es = []
                        for (a, b), l in zip(combo, ls):
                            sp = spell(a, b) if sp_kind < 2 else s.pkg + '.' + '.'.join(b)
                            es.append((a, l, sp))
                        s.edges = es
                        yield s
    # the same names in several scopes: which one is meant
    paths = [('X',), ('A',), ('A', 'X'), ('A', 'B'), ('A', 'B', 'Y'), ('B',), ('B', 'Y'), ('Y',)]
    spellings = ['X', 'Y', 'B', 'A.X', 'A.B', 'B.Y', 'A.B.Y', 'A', 'A.Y', 'B.X', 'X.A']
    for drop in [()] + [(p,) for p in paths if not any(q != p and q[:len(p)] == p for q in paths)] + [(('A', 'B', 'Y'), ('A', 'B')), (('B', 'Y'), ('B',)), (('X',), ('Y',)), (('A', 'X'), ('Y',))]:
        ps = [p for p in paths if p not in drop]
        for a in ps:
            for sp in spellings:
                for l in ('req', 'opt', 'rep', 'map', 'one'):
                    yield mk(ps, [(a, l, sp)])
    # enums instead of messages
    for where in ((), ('A',), ('A', 'B'), ('C',)):
        ps = [('A',), ('A', 'B'), ('C',), ('D',)]
        for a in ps:
            for l in ('req', 'opt', 'rep', 'map', 'one'):
                for sp in ('E', '.'.join(where + ('E',))):
                    yield mk(ps, [(a, l, sp)], [where + ('E',)])
                    yield mk(ps, [(('D',), 'req', 'C'), (('A',), 'opt', 'D'), (a, l, sp)], [where + ('E',)])


def main(prop, tier, evidence, work, only, violation):
    t0 = time.time()
    thorough = tier == 'thorough'
    b = B.Build(prop)
    b.build_protoc(('-O1',))
    st = V.Stats()
    all_s = list(graphs(thorough))
    if only is not None:
        all_s = [all_s[int(only)]]
    dirs = os.path.join(work, 's')
    os.makedirs(dirs)

    def run_group(g):
        res = []
        for s in g:
            path = os.path.join(dirs, s.name + '.proto')
            with open(path, 'w') as h:
                h.write(s.proto())
            res.append(V.call([b.protoc, '-I', dirs, '--cpp_out=' + dirs, path]))
        return res

    known = known_cases(prop)
    bad = None
    units, full = [], []
    for g, rs in zip(V.chunks(all_s, 64), V.pmap(run_group, V.chunks(all_s, 64))):
        for s, (rc, out) in zip(g, rs):
            st.evaluations += 1
            st.transitions += 1
            st.validated += 1
            st.state(s.proto().replace(s.name, 'g'))
            want = s.expected()
            st.sample(s.case())
            what = None
            if rc is None or rc < 0 or rc > 120:
                what = 'the compiler ' + ('does not terminate' if rc is None else 'crashes (%d): %s' % (rc, out[-300:]))
            elif rc and want == 'accept':
                what = 'a schema with a valid order is rejected: ' + out[-300:]
            elif rc == 0 and want == 'reject':
                what = 'a reference which does not resolve is accepted'
            elif rc and not out.strip():
                what = 'the schema is rejected without a message'
            header = os.path.join(dirs, s.name + '.pb.h')
            if not what and rc == 0 and not os.path.exists(header):
                what = 'no output'
            if what:
                if s.case() in known:
                    st.known.append(s.case())
                    continue
                bad = V.Violation(s.case(), what)
                break
            st.outcome((want, rc == 0))
            st.count(want if want != 'either' else 'either_' + ('accepted' if rc == 0 else 'rejected'))
            if rc == 0:
                units.append((s.case(), s.asserts(header)))
                if len(s.edges) <= 3 and len(full) < (4000 if thorough else 400) and st.evaluations % (1 if thorough else 7) == 0:
                    full.append((s.case(), '#include "%s"' % os.path.join(dirs, s.name + '.pb.cc')))
        if bad:
            break
    try:
        if bad:
            raise bad
        units[0:0] = []
        head = [('prelude', HEAD)]
        V.batch_compile(work, 'h', units, ['-include', write(os.path.join(work, 'head.hpp'), '#pragma once\n' + HEAD)], 250)
        st.validated += len(units)
        st.transitions += len(units)
        st.count('headers_compiled', len(units))
        V.batch_compile(work, 'cc', full, ['-S', '-o', '/dev/null', '-fno-syntax-only'], 25)
        st.count('sources_compiled', len(full))
        st.transitions += len(full)
    except V.Violation as e:
        st.write(evidence, prop, tier, RULE, t0, 1)
        return violation(prop, tier, e.case, e.what)
    st.write(evidence, prop, tier, RULE, t0, 0)
    return 0


RULE = ('schemas: every graph over 2 messages with every label, over 3 and 4 messages with subsets of the labels, chains and cycles of up to 12, '
        'all nestings of three messages with up to three references in every spelling, equal names in several scopes, enums; model: the scoping rules of protobuf '
        'and the existence of a C++ order; every accepted header is compiled with an assertion of the type of each field, a part of the sources as well')


def write(path, text):
    with open(path, 'w') as h:
        h.write(text)
    return path


def known_cases(prop):
    out = set()
    for l in open(os.path.join(B.ROOT, 'known_findings.txt')):
        p = l.rstrip('\n').split('\t')
        if len(p) == 3 and p[0] == prop:
            out.add(p[1])
    return out
