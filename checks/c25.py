"""C25: options select exactly the declared C++ types: the innermost level decides, in every notation, and nothing else
changes; int types and bit fields are accepted iff they hold the values; packed and syntax select the encoding."""
import itertools, os, sys, time
import build as B
sys.path.insert(0, os.path.join(B.ROOT, 'lib'))
import vt_py as V

TYPES_HPP = '''#pragma once
#include <cstddef>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <vector>
namespace vt_o {
template <class T, int L> struct opt : std::optional<T> { using std::optional<T>::optional; };
template <class T, int L> struct vec : std::vector<T> { using std::vector<T>::vector; };
template <class T, int L> struct str : std::string { using std::string::string; };
template <class T, int L> struct byt : std::vector<T> { using std::vector<T>::vector; };
template <class T, int L> struct ptr : std::unique_ptr<T> { using std::unique_ptr<T>::unique_ptr; };
template <class K, class T, int L> struct map : std::map<K, T> { using std::map<K, T>::map; };
}
'''
OPTS = {'optional': ('opt<$,%d>', 'std::optional<%s>'), 'repeated': ('vec<$,%d>', 'std::vector<%s>'),
        'string': ('str<$,%d>', 'std::string'), 'bytes': ('byt<$,%d>', 'std::vector<std::byte>'),
        'pointer': ('ptr<$,%d>', 'std::unique_ptr<%s>'), 'map': ('map<$,@,%d>', 'std::map<%s>')}
ENUM_OF = {1: 'int8', 2: 'uint8', 3: 'int16'}
NAMES = {1: '(spb_fileopt)', 2: '(spb_msgopt)', 3: '(spb_opt)'}
NOTES = 4


class Opt:
    """the option `key` set at some levels; level -> notation"""

    def __init__(self, key, levels, tag=0):
        self.key, self.levels, self.tag = key, levels, tag

    def value(self, level):
        if self.key == 'enum':
            return ENUM_OF[level]
        return 'vt_o::' + OPTS[self.key][0] % (level + 10 * self.tag)

    def inner(self, *levels):
        return next((l for l in levels if l in self.levels), 0)

    def ctype(self, level, *t):
        if not level:
            d = OPTS[self.key][1]
            return d % ', '.join(t) if '%s' in d else d
        r = self.value(level).replace('$', t[0])
        return r.replace('@', t[1]) if len(t) > 1 else r


def assigns(opts, level, note):
    return [(o.key if (o.key, level) != ('enum', 3) else 'type', o.value(level)) for o in opts if o.levels.get(level) == note]


def statement(opts, level, where):
    """text of the options of a level; where: before, inside (first), field"""
    name = NAMES[level] if not (level == 3 and opts and opts[0].key == 'enum') else '(spb_enumopt)'
    out = ''
    for note in range(NOTES):
        a = assigns(opts, level, note)
        if not a:
            continue
        if note == 0 and where == 'after':
            out += ' // a ' + ' '.join('[[ %s.%s = "%s" ]]' % (name, k, v) for k, v in a)
        if note == 0 and where == 'before':
            out += ''.join('//[[ %s.%s = "%s" ]]\n' % (name, k, v) for k, v in a)
        if note == 1 and where == 'before':
            out += '/* text %s */\n' % ' and '.join('[[%s.%s="%s"]]' % (name, k, v) for k, v in a)
        if note == 2 and where == 'inside':
            out += ''.join('option %s.%s = "%s";\n' % (name, k, v) for k, v in a)
        if note == 3 and where == 'inside':
            out += 'option %s = { %s };\n' % (name, ', '.join('%s: "%s"' % x for x in a))
        if note == 2 and where == 'inline':
            out += ', '.join('%s.%s = "%s"' % (name, k, v) for k, v in a)
        if note == 3 and where == 'inline':
            out += (', ' if out else '') + '%s = { %s }' % (name, ', '.join('%s: "%s"' % x for x in a))
    return out


def brackets(opts, *more):
    t = ', '.join([x for x in (statement(opts, 3, 'inline'),) + more if x])
    return ' [%s]' % t if t else ''


def levels_config(name, opts):
    """one file: every field of interest at every distance from the options; text, asserts"""
    P = '::' + name
    by = {o.key: o for o in opts}

    def lab(key, lv, *t):
        return by[key].ctype(by[key].inner(*lv), *t) if key in by else OPTS[key][1] % ', '.join(t)

    def leaf(kind, lv):
        if kind in ('string', 'bytes'):
            return by[kind].ctype(by[kind].inner(*lv), 'char' if kind == 'string' else 'std::byte') if kind in by else OPTS[kind][1]
        return {'int32': 'int32_t', 'double': 'double'}[kind]

    M, X = (2, 1), (1,)
    asserts = []
    text = 'syntax = "proto2";\n' + statement(opts, 1, 'before') + 'package %s;\noption (spb_fileopt).include = "<vt_o.hpp>";\n' % name
    text += statement(opts, 1, 'inside')

    trailing = int(name.lstrip('lfab')) % 2   # comments with options of fields: before or behind the field

    def before(use):
        return statement([o for o in use if not (trailing and o.levels.get(3) == 0)], 3, 'before')

    def after(use):
        return statement(use if trailing else [], 3, 'after')

    def fields(path, lv, with_field):
        """fields of a message; lv: levels for a field without options"""
        out = ''
        n = itertools.count(1)
        for kind in ('int32', 'string', 'bytes', 'double'):
            for l in ('optional', 'repeated', 'required'):
                for own in ((0, 1) if with_field else (0,)):
                    if own and not ({'int32': ()}.get(kind, (kind,)) + (l,) and [k for k in by if k in (kind, l)]):
                        continue
                    use = [o for o in opts if o.key in (kind, l)] if own else []
                    v = (3,) + lv if own else lv
                    nm = 'f%d' % next(n)
                    out += before(use) + ' %s %s %s = %s%s;%s\n' % (l, kind, nm, nm[1:], brackets(use), after(use))
                    t = leaf(kind, v)
                    if l != 'required':
                        t = lab(l, v, t)
                    asserts.append('static_assert(std::is_same_v<decltype(%s::%s), %s>);' % (path, nm, t))
        for own in ((0, 1) if with_field and 'map' in by else (0,)):
            use = [by['map']] if own else []
            nm = 'm%d' % next(n)
            out += before(use) + ' map<string, bytes> %s = %s%s;%s\n' % (nm, nm[1:], brackets(use), after(use))
            t = by['map'].ctype(by['map'].inner(*((3,) + lv if own else lv)), leaf('string', lv), leaf('bytes', lv)) if 'map' in by else 'std::map<%s, %s>' % (leaf('string', lv), leaf('bytes', lv))
            asserts.append('static_assert(std::is_same_v<decltype(%s::%s), %s>);' % (path, nm, t))
        a, b, c = next(n), next(n), next(n)
        use = [o for o in opts if o.key == 'string'] if with_field else []
        out += ' oneof o {\n' + before(use) + '  string oa = %d%s;%s\n  bytes ob = %d;\n  string oc = %d;\n }\n' % (a, brackets(use), after(use), b, c)
        asserts.append('static_assert(std::is_same_v<decltype(%s::o), std::variant<std::monostate, %s, %s, %s>>);' % (
            path, leaf('string', (3,) + lv if use else lv), leaf('bytes', lv), leaf('string', lv)))
        nm = path.split('::')[-1]
        for own in ((0, 1) if with_field and 'pointer' in by else (0,)):
            use = [by['pointer']] if own else []
            q = 'p%d' % next(n)
            out += before(use) + ' optional %s %s = %s%s;%s\n' % (nm, q, q[1:], brackets(use), after(use))
            asserts.append('static_assert(std::is_same_v<decltype(%s::%s), %s>);' % (path, q, lab('pointer', (3,) + lv if own else lv, path)))
        return out

    def enums(path, lv, own):
        if 'enum' not in by:
            return ''
        out = ''
        for i, has in enumerate((0, 1) if own else (0,)):
            use = opts if has else []
            nm = 'E%s%d' % (path.split('::')[-1], i)
            st = statement(use, 3, 'before') + ' enum %s {\n%s  V%s = 0; }\n' % (nm, statement(use, 3, 'inside'), nm)
            out += st
            lvl = by['enum'].inner(*((3,) + lv if has else lv))
            asserts.append('static_assert(std::is_same_v<std::underlying_type_t<%s::%s>, %s_t>);' % (path, nm, ENUM_OF.get(lvl, 'int32')))
        return out

    text += enums(P, X, True)
    text += 'message Z {\n' + fields(P + '::Z', X, False) + '}\n'
    text += statement(opts, 2, 'before') + 'message A {\n' + statement(opts, 2, 'inside') + enums(P + '::A', M, True)
    text += ' message N {\n' + fields(P + '::A::N', X, False) + enums(P + '::A::N', X, True) + ' }\n'
    text += fields(P + '::A', M, True) + '}\n'
    text += 'message B {\n' + fields(P + '::B', X, True) + enums(P + '::B', X, False) + '}\n'
    return text, asserts


def level_choices(top=3):
    return [dict((l, n) for l, n in zip(range(1, top + 1), c) if n is not None) for c in itertools.product([None] + list(range(NOTES)), repeat=top)]


INTS = {'int32': ('i', 32), 'sint32': ('i', 32), 'sfixed32': ('i', 32), 'uint32': ('u', 32), 'fixed32': ('u', 32),
        'int64': ('i', 64), 'sint64': ('i', 64), 'sfixed64': ('i', 64), 'uint64': ('u', 64), 'fixed64': ('u', 64)}
NARROW = {'%sint%d' % (u, w): ('u' if u else 'i', w) for u in ('', 'u') for w in (8, 16, 32, 64)}
CXX = {'float': 'float', 'double': 'double', 'bool': 'bool', 'string': 'std::string', 'bytes': 'std::vector<std::byte>'}


def int_configs():
    """declared type x selected type x label x bits: is it accepted, and what is it then"""
    for t in list(INTS) + list(CXX):
        for n in list(NARROW) + ['foo', 'int', 'INT8', 'int128', 'uint', 'bool', 'float', 'string', 'int8_t', ' int8', 'int8 ', 't']:
            for l in ('required', 'optional', 'repeated', 'oneof', 'packed'):
                if l == 'packed' and t not in INTS:
                    continue
                ok = t in INTS and n in NARROW and INTS[t][0] == NARROW[n][0] and NARROW[n][1] <= INTS[t][1]
                yield t, n, l, None, ok
            w = NARROW.get(n, ('', 8))[1]
            for bits in sorted({0, 1, 2, w - 1, w, w + 1, 100}):
                ok = t in INTS and n in NARROW and INTS[t][0] == NARROW[n][0] and NARROW[n][1] <= INTS[t][1]
                yield t, n, 'required', bits, ok and 1 <= bits <= w
            for l in ('optional', 'repeated', 'packed'):
                if t in INTS:
                    yield t, n, l, 1, False


def rejects():
    """values of options which mean nothing"""
    f = 'message M { %s int32 f = 1 [%s]; }'
    for o in ('packed', 'deprecated'):
        for v in ('1', '0', '"yes"', 'maybe', '"TRUE"', 'True', '1.0'):
            yield f % ('repeated', '%s = %s' % (o, v))
    for o in ('(spb_opt).max_size', '(spb_opt).max_count', '(nanopb).max_size', '(nanopb).max_count', '(nanopb).max_length'):
        for v in ('-1', '4294967296', '"x"', 'abc', '99999999999999999999'):
            yield f % ('repeated', '%s = %s' % (o, v))
    for v in ('foo', 'int64', 'uint64', 'int', 'uint32', 'bool', 'int8_t', 'INT8', ' int8', 'int8:3', 'int128'):
        yield 'enum E { option (spb_enumopt).type = "%s"; V = 0; }' % v
        yield '//[[ (spb_enumopt).type = "%s" ]]\nenum E { V = 0; }' % v
        yield 'option (spb_fileopt).enum = "%s"; enum E { V = 0; }' % v
        yield 'message M { option (spb_msgopt).enum = "%s"; enum E { V = 0; } }' % v


WIRE = {'int32': '01', 'int64': '01', 'uint32': '01', 'uint64': '01', 'sint32': '02', 'sint64': '02', 'bool': '01', 'E': '01',
        'fixed32': '01000000', 'sfixed32': '01000000', 'fixed64': '0100000000000000', 'sfixed64': '0100000000000000',
        'float': '0000803f', 'double': '000000000000f03f', 'string': None, 'bytes': None}
KEY = {'fixed32': 5, 'sfixed32': 5, 'float': 5, 'fixed64': 1, 'sfixed64': 1, 'double': 1}
PACK = [None, 'packed = true', 'packed = false', 'deprecated = false, packed = true', 'packed = false, json_name = "x%d"', 'packed=true,(spb_opt).max_count=9',
        '(spb_opt).max_count = 9, packed=false']


def packed_file(name, syntax, imports=()):
    """all types x all notations of packed; returns text, program"""
    t = 'syntax = "%s";\npackage %s;\n%senum E { Z = 0; O = 1; }\n' % (syntax, name, ''.join('import "%s";\n' % i for i in imports))
    prog = []
    for pi, p in enumerate(PACK):
        body, sets, want = '', '', b''
        for i, ty in enumerate(WIRE):
            n = i + 1
            opt = p if WIRE[ty] is not None or not p else p.replace('packed = true', 'deprecated = false').replace('packed=true', 'deprecated=false').replace('packed = false', 'deprecated = false').replace('packed=false', 'deprecated=false')
            if opt and opt.count('deprecated') > 1:
                opt = 'deprecated = false'
            if opt and '%d' in opt:
                opt = opt % i
            body += ' repeated %s f%d = %d%s;\n' % (ty, i, n, ' [%s]' % opt if opt else '')
            if ty == 'string':
                sets += ' m.f%d = {"a", "b"};\n' % i
                want += bytes([n << 3 | 2, 1, 97, ]) + bytes([n << 3 | 2, 1, 98]) if n < 16 else b''.join(bytes([(n << 3 | 2) & 127 | 128, n >> 4, 1, c]) for c in b'ab')
                continue
            if ty == 'bytes':
                sets += ' m.f%d = {{std::byte(97)}, {std::byte(98)}};\n' % i
                want += b''.join((bytes([n << 3 | 2]) if n < 16 else bytes([(n << 3 | 2) & 127 | 128, n >> 4])) + bytes([1, c]) for c in b'ab')
                continue
            sets += ' m.f%d = {%s};\n' % (i, 'E::O, E::O' if ty == 'E' else 'true, true' if ty == 'bool' else '1, 1')
            v = bytes.fromhex(WIRE[ty])
            packed = syntax == 'proto3' if not p or 'packed' not in p else 'true' in p.split('packed')[1][:8]
            key = lambda w: bytes([n << 3 | w]) if n < 16 else bytes([(n << 3 | w) & 127 | 128, n >> 4])
            want += key(2) + bytes([2 * len(v)]) + v + v if packed else (key(KEY.get(ty, 0)) + v) * 2
        t += 'message P%d {\n%s}\n' % (pi, body)
        prog.append('static bool t_%s_%d = [] { using namespace %s; P%d m;\n%s return vt_check("%s %s", spb::pb::serialize<std::string>(m), std::string("%s", %d)); }();' % (
            name, pi, name, pi, sets, syntax, (p or '').replace('"', "'"), ''.join('\\%03o' % c for c in want), len(want)))
    return t, '\n'.join(prog)


def main(prop, tier, evidence, work, only, violation):
    t0 = time.time()
    thorough = tier == 'thorough'
    b = B.Build(prop)
    b.build_protoc(('-O1',))
    st = V.Stats()
    root, out, inc = [os.path.join(work, x) for x in ('s', 'o', 'inc')]
    for d in (root, out, inc):
        os.makedirs(d)
    with open(os.path.join(inc, 'vt_o.hpp'), 'w') as h:
        h.write(TYPES_HPP)
    flags = ['-I', out, '-I', inc]

    def spb(name, text):
        path = os.path.join(root, name + '.proto')
        with open(path, 'w') as h:
            h.write(text)
        return V.call([b.protoc, '-I', root, '--cpp_out=' + out, path])

    def case(text):
        return ' '.join(text.split())

    jobs = []   # (name, text, accept, header text, source)
    k = itertools.count()
    for key in list(OPTS) + ['enum']:
        for levels in level_choices():
            jobs.append(('l%d' % next(k), [Opt(key, levels)]))
    # two options at once
    for k1, k2 in itertools.combinations(list(OPTS), 2):
        for c1 in level_choices():
            for c2 in level_choices():
                if not c1 or not c2 or len(c1) + len(c2) > 3:
                    continue
                if any(a in c2 and (n > 1) != (c2[a] > 1) for a, n in c1.items()):
                    continue
                if not thorough and (sum(c1.values()) + 2 * sum(c2.values()) + len(c1)) % 4:
                    continue
                jobs.append(('l%d' % next(k), [Opt(k1, c1), Opt(k2, c2, 1)]))
    units, sources, programs = [], [], []

    def level_job(j):
        name, opts = j
        text, asserts = levels_config(name, opts)
        rc, o = spb(name, text)
        if rc:
            return V.Violation(case(text), 'refused (%s): %s' % (rc, o[-300:]))
        return case(text), '#include "%s.pb.h"\n#include <variant>\n%s' % (name, '\n'.join(asserts)), '#include "%s.pb.cc"' % name

    def int_job(ij):
        i, (t, n, l, bits, ok) = ij
        name = 'i%d' % i
        decl = {'oneof': 'oneof o { %s f = 1%s; }', 'packed': 'repeated %s f = 1%s;'}.get(l, l + ' %s f = 1%s;')
        v = n + (':%d' % bits if bits is not None else '')
        note = i % 3
        opt = ['(spb_opt).type = "%s"', '(spb_opt) = {type: "%s"}', '(spb_opt).type="%s"'][note] % v
        text = 'syntax = "proto2";\npackage %s;\nmessage M {\n' % name
        inline = (['packed = true'] if l == 'packed' else []) + ([opt] if note < 2 or l == 'oneof' else [])
        if note == 2 and l != 'oneof':
            text += '//[[%s]]\n' % opt
        text += ' ' + decl % (t, ' [%s]' % ', '.join(inline) if inline else '') + '\n int32 after = 2;\n}\n'.replace(' int32', ' optional int32')
        rc, o = spb(name, text)
        if rc is None or rc < 0 or rc > 120:
            return V.Violation(case(text), 'crash or hang: ' + o[-300:])
        if (rc == 0) != ok:
            return V.Violation(case(text), ('an int type which cannot hold the values is accepted' if rc == 0 else 'refused: ' + o[-300:]))
        if rc:
            return case(text), None, None, None
        c = n + '_t'
        ty = {'optional': 'std::optional<%s>', 'repeated': 'std::vector<%s>', 'packed': 'std::vector<%s>', 'oneof': 'std::variant<std::monostate, %s>', 'required': '%s'}[l] % c
        h = '#include "%s.pb.h"\nstatic_assert(std::is_same_v<decltype(%s::M::%s), %s>);\nstatic_assert(std::is_same_v<decltype(%s::M::after), std::optional<int32_t>>);' % (name, name, 'o' if l == 'oneof' else 'f', ty, name)
        if bits is not None:
            hi = (1 << (bits - (NARROW[n][0] == 'i'))) - 1
            full = bits == NARROW[n][1]
            h += '\nconstexpr bool t_%s() { ::%s::M m{}; m.f = static_cast<%s>(%dULL); if (m.f != static_cast<%s>(%dULL)) return false; ' % (name, name, c, hi, c, hi)
            if not full:  # one more does not fit
                h += 'm.f = static_cast<%s>(%dULL); if (m.f == static_cast<%s>(%dULL)) return false; ' % (c, hi + 1, c, hi + 1)
            h += 'return true; }\nstatic_assert(t_%s());' % name
        return case(text), h, '#include "%s.pb.cc"' % name, None

    def reject_job(ij):
        i, body = ij
        text = 'syntax = "proto2";\npackage r%d;\n%s\n' % (i, body)
        rc, o = spb('r%d' % i, text)
        if rc is None or rc <= 0 or rc > 120 or not o.strip():
            return V.Violation(case(text), 'the value of the option means nothing, but it is not refused (%s) %s' % (rc, o[-200:]))
        return case(text), None, None, None

    try:
        for how, fn, items in (('levels', level_job, jobs), ('ints', int_job, list(enumerate(int_configs()))), ('rejects', reject_job, list(enumerate(rejects())))):
            for it, r in zip(items, V.pmap(fn, items)):
                st.evaluations += 1
                st.transitions += 1
                st.count(how)
                if isinstance(r, V.Violation):
                    raise r
                st.state(r[0])
                st.sample(r[0])
                st.outcome((how, r[1] is not None))
                if r[1]:
                    st.validated += r[1].count('static_assert')
                    units.append((r[0], r[1]))
                    sources.append((r[0], r[2]))
        # files: the options and the syntax of a file do not reach another one
        fnum = itertools.count()
        for key in list(OPTS) + ['enum']:
            for la, lb in itertools.product((None, 0, 1, 2, 3), repeat=2):
                i = next(fnum)
                na, nb = 'fa%d' % i, 'fb%d' % i
                tb, ab = levels_config(nb, [Opt(key, {} if lb is None else {1: lb}, 1)])
                ta, aa = levels_config(na, [Opt(key, {} if la is None else {1: la}, 2)])
                ta = ta.replace('package %s;' % na, 'package %s;\nimport %s"%s.proto";' % (na, 'public ' if i % 2 else '', nb))
                for nm, tx in ((nb, tb), (na, ta)):
                    rc, o = spb(nm, tx)
                    if rc:
                        raise V.Violation(case(tb + ta), 'refused (%s): %s' % (rc, o[-300:]))
                st.evaluations += 1
                st.transitions += 2
                st.count('files')
                st.state(tb + ta)
                st.validated += len(aa) + len(ab)
                units.append((case(tb + ta), '#include "%s.pb.h"\n#include <variant>\n%s' % (na, '\n'.join(aa + ab))))
        text, prog = [], []
        for i, (sa, sb) in enumerate(itertools.product(('proto2', 'proto3'), repeat=2)):
            for nm, sy, im in (('pb%d' % i, sb, ()), ('pa%d' % i, sa, ('pb%d.proto' % i,))):
                tx, pr = packed_file(nm, sy, im)
                rc, o = spb(nm, tx)
                if rc:
                    raise V.Violation(case(tx), 'refused (%s): %s' % (rc, o[-300:]))
                text.append(case(tx))
                prog.append((case(tx), '#include "%s.pb.cc"\n%s' % (nm, pr)))
                st.evaluations += len(PACK) * len(WIRE)
                st.validated += len(PACK)
                st.count('packed', len(PACK) * len(WIRE))
                st.state(tx)
        helper = os.path.join(work, 'check.hpp')
        with open(helper, 'w') as h:
            h.write('#pragma once\n#include <string>\n#include <cstdio>\n#include <cstdlib>\ninline bool vt_check(const char *what, const std::string &a, const std::string &b) { if (a == b) return true; '
                    'printf("FAIL %s: ", what); for (unsigned char c : a) printf("%02x", c); printf(" instead of "); for (unsigned char c : b) printf("%02x", c); puts(""); fflush(stdout); _Exit(1); }\n')
        V.batch_programs(work, 'p', prog, flags + ['-include', helper], 2)
        print('%.0f s packed' % (time.time() - t0))
        V.batch_compile(work, 'u', units, flags, 40)
        print('%.0f s headers' % (time.time() - t0))
        sources = [s for i, s in enumerate(s for s in sources if 'vt_o::ptr' not in s[0]) if i % (3 if thorough else 29) == 0]  # (the library has no custom pointers)
        V.batch_compile(work, 'c', sources, flags, 6)
        st.transitions += len(units) + len(sources) + len(prog)
        st.count('headers_compiled', len(units))
        st.count('sources_compiled', len(sources))
    except V.Violation as e:
        st.write(evidence, prop, tier, RULE, t0, 1)
        return violation(prop, tier, e.case, e.what)
    st.write(evidence, prop, tier, RULE, t0, 0)
    return 0


RULE = ('each container option and enum x all subsets of the levels file/message/field(enum) x 4 notations per level, fields of every kind at every distance; '
        'two options at once; 17 declared types x 20 selected types x labels x bit widths; values which mean nothing; options and syntax of importing and imported files; '
        'packed x types x syntax x place among other options compared byte by byte; types are asserted by the C++ compiler')
