"""C24: the default value of a field, however it is spelled, is the initial value of the C++ member."""
import os, struct, sys, time
import build as B
sys.path.insert(0, os.path.join(B.ROOT, 'lib'))
import vt_py as V

INTS = {'int32': (-2**31, 2**31 - 1), 'sint32': (-2**31, 2**31 - 1), 'sfixed32': (-2**31, 2**31 - 1), 'int64': (-2**63, 2**63 - 1), 'sint64': (-2**63, 2**63 - 1),
        'sfixed64': (-2**63, 2**63 - 1), 'uint32': (0, 2**32 - 1), 'fixed32': (0, 2**32 - 1), 'uint64': (0, 2**64 - 1), 'fixed64': (0, 2**64 - 1)}
CTYPE = {'int32': 'int32_t', 'sint32': 'int32_t', 'sfixed32': 'int32_t', 'int64': 'int64_t', 'sint64': 'int64_t', 'sfixed64': 'int64_t',
         'uint32': 'uint32_t', 'fixed32': 'uint32_t', 'uint64': 'uint64_t', 'fixed64': 'uint64_t'}


def spell_int(v):
    a, s = abs(v), '-' if v < 0 else ''
    out = ['%s%d' % (s, a), '%s0x%x' % (s, a), '%s0X%X' % (s, a), '%s0x0%x' % (s, a), '%s0%o' % (s, a), '%s00%o' % (s, a)]
    return list(dict.fromkeys(out))


def ints(lo, hi, thorough):
    vals = {0, 1, 7, 8, 9, 10, 63, 64, 100, 127, 128, 255, 256, 32767, 32768, 65535, 65536, hi, hi - 1, lo, lo + 1}
    for b in range(0, 64, 1 if thorough else 8):
        vals |= {(1 << b) - 1, 1 << b, (1 << b) + 1}
    vals |= {-v for v in vals}
    return sorted(v for v in vals if lo <= v <= hi)


FLOATS = ['0', '-0', '0.0', '-0.0', '1', '-1', '7', '10', '1.5', '-1.5', '0.1', '1e3', '1E3', '1e+3', '1e-3', '1.5e3', '-1.5E-3', '1.', '0.', '123456789', '16777217', '16777217.0', '9007199254740993',
          '4294967296', '18446744073709551615', '3.4028234663852886e38', '1.1754943508222875e-38', '1e-40', '1e-45', '1e38', '00', '010', '0x10', '0X1F', '-0x10', '-010', 'inf', '-inf', 'nan', '1e10', '100000000000000000000.0',
          '0.3333333333333333', '2.5e0', '5e-1', '0e0', '0x1e3', '1e22', '123456.789e-2', '-nan']
DOUBLES = FLOATS + ['1.7976931348623157e308', '2.2250738585072014e-308', '5e-324', '1e300', '-1e-300', '0.30000000000000004', '9007199254740992', '9007199254740991.5']


def float_value(t):
    s, u = (-1.0, t[1:]) if t.startswith('-') else (1.0, t)
    if u in ('inf', 'nan'):
        return s * float(u)
    if u.lower().startswith('0x'):
        return s * float(int(u, 16))
    if u.isdigit() and len(u) > 1 and u[0] == '0':
        return s * float(int(u, 8))
    return s * float(u)


ESC = {'a': 7, 'b': 8, 'f': 12, 'n': 10, 'r': 13, 't': 9, 'v': 11, '\\': 92, "'": 39, '"': 34, '?': 63}


def literals(thorough):
    """(text between the quotes as bytes, quote, value)"""
    out = []
    for q in (b'"', b"'"):
        for c in range(1, 256):
            b = bytes([c])
            if b in (q, b'\\', b'\n'):
                continue
            out.append((b, q, b))
            if thorough or c in (34, 39, 47, 63, 91, 93, 59, 123):
                out.append((b'a' + b + b'b' + b + b, q, b'a' + b + b'b' + b + b))
        for e, v in ESC.items():
            for pre, post in ((b'', b''), (b'x', b'y'), (b'', b'0'), (b'', b'n'), (b'\\\\', b'\\n')):
                un = {b'\\\\': b'\\', b'\\n': b'\n'}
                out.append((pre + b'\\' + e.encode() + post, q, un.get(pre, pre) + bytes([v]) + un.get(post, post)))
        for v in range(256):
            forms = [b'\\%03o' % v, b'\\x%02x' % v] + ([b'\\X%02X' % v] if thorough else [])
            if v < 64:
                forms.append(b'\\%o' % v)
            if v < 16:
                forms.append(b'\\x%x' % v)
            for i, f in enumerate(forms):
                for post in (b'', b'g') + ((b'1', b'a') if (len(f) == 4 and (thorough or v % 16 == 1)) else ()):
                    if len(f) == 4 or post in (b'', b'g'):
                        out.append((f + post, q, bytes([v]) + post))
        for u in (0x41, 0x7f, 0x80, 0xe9, 0x7ff, 0x800, 0x20ac, 0xffff, 0x10000, 0x1f600, 0x10ffff):
            if u < 0x10000:
                out.append((b'\\u%04x' % u, q, chr(u).encode()))
            out.append((b'\\U%08x' % u + b'1', q, chr(u).encode() + b'1'))
        for t in (b'//', b'/*', b'*/', b'??=', b'%d', b'$', b'@', b'true', b'[default = 1]', b'; }', '\u20ac\U0001f600'.encode(), b'a' * 300, b' lead', b'trail '):
            out.append((t, q, t))
    return out


def pb_bytes(s):
    return '"' + ''.join('\\%03o' % c for c in s) + '"'


def main(prop, tier, evidence, work, only, violation):
    t0 = time.time()
    thorough = tier == 'thorough'
    b = B.Build(prop)
    b.build_protoc(('-O1',))
    own = os.path.join(work, 'spb-protoc-own')  # where the standard library cannot convert floating point numbers
    b.build_protoc(('-O1', '-include', 'vt_emu.hpp'), own)
    st = V.Stats()
    # (case, field declaration as bytes with NUMBER and NAME, C++ check of the member)
    cases = []

    def add(case, decl, check, pre=b''):
        cases.append((case, pre, decl, check))

    for t, (lo, hi) in INTS.items():
        for v in ints(lo, hi, thorough):
            for s in spell_int(v):
                for lab in ('optional', 'required'):
                    lit = '(%s)%dull' % (CTYPE[t], v % 2**64)
                    add('%s %s %s' % (lab, t, s), ('%s %s NAME = NUMBER [default = %s];' % (lab, t, s)).encode(),
                        'eq(m.NAME, %s)' % lit if lab == 'required' else 'm.NAME && eq(*m.NAME, %s)' % lit)
    for t, spec, lo, hi in (('int32', 'int8', -128, 127), ('uint32', 'uint8', 0, 255), ('int64', 'int16', -2**15, 2**15 - 1), ('sint32', 'int8:4', -8, 7), ('uint64', 'uint16:9', 0, 511), ('sfixed64', 'int32', -2**31, 2**31 - 1), ('fixed32', 'uint8:1', 0, 1)):
        for v in ints(lo, hi, thorough):
            for s in spell_int(v):
                add('%s as %s %s' % (t, spec, s), ('//[[field.type = "%s"]]\nrequired %s NAME = NUMBER [default = %s];' % (spec, t, s)).encode(), '(long long)m.NAME == %dll' % v)
    for t, vals, fmt, ft in (('float', FLOATS, '<f', 'uint32_t'), ('double', DOUBLES, '<d', 'uint64_t')):
        for s in vals:
            v = float_value(s)
            try:
                bits = int.from_bytes(struct.pack(fmt, v), 'little')
            except OverflowError:
                continue
            for lab in ('optional', 'required'):
                m = '*m.NAME' if lab == 'optional' else 'm.NAME'
                chk = 'std::isnan(%s)' % m if v != v else 'std::bit_cast<%s>(%s) == %dull' % (ft, m, bits)
                add('%s %s %s' % (lab, t, s), ('%s %s NAME = NUMBER [default = %s];' % (lab, t, s)).encode(), ('m.NAME && ' if lab == 'optional' else '') + chk)
    for s in ('true', 'false'):
        for lab in ('optional', 'required'):
            add('%s bool %s' % (lab, s), ('%s bool NAME = NUMBER [default = %s];' % (lab, s)).encode(), ('m.NAME && *m.NAME' if lab == 'optional' else 'm.NAME') + ' == %s' % s)
    for ty, cx in (('Top', '::d24::Top'), ('d24.Top', '::d24::Top'), ('Holder.Nested', '::d24::Holder::Nested'), ('Own', 'M::Own')):
        for v in ('ZERO', 'one', 'NEG', 'class', 'max_x'):
            for lab in ('optional', 'required'):
                add('%s enum %s %s' % (lab, ty, v), ('%s %s NAME = NUMBER [default = %s];' % (lab, ty, v)).encode(),
                    ('m.NAME && *m.NAME' if lab == 'optional' else 'm.NAME') + ' == %s::%s' % (cx, 'class_' if v == 'class' else v))
    for text, q, v in literals(thorough):
        for t in ('string', 'bytes'):
            if t == 'string' and b'\0' in v:
                st.count('nul_in_string')
                continue
            for lab in ('optional', 'required'):
                arr = '(const unsigned char[]){%s}, %d' % (','.join(map(str, v)), len(v))
                add('%s %s %s' % (lab, t, (q + text + q).decode('latin1')), b'%s %s NAME = NUMBER [default = %s%s%s];' % (lab.encode(), t.encode(), q, text, q),
                    'm.NAME && raw(*m.NAME, %s)' % arr if lab == 'optional' else 'raw(m.NAME, %s)' % arr)
    # several options of a field in any order, and spaces
    for form in ('[default=5]', '[ default = 5 ]', '[deprecated = true, default = 5]', '[default = 5, deprecated = true]', '[default\n=\n5]', '[default = 5,json_name = "q"]', '[json_name="default",default=5]', '[ctype = CORD, default = 5]', '[jstype=JS_STRING,default=5,deprecated=false]'):
        for lab in ('optional', 'required'):
            add('%s %s' % (lab, form), ('%s int64 NAME = NUMBER %s;' % (lab, form)).encode(), ('m.NAME && *m.NAME' if lab == 'optional' else 'm.NAME') + ' == 5')
    # no default, or the default of another field
    for t in INTS:
        add('none ' + t, ('optional %s NAME = NUMBER;' % t).encode(), '!m.NAME')
        add('none required ' + t, ('required %s NAME = NUMBER;' % t).encode(), 'm.NAME == 0')
    if only is not None:
        cases = [c for c in cases if c[0] == only]
    dirs = os.path.join(work, 's')
    os.makedirs(dirs)
    enum = b'{ ZERO = 0; one = 1; NEG = -3; class = 4; max_x = 2147483647; }'
    head = b'syntax = "proto2";\npackage d24;\nenum Top ' + enum + b'\nmessage Holder { enum Nested ' + enum + b' }\n'

    def text_of(group, pkg):
        return head.replace(b'd24', pkg) + b'message M { enum Own ' + enum + b'\n' + b'\n'.join(
            d.replace(b'd24', pkg).replace(b'NAME', b'f%d' % i).replace(b'NUMBER', b'%d' % (i + 1)) for i, (_, _, d, _) in enumerate(group)) + b'\n}\n'

    def gen(job):
        k, group = job
        path = os.path.join(dirs, 'g%s.proto' % k)
        pkg = b'd24_' + str(k).encode()
        with open(path, 'wb') as h:
            h.write(text_of(group, pkg))
        return path, V.call(['protoc', '-I', dirs, '--descriptor_set_out=/dev/null', path])

    def spb(path):
        return V.call([b.protoc, '-I', dirs, '--cpp_out=' + dirs, path])

    try:
        # which ones are valid protobuf; the invalid ones are found one by one
        good = []
        st.evaluations = len(cases)

        def valid(group, k):
            path, (rc, out) = gen((k, group))
            if rc == 0:
                return group
            if len(group) == 1:
                return []
            h = len(group) // 2
            return valid(group[:h], k + 'a') + valid(group[h:], k + 'b')

        for i, g in enumerate(V.pmap(lambda x: valid(x[1], 'v%d' % x[0]), list(enumerate(V.chunks(cases, 100))))):
            good += g
        st.count('not_protobuf', len(cases) - len(good))
        for c in cases:
            st.state(c[0])
            st.transitions += 1
        for c in good[::997]:
            st.samples.append(c[0])
        st.samples = st.samples[:6]
        units = []
        prelude = os.path.join(work, 'head.hpp')
        with open(prelude, 'w') as h:
            h.write(r'''#pragma once
#include <bit>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <optional>
#include <string>
#include <type_traits>
#include <vector>
namespace vt_t {
template <class A, class B> bool eq(const A &a, const B &b) { static_assert(std::is_same_v<A, B>); return a == b; }
template <class A> bool raw(const A &a, const unsigned char *p, size_t n) { return a.size() == n && memcmp(a.data(), p, n) == 0; }
inline void check(const char *w, bool ok) { if (!ok) { printf("FAIL %s\n", w); exit(1); } }
}
''')

        def accept(job):
            """compile with the compiler under test; on rejection find the culprit"""
            k, group = job
            path, _ = gen(('w' + k, group))
            rc, out = spb(path)
            if rc == 0:
                os.makedirs(path + '.own')
                rc, out = V.call([own, '-I', dirs, '--cpp_out=' + path + '.own', path])
                a, z = [[open(os.path.join(d, os.path.basename(path)[:-6] + e), 'rb').read() for e in ('.pb.h', '.pb.cc') if rc == 0] for d in (dirs, path + '.own')]
                if rc == 0 and a == z:
                    return [(path, group)]
                if len(group) == 1:
                    raise V.Violation(group[0][0], 'spb-protoc with its own conversion of numbers gives other code or refuses: ' + out[-600:])
            if len(group) == 1:
                raise V.Violation(group[0][0], 'a valid default value is rejected: ' + out[-600:])
            h = len(group) // 2
            return accept((k + 'a', group[:h])) + accept((k + 'b', group[h:]))

        def unit(path, group):
            ns = '::d24_' + os.path.basename(path)[1:-6]
            t = '#include "%s.pb.h"\nnamespace vt_t { static const bool ok_%s = [] { %s::M m{}; using M = %s::M;\n' % (path[:-6], os.path.basename(path)[:-6], ns, ns)
            for i, (case, _, _, chk) in enumerate(group):
                t += 'check("%s", %s);\n' % (''.join('\\%03o' % c for c in case.encode('latin1', 'replace')), chk.replace('::d24', ns).replace('NAME', 'f%d' % i))
            return t + 'return true; }(); }\n'

        for parts in V.pmap(accept, [(str(i), g) for i, g in enumerate(V.chunks(good, 60))]):
            for path, group in parts:
                units.append((group[0][0] if len(group) == 1 else '%s ... %s' % (group[0][0], group[-1][0]), unit(path, group)))
        st.count('files', len(units))
        V.batch_programs(work, 'd', units, ['-include', prelude], max(1, (len(units) + 15) // 16))
        st.validated = len(good)
        for c in good:
            st.outcome(c[3][:40])
    except V.Violation as e:
        st.write(evidence, prop, tier, RULE, t0, 1)
        return violation(prop, tier, e.case, e.what)
    st.write(evidence, prop, tier, RULE, t0, 0, ['a string default with a zero byte is not covered'])
    return 0


RULE = ('every scalar type x borders and powers of two x every spelling of an integer (decimal, octal, hexadecimal), floats in all spellings with inf and nan, all enum values by every '
        'spelling of the type, strings and bytes: every byte, every escape sequence in both quotes, x optional/required and narrowed C++ types; the value is compared bit by bit in a '
        'compiled program; protoc decides which schemas are valid; spb-protoc is also built with its own conversion of numbers and has to give the same code')
