"""C20: every identifier of protobuf can be used in every place of a schema: the generated code compiles, the C++ name is the
identifier (with '_' appended if it is a C++ keyword), and the names and numbers on the wire do not change."""
import os, subprocess, sys, time
import build as B
sys.path.insert(0, os.path.join(B.ROOT, 'lib'))
import vt_py as V
from dsl import CPP_KEYWORDS, cpp, camel

# contextual keywords, names which the generated code, the library and the standard library use, keywords of protobuf
GENERATED = '''value stream message tag type buffer key index enum_str enum_hash enum_int enum_value result options on_write
on_read reader writer protobuf Message Container detail spb std pb json io serialize deserialize serialize_value deserialize_value
serialize_value_gen deserialize_value_gen serialize_present serialize_enum serialize_mode field_attributes scalar_encoder encoder
wire_type wire_type_from_tag field_from_tag tag_type skip skip_value sv overloaded djb2_hash deserialize_key deserialize_variant
deserialize_string_or_int ostream_size ostream_writer ostream_buffer istream_reader istream_buffer serialize_size max_size max_count
variant optional vector map string string_view byte bytes int32_t uint32_t int64_t uint64_t int8_t uint8_t size_t monostate get visit
unique_ptr make_unique system_error make_error_code errc array holds_alternative in_place
has_value data size begin end first second emplace reset clear resize push_back insert find at front back'''.split()
CONTEXT = 'final override import module reserved_ transaction_safe audit axiom char_t main linux_ i64 varint string_'.split()
PROTO = '''syntax package option extend extensions extension reserved to max oneof service rpc returns group repeated required int32
int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 inf nan weak edition reserved json_name packed deprecated'''.split()
SHAPES = '''a A aB Ab AB a1 A1 a_ A_ a_b A_B a__b aB_ z9_ x_1 x1y x_1_y_2 snake_case_name camelCaseName MixedCase ALL_CAPS T t M E U f v
abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789_abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ'''.split()
MACROS = ['assert', 'NULL', 'EOF', 'errno', 'stdin', 'unix', 'linux', 'INT_MAX']  # not identifiers for C++: left out


def identifiers():
    out = []
    for n in sorted(CPP_KEYWORDS) + GENERATED + CONTEXT + PROTO + SHAPES:
        if n not in out:
            out.append(n)
    return out


# kind, declaration, test
FIELDS = [
    ('a', 'optional int32 %(n)s = 1;', r"""m.@c = 5; same(m, "\x08\x05", "{\"@n\":5}");"""),
    ('b', 'repeated int32 %(n)s = 1;', r"""m.@c = {5, 6}; same(m, "\x08\x05\x08\x06", "{\"@n\":[5,6]}");"""),
    ('c', 'optional Fx %(n)s = 1;', r"""m.@c.emplace(); m.@c->@c = 5; same(m, "\x0a\x02\x08\x05", "{\"@n\":{\"@n\":5}}");"""),
    ('d', 'map<int32, Fx> %(n)s = 1;', r"""m.@c[3].@c = 5; same(m, "\x0a\x06\x08\x03\x12\x02\x08\x05", "{\"@n\":{\"3\":{\"@n\":5}}}");"""),
    ('e', 'oneof kind_x { Fx %(n)s = 1; int32 other_one = 2; }', r"""m.kind_x.emplace<1>(); std::get<1>(m.kind_x).@c = 5; same(m, "\x0a\x02\x08\x05", "{\"@n\":{\"@n\":5}}");"""),
    ('f', 'oneof %(n)s { int32 one_a = 1; string one_b = 2; }', r"""m.@c.emplace<2>("x"); same(m, "\x12\x01x", "{\"one_b\":\"x\"}");"""),
    ('g', 'optional Fenum %(n)s = 1;', r"""m.@c = @nsFenum::Fone; same(m, "\x08\x01", "{\"@n\":\"Fone\"}");"""),
    ('h', 'required string %(n)s = 1; repeated Fx after_x = 2;', r"""m.@c = "y"; same(m, "\x0a\x01y", "{\"@n\":\"y\"}");"""),
    ('i', 'optional bytes %(n)s = 1 [json_name = "%(n)sX"];', r"""m.@c = std::vector<std::byte>{std::byte(1)}; same(m, "\x0a\x01\x01", "{\"@nX\":\"AQ==\"}");"""),
    ('j', 'repeated double %(n)s = 1 [packed = true];', r"""m.@c = {0}; same(m, std::string("\x0a\x08\0\0\0\0\0\0\0\0", 10), "{\"@n\":[0]}");"""),
    ('k', 'map<string, Fenum> %(n)s = 1;', r"""m.@c["k"] = @nsFenum::Fone; same(m, std::string("\x0a\x05\x0a\x01k\x10\x01", 7), "{\"@n\":{\"k\":\"Fone\"}}");"""),
    ('l', 'optional int32 %(n)s = 1 [default = 4];', r"""if (m.@c != 4) fail("default of @n");"""),
]


def schemas(n, i, thorough):
    """(place, package, text, test) for identifier n"""
    c, j = cpp(n), n

    def pk(place):
        return 'q%d_%s' % (i, place)

    def file(place, body, pkg=None):
        return 'syntax = "proto2";\npackage %s;\n%s' % (pkg or pk(place), body)

    o = []
    # a field of every kind
    p = 'fld'
    ns = '::' + pk(p) + '::'
    kinds = [k for k in FIELDS if thorough or k[0] in 'adf']
    text = 'enum Fenum { Fzero = 0; Fone = 1; }\nmessage Fx { optional int32 %s = 1; }\n' % n
    test = ''
    for k, decl, run in kinds:
        text += 'message F%s { %s }\n' % (k, decl % dict(n=n))
        test += ' { %sF%s m; %s }\n' % (ns, k, run.replace('@ns', ns).replace('@c', c).replace('@n', n))
    o.append((p, file(p, text), test))
    # a message
    p = 'msg'
    ns = '::' + pk(p) + '::'
    q = pk(p) + '.' + n
    o.append((p, file(p, '''message %(n)s { optional int32 val_x = 1; }
message Ua { optional %(q)s fa = 1; oneof kind { %(q)s fe = 5; int32 ff = 6; } %(more)s }
''' % dict(n=n, q=q, more='repeated %s fb = 2; map<int32, %s> fc = 3; required %s fd = 4; optional Ua self_x = 7;' % (q, q, q) if thorough else '')), '''
 {{ {ns}Ua m; m.fa.emplace(); m.fa->val_x = 5; {ns}{c} x; x.val_x = 7; m.kind = x; same(m, "\\x0a\\x02\\x08\\x05\\x2a\\x02\\x08\\x07", "{{\\"fa\\":{{\\"val_x\\":5}},\\"fe\\":{{\\"val_x\\":7}}}}"); }}
'''.format(ns=ns, c=c) if not thorough else '''
 {{ {ns}Ua m; m.fa.emplace(); m.fa->val_x = 5; m.fd.val_x = 6; {ns}{c} x; x.val_x = 7; m.fb.push_back(x); m.fc[1] = x; m.kind = x; if (m.self_x) fail("not empty");
   auto s = spb::pb::serialize<std::string>(m); {ns}Ua r; spb::pb::deserialize(r, s); if (!r.fa || r.fa->val_x != 5 || r.fd.val_x != 6 || r.fb.at(0).val_x != 7 || r.fc.at(1).val_x != 7 || std::get<1>(r.kind).val_x != 7) fail("protobuf");
   s = spb::json::serialize<std::string>(m); {ns}Ua k; spb::json::deserialize(k, s); if (!k.fa || k.fa->val_x != 5 || k.fd.val_x != 6 || k.fb.at(0).val_x != 7 || k.fc.at(1).val_x != 7 || std::get<1>(k.kind).val_x != 7) fail("JSON"); }}
 {{ {ns}{c} m; m.val_x = 5; same(m, "\\x08\\x05", "{{\\"val_x\\":5}}"); }}
'''.format(ns=ns, c=c)))
    # a nested message, used by its simple name where the grammar allows it
    p = 'nst'
    ns = '::' + pk(p) + '::'
    o.append((p, file(p, '''message Na { message %(n)s { optional int32 val_x = 1; } optional %(n)s fa = 1; repeated %(n)s fb = 2; map<int32, %(n)s> fc = 3; }
message Nb { required Na.%(n)s fa = 1; }
message Nc { optional string str_x = 2; message Nd { message %(n)s { optional Na.%(n)s deep_x = 3; } optional %(n)s in_x = 1; } optional Nd.%(n)s out_x = 1; optional bytes byt_x = 3; }
''' % dict(n=n)), '''
 {{ {ns}Na m; m.fa.emplace(); m.fa->val_x = 5; m.fb.emplace_back(); same(m, std::string("\\x0a\\x02\\x08\\x05\\x12\\x00", 6), "{{\\"fa\\":{{\\"val_x\\":5}},\\"fb\\":[{{}}]}}"); }}
 {{ {ns}Nb m; m.fa.val_x = 5; same(m, "\\x0a\\x02\\x08\\x05", "{{\\"fa\\":{{\\"val_x\\":5}}}}"); }}
 {{ {ns}Nc::Nd::{c} m; m.deep_x.emplace(); m.deep_x->val_x = 5; same(m, "\\x1a\\x02\\x08\\x05", "{{\\"deep_x\\":{{\\"val_x\\":5}}}}"); }}
'''.format(ns=ns, c=c)))
    # an enum, nested and not
    p = 'enm'
    ns = '::' + pk(p) + '::'
    q = pk(p) + '.' + n
    o.append((p, file(p, '''enum %(n)s { Ezero = 0; Eone = 1; Eneg = -1; }
message Ea { optional %(q)s fa = 1; repeated %(q)s fb = 2; map<int32, %(q)s> fc = 3; oneof kind { %(q)s fe = 5; int32 ff = 6; } optional string str_x = 7; }
message Eb { enum %(n)s { Nzero = 0; None_ = 1; } optional %(n)s fa = 1; repeated %(n)s fb = 2; optional %(n)s fc = 3 [default = None_]; }
''' % dict(n=n, q=q)), '''
 {{ {ns}Ea m; m.fa = {ns}{c}::Eone; m.fb = {{{ns}{c}::Eneg}}; same(m, "\\x08\\x01\\x10\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\xff\\x01", "{{\\"fa\\":\\"Eone\\",\\"fb\\":[\\"Eneg\\"]}}"); }}
 {{ {ns}Eb m; m.fa = {ns}Eb::{c}::None_; same(m, "\\x08\\x01\\x18\\x01", "{{\\"fa\\":\\"None_\\",\\"fc\\":\\"None_\\"}}"); }}
'''.format(ns=ns, c=c)))
    # a value of an enum
    p = 'val'
    ns = '::' + pk(p) + '::'
    o.append((p, file(p, '''enum Va { %(n)s = 0; Vone = 1; Vneg = -1; }
message Vb { enum Vc { Vzero = 0; %(n)s = 5; } optional Va fa = 1; repeated Vc fb = 2; map<int32, Va> fc = 3; optional Vc fd = 4 [default = %(n)s]; }
''' % dict(n=n)), '''
 {{ {ns}Vb m; m.fa = {ns}Va::{c}; m.fb = {{{ns}Vb::Vc::{c}, {ns}Vb::Vc::Vzero}}; same(m, std::string("\\x08\\x00\\x10\\x05\\x10\\x00\\x20\\x05", 8), "{{\\"fa\\":\\"{n}\\",\\"fb\\":[\\"{n}\\",\\"Vzero\\"],\\"fd\\":\\"{n}\\"}}"); }}
'''.format(ns=ns, c=c, n=n)))
    # a part of the package
    for p, pre, post in (('pkg', '', '.inner'), ('pkl', '', ''), ('pkm', 'outer.', '.inner')):
        pkg = pk(p) + '.' + pre + n + post
        ns = '::' + '::'.join(cpp(x) for x in pkg.split('.')) + '::'
        o.append((p, file(p, '''enum Pe { Pzero = 0; Pone = 1; }
message Pa { optional int32 val_x = 1; optional %(pkg)s.Pe enu_x = 4; %(sub)s }
%(more)s
''' % dict(pkg=pkg, sub='optional Pb sub_x = 2; optional string str_x = 3;' if thorough else 'repeated Pa rec_x = 3;',
             more='message Pb { repeated Pa rec_x = 1; map<string, int32> map_x = 2; oneof kind { bytes byt_x = 3; double dbl_x = 4; } }' if thorough else ''), pkg), '''
 {{ {ns}Pa m; m.val_x = 5; m.enu_x = {ns}Pe::Pone; same(m, "\\x08\\x05\\x20\\x01", "{{\\"val_x\\":5,\\"enu_x\\":\\"Pone\\"}}"); }}
'''.format(ns=ns)))
    # a field which has the name of its type
    p = 'own'
    ns = '::' + pk(p) + '::'
    q = pk(p) + '.' + n
    o.append((p, file(p, '''message %(n)s { optional int32 val_x = 1; }
message Oa { optional %(q)s %(n)s = 1; optional int32 last_x = 2; }
message Ob { enum Oc { Ozero = 0; Oone = 1; } repeated %(q)s %(n)s = 1; optional Oc enu_x = 2; }
message Od { oneof kind { %(q)s %(n)s = 1; int32 last_x = 2; } }
message Oe { map<int32, %(q)s> %(n)s = 1; }
''' % dict(n=n, q=q)), '''
 {{ {ns}Oa m; m.{c}.emplace(); m.{c}->val_x = 5; same(m, "\\x0a\\x02\\x08\\x05", "{{\\"{j}\\":{{\\"val_x\\":5}}}}"); }}
'''.format(ns=ns, c=c, j=j)))
    return [(pl, t, b) for pl, t, b in o]


HEAD = r'''#include <spb/json.hpp>
#include <spb/pb.hpp>
#include <cstdio>
#include <cstdlib>
#include <string>
inline const char *vt_where = "";
namespace vt_t {
[[noreturn]] inline void fail(const std::string &s) { printf("FAIL %s: %s\n", vt_where, s.c_str()); exit(1); }
template <class M> void same(const M &m, std::string pb, std::string js)
{
    try {
        auto s = spb::pb::serialize<std::string>(m); if (s != pb) { std::string h; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x ", c); h += b; } fail("protobuf is " + h); }
        auto t = spb::json::serialize<std::string>(m); if (t != js) fail("JSON is " + t + " instead of " + js);
        M r; spb::pb::deserialize(r, pb); if (spb::pb::serialize<std::string>(r) != pb) fail("protobuf round-trip");
        M k; spb::json::deserialize(k, js); if (spb::json::serialize<std::string>(k) != js) fail("JSON round-trip");
    } catch (const std::exception &e) { fail(e.what()); }
}
template <class M> void json_in(std::string js, const M &want, auto eq) { try { M k; spb::json::deserialize(k, js); if (!eq(k, want)) fail("member of the JSON is ignored: " + js); } catch (const std::exception &e) { fail(e.what()); } }
}
'''


def known():
    out = {}
    with open(os.path.join(B.ROOT, 'known_findings.txt')) as h:
        for line in h:
            f = line.rstrip('\n').split('\t')
            if f[0] == 'C20':
                out[f[1]] = f[2]
    return out


def main(prop, tier, evidence, work, only, violation):
    t0 = time.time()
    thorough = tier == 'thorough'
    b = B.Build(prop)
    b.build_protoc(('-O1',))
    st = V.Stats()
    ids = identifiers()
    items = []
    for i, n in enumerate(ids):
        for pl, text, test in schemas(n, i, thorough):
            if not thorough and pl not in QUICK_PLACES:
                continue
            items.append((i, n, pl, text, test))
    if only is not None:
        items = [x for x in items if '%s/%s' % (x[1], x[2]) == only]
    dirs = os.path.join(work, 's')
    os.makedirs(dirs)

    def gen(it):
        i, n, pl, text, test = it
        path = os.path.join(dirs, 'f%d_%s.proto' % (i, pl))
        with open(path, 'w') as h:
            h.write(text)
        g = V.call(['protoc', '-I', dirs, '--descriptor_set_out=/dev/null', path])
        return g, V.call([b.protoc, '-I', dirs, '--cpp_out=' + dirs, path])

    units, listed, found = [], known(), []
    try:
        for it, (g, (rc, out)) in zip(items, V.pmap(gen, items)):
            i, n, pl, text, test = it
            case = '%s/%s' % (n, pl)
            st.evaluations += 1
            st.transitions += 1
            st.state(case)
            st.sample(case)
            if g[0] != 0:
                st.count('not_protobuf')
                continue
            if pl == 'nst' and n in SCALARS:  # the simple name is the scalar type
                st.count('scalar_names')
                continue
            if rc != 0:
                raise V.Violation(case, 'a valid schema is rejected: ' + out[-400:] + '\n' + text)
            st.outcome(pl)
            base = os.path.join(dirs, 'f%d_%s.pb' % (i, pl))
            if case in listed:
                found.append((case, base + '.cc'))
                continue
            units.append((case, '#include "%s.cc"\nnamespace vt_t { static const bool ok_%d_%s = [] { vt_where = "%s"; %s return true; }(); }\n' % (base, i, pl, case, test)))
        head = os.path.join(work, 'head.hpp')
        with open(head, 'w') as h:
            h.write('#pragma once\n' + HEAD)
        V.batch_programs(work, 'n', units, ['-include', head], 40)
        st.validated += len(units)
        for (case, _), (rc, out) in zip(found, V.pmap(lambda x: V.syntax(x[1]), found)):
            st.count('known_findings')
            if rc:
                print('KNOWN-FINDING: property=%s %s: %s' % (prop, case, listed[case]))
    except V.Violation as e:
        st.write(evidence, prop, tier, RULE, t0, 1)
        return violation(prop, tier, e.case, e.what)
    st.write(evidence, prop, tier, RULE, t0, 0, ASSUME)
    return 0


QUICK_PLACES = os.environ.get('VT_PLACES', 'fld msg val pkm').split()
SCALARS = 'int32 int64 uint32 uint64 sint32 sint64 fixed32 fixed64 sfixed32 sfixed64 bool float double string bytes'.split()
ASSUME = ['macros of the C and C++ libraries are not identifiers']
RULE = ('every identifier of a list (all C++ keywords, contextual keywords, keywords of protobuf, every name which the generated code or the library uses, '
        'every shape of an identifier) in every place of a schema (field of 12 kinds, message, nested message, enum, value of an enum, part of the package, a field with '
        'the name of its type); the schema is valid if protoc accepts it; the generated code is compiled together with a program which uses the C++ names and compares '
        'the bytes and the JSON with the ones which the schema prescribes')
