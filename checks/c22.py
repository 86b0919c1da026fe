"""C22: the text of a schema is compiled to what it means, or refused."""
import itertools, os, re, sys, time
import build as B
sys.path.insert(0, os.path.join(B.ROOT, 'lib'))
import vt_py as V
import vt_drv as D

SEEDS = ['''syntax = "proto2";
package a.b;
enum Color { RED = 0; GREEN = 1; BLUE = -1; }
message Sub { optional int32 x = 1; }
message M {
  required int32 a = 1;
  optional string s = 2 [default = "abc"];
  repeated Sub subs = 3;
  repeated sint64 p = 4 [packed = true];
  map<string, Sub> m = 5;
  oneof o { int32 i = 6; Color c = 7; }
  message In { optional Color col = 1 [default = GREEN]; enum E2 { Z = 0; } optional E2 e = 0x2; }
  optional In inn = 010;
  reserved 100, 200 to 300;
  reserved "foo", "bar";
  optional double d = 9 [default = -1.5, deprecated = true];
}
''', '''syntax = "proto3";
package p;
option java_package = "x";
message A { int32 v = 1; repeated string r = 2; optional bool b = 3; B b2 = 4; map<int32, bytes> mm = 5; }
message B { string c = 1 [json_name = "see"]; }
''', '''syntax = "proto3";
import "google/protobuf/timestamp.proto";
import "google/protobuf/duration.proto";
enum K { option allow_alias = true; Z = 0; Y = 1; X = 1; }
message Outer {
  message Mid { message Leaf { K k = 1; repeated K ks = 2 [packed = false]; } Leaf l = 1; }
  Mid.Leaf l = 1;
  repeated Outer.Mid ms = 2;
  oneof pick { Mid m = 3; google.protobuf.Duration dur = 4; string t = 5 [json_name = "tt"]; }
  google.protobuf.Timestamp ts = 6;
  map<bool, Mid.Leaf> leaves = 7;
}
''', '''message G { optional fixed32 a = 1; optional sfixed64 b = 536870911; required float f = 17; extensions 1000 to 1999; }
enum H { N = -2147483648; P = 2147483647; }
message I { oneof q { G g = 1; H h = 2; } repeated H hs = 3; optional H d = 4 [default = P]; optional uint64 u = 5 [default = 0xF, deprecated = false]; }
''']
SMALL = ['syntax="proto2";message M{optional E e=1[default=Y];enum E{X=0;Y=1;}}',
         'syntax="proto3";package p;message M{N n=1;oneof o{int32 i=2;}}message N{}',
         'message M{repeated int32 a=1[packed=true];map<int32,bool>m=2;reserved 5;}']
TOK = re.compile(r'"[^"]*"|\'[^\']*\'|[A-Za-z_][A-Za-z_0-9]*|[0-9][0-9a-fA-FxX.]*|\s+|.', re.S)
WORDS = ['1', '0', '-1', 'x', 'a', '{', '}', ';', '=', '[', ']', '(', ')', '<', '>', ',', '.', '"q"', "'q'", 'message', 'enum', 'int32', 'string', 'optional', 'repeated', 'required', 'oneof', 'map',
         'option', 'default', 'packed', 'true', '1.5', '536870912', '536870911', '19000', '0x10', '017', 'M', 'Sub', 'Color', 'In', 'A', 'B', 'K', 'Mid', 'Leaf', 'reserved', 'to', 'max', 'syntax', 'package', 'import', '/*c*/', '// c\n', 'RED', 'bytes', 'json_name']
PAIR = ['1', '2', 'x', '{', '}', ';', '=', 'int32', 'E', 'M', 'optional', 'repeated', ',', '"q"']

# texts which protobuf refuses and this compiler takes: it reads the text in the only possible way, or leaves the complaint to the C++ compiler or the user
LENIENT = re.compile(r'''^(Option Q unknown|Option Q was already set|Already set option|Value must be quoted|Value must be (integer|number|identifier)|Expected string for (field default value|JSON name)|Expected string\.$|Expected Q, Q, or Q\.$|Required fields are not allowed
|Explicit default values are not allowed|Field numbers \d+ through 19999|Field Q uses reserved number|Reserved numbers must be|Reserved range|\[packed = true\]|\[lazy = true\]|Q uses the same enum value as|Q declares|Enums must contain|Expected top-level statement|Expected integer for field default
|Q is already defined|The first enum value must be zero|Multiple package|Extension range|Extension numbers must|The JSON camel-case name|Import Q was listed twice|Enum name . has the same name|Enum name \S+ has the same name|String literals cannot cross line|Unsigned field can't have negative default|Oneof must have at least one field|Expected Q or Q for boolean|Value out of range|Integer out of range for field default)'''.replace('\n', ''))


def tokens(s):
    return TOK.findall(s)


def single(s, words, cap=None):
    t = tokens(s)
    idx = [i for i, x in enumerate(t) if x.strip()]
    yield s
    for i in idx:
        yield ''.join(t[:i] + t[i + 1:])
        yield ''.join(t[:i] + [t[i], ' ', t[i]] + t[i + 1:])
        for r in words:
            yield ''.join(t[:i] + [' ' + r + ' '] + t[i + 1:])
            yield ''.join(t[:i] + [' ' + r + ' '] + t[i:])
    for i, j in zip(idx, idx[1:]):  # neighbours exchanged
        yield ''.join(t[:i] + [t[j]] + t[i + 1:j] + [' ', t[i], ' '] + t[j + 1:])


def pairs(s, words):
    t = tokens(s)
    idx = [i for i, x in enumerate(t) if x.strip()]
    for i, j in itertools.combinations(idx, 2):
        for a in [''] + words:
            for b in [''] + words:
                if a == t[i] or b == t[j]:
                    continue
                u = list(t)
                u[i], u[j] = ' ' + a + ' ', ' ' + b + ' '
                yield ''.join(u)


def spaces(s, thorough):
    """the same tokens with other white space; comments where a statement starts"""
    t = tokens(s)
    real = [x for x in t if x.strip()]
    for w in (' ', '\n', '\t', '\r\n', '\v', '\f', '  \n\t ', '\r'):
        yield w.join(real) if '.' not in real else respace(real, w)
    idx = [i for i, x in enumerate(t) if x.strip()]
    for i in idx:
        if t[i] == '.' or (i and t[i - 1] in ('.', '-')):
            continue
        for w in (' ', '\n', '\t', '\r\n') + (('\v', '\f', '\r', ' \n \n') if thorough else ()):
            yield ''.join(t[:i] + [w] + t[i:])
    for i in range(len(t)):  # without white space
        if not t[i].strip() and i and i + 1 < len(t) and not (t[i - 1][-1:].isalnum() and t[i + 1][:1].isalnum()):
            yield ''.join(t[:i] + t[i + 1:])
    yield s.rstrip()
    for k, p in enumerate(statement_starts(t)):
        for c in ('/*c*/', '// c\n', '/* c\n d */', '/**/', '//\n', '/* // */', '// /* \n', '/***/', '/* * / */', '/*c*/ /*d*/', '// c\n// d\n', '/* message X {} */'):
            yield ''.join(t[:p] + [' ' + c + ' '] + t[p:])


def respace(real, w):
    out = ''
    for i, x in enumerate(real):
        if out and x != '.' and real[i - 1] not in ('.', '-'):
            out += w
        out += x
    return out


def statement_starts(t):
    """token positions where a statement (of the file, a message, an enum) starts"""
    depth, start = 0, True
    for i, x in enumerate(t):
        if not x.strip():
            continue
        if start and x not in '};' and not x.startswith('/'):
            yield i
        if x in '[(<':
            depth += 1
        elif x in '])>':
            depth -= 1
        start = depth == 0 and x in '{};'
    return


def numbers():
    """field numbers, enum values and reserved numbers in all spellings"""
    ns = sorted(set(list(range(1, 300)) + [(1 << b) + d for b in range(5, 29) for d in (-1, 0, 1)] + [536870910, 536870911, 18999, 20000]))
    for n in ns:
        for sp in {str(n), '0x%x' % n, '0X%X' % n, '0%o' % n, '0x0%x' % n, '00%o' % n}:
            yield 'syntax="proto3";message M{int32 a=%s;}' % sp
    for n in (0, 19000, 19999, 536870912, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 2**63, 2**64, 2**64 + 1, 10**30, -1, -2**31):
        for sp in {str(n), '%s0x%x' % ('-' if n < 0 else '', abs(n)), '%s0%o' % ('-' if n < 0 else '', abs(n))}:
            yield 'syntax="proto3";message M{int32 a=%s;}' % sp
    for v in sorted(set(list(range(-40, 130)) + [s * (1 << b) + d for s in (1, -1) for b in range(5, 33) for d in (-1, 0, 1)] + [2**32 + 1, 2**64, -2**64, 10**30, 2**63])):
        a, s = abs(v), '-' if v < 0 else ''
        for sp in {'%s%d' % (s, a), '%s0x%x' % (s, a), '%s0X%X' % (s, a), '%s0%o' % (s, a)}:
            yield 'syntax="proto2";enum M{a=%s;}' % sp
    for w in ('1.0', '1e2', '08', '09', '0x', '0xg', '1a', '0b1', '+1', '1_000', '"1"', '--1', '0x1p3', '1.', '.5', '1u', '07x', '0 x1', '0 1', '- 1', '00', 'max', 'a', '', '0o7', "1'000", '０'):
        for k in ('syntax="proto3";message M{int32 a=%s;}', 'syntax="proto2";enum M{a=%s;}', 'syntax="proto2";message M{optional int32 a=1[default=%s];}', 'message M{reserved %s;}', 'message M{reserved 5 to %s;}'):
            yield k % w


def scalars_short():
    out = []
    for w in [''.join(c) for n in range(1, 5) for c in itertools.product('01-+.xe', repeat=n)] + ['9' * k for k in range(1, 60)] + ['0x' + 'f' * k for k in range(1, 30)] + ['0' + '7' * k for k in range(1, 40)]:
        out += ['syntax="proto2";message M{optional int32 a=%s;}' % w, 'syntax="proto2";message M{optional double a=1[default=%s];optional int32 b=2;}' % w]
    return out


def scalars():
    """every type, label and kind of element in all combinations, and the words which are keywords only in some places"""
    ty = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string', 'bytes', 'N', 'E', 'p.N', 'p.E', 'N.Q', 'int', 'Int32', 'int32_t', 'X', 'p.X', 'N.X', 'INT32', 'in', 'int328', 'M']
    for syn in ('proto2', 'proto3'):
        h = 'syntax="%s";package p;enum E{e=0;}message N{message Q{}}' % syn
        for t in ty:
            for lab in ('', 'optional ', 'required ', 'repeated ', 'opt ', 'Optional '):
                for opt in ('', '[packed=true]', '[packed=false]', '[deprecated=true]', '[json_name="j"]', '[lazy=true]'):
                    yield h + 'message M{%s%s a=1%s;}' % (lab, t, opt)
            yield h + 'message M{oneof o{%s a=1;int32 b=2;}}' % t
            for k in ty:
                yield h + 'message M{map<%s,%s>a=1;}' % (k, t)
    kw = ['syntax', 'import', 'weak', 'public', 'package', 'option', 'inf', 'nan', 'repeated', 'optional', 'required', 'bool', 'string', 'bytes', 'float', 'double', 'int32', 'int64', 'uint32', 'sint32', 'fixed32', 'sfixed32', 'group', 'oneof',
          'map', 'extensions', 'to', 'max', 'reserved', 'enum', 'message', 'extend', 'service', 'rpc', 'stream', 'returns', 'true', 'false', 'default', 'json_name', 'mapx', 'oneof_', 'optionals', 'messages', 'x1', 'X', '_x', 'x_', 'x__y']
    for k in kw:
        if k[0] != '_':
            yield 'syntax="proto2";message M{optional int32 %s=1;}' % k
            yield 'syntax="proto2";message M{optional int32 %s=1[deprecated=true];repeated bool b=2;}' % k
            yield 'syntax="proto2";message M{map<int32,int32>%s=1;}' % k
            yield 'syntax="proto2";message M{oneof %s{int32 a=1;}}' % k
            yield 'syntax="proto2";message M{oneof o{int32 %s=1;}}' % k
            yield 'syntax="proto2";message %s{optional int32 a=1;}' % k
            yield 'syntax="proto2";enum %s{a=1;}' % k
            yield 'syntax="proto2";enum E{%s=1;}' % k if k not in ('option', 'reserved') else 'syntax="proto2";enum E{A%s=1;}' % k
            yield 'syntax="proto2";package %s;enum E{a=1;}' % k
            yield 'syntax="proto2";package %s.a.%s;enum E{a=1;}' % (k, k)
            yield 'syntax="proto3";message M{int32 %s=1;}' % k
            yield 'syntax="proto2";message %sT{}message M{optional %sT a=1;}' % (k, k)
            yield 'syntax="proto2";message %sT{}message M{oneof o{%sT a=1;}map<int32,%sT>b=2;}' % (k, k, k)
            yield 'syntax="proto3";message %sT{}message M{%sT a=1;}' % (k, k)


def strings():
    for q in '"\'':
        for body in ('a', 'A b', 'x-y', '\\\\', '', 'a' * 300, '1', 'é', '//', '/*', '*/', ';', '}', ']', '{', '[['):
            if q not in body:
                yield 'syntax="proto2";message M{optional int32 a=1[json_name=%s%s%s];}' % (q, body, q)
                yield 'syntax="proto2";message M{optional string a=1[default=%s%s%s,json_name=%s%s%s];}' % (q, body, q, q, body, q)
                yield 'syntax="proto2";message M{optional bytes a=1[default=%s%s%s];}' % (q, body, q)
                yield 'syntax="proto2";option java_package=%s%s%s;message M{}' % (q, body, q)
                yield 'syntax="proto2";message M{reserved %s%s%s;}' % (q, body, q)
    for a in ('"', "'", '"a', "'a", '"a\'', '\'a"', '"a\nb"', '"\\', '"\\"', '"a\\"'):
        yield 'syntax="proto2";message M{optional string a=1[default=%s];}' % a
        yield 'syntax="proto2";option java_package=%s;message M{}' % a


def comments(thorough):
    """every short comment text, in all places at once"""
    for n in range(6 if thorough else 5):
        for c in itertools.product('/*\\x "\n\r', repeat=n):
            body = ''.join(c)
            cs = []
            if '\n' not in body:
                cs.append('//' + body + '\n')
            if '*/' not in body and '/*' not in body + '*':  # protobuf forbids /* in a comment
                cs.append('/*' + body + '*/')
            for x in cs:
                yield COMMENTED.replace('@', x)
    for body in ('\\ ', '\\\t', 'x\\', ' \\\\', '??/', 'é', '\u20ac', '#define x', 'a' * 5000, '*' * 300, '/' * 300, '{', '}', ';', 'message M {', ' TODO: ', "don't", 'R"(', '%d', '[', ']', ' [[', '\x01', '\v', '\f'):
        for x in ('//' + body + '\n',) if '/' in body else ('//' + body + '\n', '/*' + body + '*/', '/*' + body + '\n' + body + '*/', '//' + body + '\n//' + body + '\n'):
            yield COMMENTED.replace('@', x)


COMMENTED = '@syntax="proto2";@package p;@message K{@}@message M{@optional int32 a=1;@enum E{@A=1;@B=2;}@oneof o{@int32 x=3;@K y=4;}@map<int32,K>m=5;@message N{@repeated K n=1;}@}@enum F{@C=1;@}@'


def structure():
    """all sequences of statements up to a length"""
    top = ['syntax="proto2";', 'syntax="proto3";', 'package p;', 'package q.r;', 'import "google/protobuf/any.proto";', 'message A{}', 'message B{A a=1;}', 'message B{optional A a=1;}', 'enum C{c=0;}', ';', 'option java_package="x";', '/*c*/', '//c\n', 'message A{B b=1;}']
    for n in range(4):
        for c in itertools.product(top, repeat=n):
            yield ''.join(c)
    mem = ['optional int32 a=1;', 'int32 a=1;', 'repeated string b=2;', 'message A{}', 'optional A c=3;', 'enum E{e=0;}', 'optional E d=4;', 'oneof o{int32 x=5;A y=6;}', 'map<int32,A>m=7;', 'reserved 9;', 'option deprecated=true;', ';', '/*c*/', '//c\n', 'extensions 50;', 'message E{}']
    for n in range(4):
        for c in itertools.product(mem, repeat=n):
            yield 'syntax="proto2";message M{' + ''.join(c) + '}'


def excused(text):
    """constructs of protobuf which this compiler does not have, and says so"""
    t = tokens(text)
    real = [x for x in t if x.strip()]
    if re.search(r'\b(group|service|rpc|extend)\b', text) or re.search(r'(^|[\s<(,{;])\.\s*[A-Za-z]', text) or re.search(r"syntax\s*=\s*'", text) or re.search(r'enum[^}]*reserved', text) or text[:1] == '\ufeff':
        return True
    for a, b in zip(real, real[1:]):
        if a[0] in '"\'' and b[0] in '"\'':
            return True
    for i, x in enumerate(t):
        if not x.strip() and ((i + 1 < len(t) and t[i + 1] == '.') or (i and t[i - 1] in ('.', '-'))):
            return True
    if re.search(r'\b_', text):  # identifiers start with a letter
        return True
    if '//' in re.sub(r'"[^"]*"', '', text) and '\n' not in text[text.rindex('//'):]:
        return True
    # a comment inside of a statement
    c = re.sub(r'"[^"\n]*"|\'[^\'\n]*\'', 'S', text)
    for m in re.finditer(r'//[^\n]*\n?|/\*.*?\*/', c, re.S):
        before = re.sub(r'//[^\n]*\n?|/\*.*?\*/', '', c[:m.start()], flags=re.S).rstrip()
        after = re.sub(r'//[^\n]*\n?|/\*.*?\*/', '', c[m.start():], flags=re.S).lstrip()
        if (before and before[-1] not in '{};') or (after and after[0] in '{=[]<>(),'):
            return True
    return False


SAME = 'two texts with the same meaning are compiled to different code'
CYCLE = re.compile('self-referencing|dependency|cycl|circular', re.I)


def main(prop, tier, evidence, work, only, violation):
    t0 = time.time()
    thorough = tier == 'thorough'
    b = B.Build(prop)
    st = V.Stats()
    drv = D.Driver(b, 'o', ('-O1',))
    b.build_protoc(('-O0',))
    own = D.Driver(b, 'own', ('-O1', '-include', 'vt_emu.hpp'))  # where the standard library cannot convert floating point numbers
    texts = []
    if only is not None:
        texts = [only.encode().decode('unicode_escape')]
    else:
        for s in SEEDS:
            texts += single(s, WORDS)
            texts += spaces(s, thorough)
        for s in SMALL:
            texts += single(s, WORDS)
            texts += pairs(s, PAIR if thorough else PAIR[:5])
            texts += spaces(s, True)
        texts += numbers()
        texts += scalars()
        texts += strings()
        texts += comments(thorough)
        texts += structure()
        if thorough:
            for s in SEEDS:
                texts += pairs(s, [';', '1', 'x'])
    texts = list(dict.fromkeys(texts))
    commented = set(comments(thorough))
    frames = [((D.GOOGLE | D.CANON), t.encode()) for t in texts]
    res = []
    step = 40000
    if os.environ.get('VT_DUMP'):
        import collections, pickle
        res = drv.run_all(frames)
        pickle.dump((texts, [[getattr(r, k) for k in D.FIELDS] for r in res]), open(os.environ['VT_DUMP'], 'wb'))
        return 0
    must_fail, may_differ = {}, []
    by_meaning, by_code = {}, {}

    def bad(text, what):
        st.write(evidence, prop, tier, RULE, t0, 1)
        return violation(prop, tier, text.encode('unicode_escape').decode(), what)

    def cpp(texts_):
        """does the generated code compile?"""
        def one(it):
            i, t = it
            d = os.path.join(work, 'n%d' % i)
            os.makedirs(d)
            with open(d + '/x.proto', 'wb') as h:
                h.write(t.encode())
            rc, out = V.call([b.protoc, '-I', d, '-I', '/usr/include', '--cpp_out=' + d, d + '/x.proto'])
            if rc:
                return None
            for w in ('timestamp', 'duration', 'any'):
                if 'protobuf/%s.proto' % w in t:
                    V.call([b.protoc, '-I', '/usr/include', '--cpp_out=' + d, '/usr/include/google/protobuf/%s.proto' % w])
            return V.syntax(d + '/x.pb.cc', ['-I', d])[0] == 0
        cpp.n = getattr(cpp, 'n', 0) + 100000
        return V.pmap(one, [(cpp.n + i, t) for i, t in enumerate(texts_)])

    for at in range(0, len(frames), step):
        part, rs = texts[at:at + step], drv.run_all(frames[at:at + step])
        for t, r in zip(part, rs):
            st.evaluations += 1
            st.transitions += 1 + (r.crc >= 0)
            st.state(t)
            show = 'exit %d: %s' % (r.rc, r.message)
            if r.rc not in (0, 1):
                return bad(t, 'the compiler crashed or did not end, ' + show)
            valid = r.google == ''
            st.outcome((r.rc, valid, re.sub(r'"[^"]*"|\d+', '', r.google)))
            if r.rc == 1:
                if valid and (t in commented or not excused(t)) and not CYCLE.search(r.message):
                    return bad(t, 'a valid schema is refused, ' + show)
                st.count('refused_valid' if valid else 'refused_invalid')
                st.validated += 1
                continue
            if not valid:
                g = re.sub(r'"[^"]*"', 'Q', re.sub(r'^\d+:-?\d+ ', '', r.google))
                if LENIENT.search(g):
                    st.count('accepted_lenient')
                else:
                    # anything else has to be refused by the C++ compiler at the latest
                    must_fail.setdefault(re.sub(r'\d+', '', g), []).append((t, r.google))
                continue
            st.count('accepted')
            st.validated += 1
            st.sample(t, 3)
            m = by_meaning.setdefault(r.meaning, (r.sig, t))
            if m[0] != r.sig:
                may_differ.append((t, m[1], SAME))
            c = by_code.setdefault(r.code, (r.meaning, t))
            if c[0] != r.meaning:
                may_differ.append((t, c[1], 'two texts with different meaning are compiled to the same code'))
            if r.crc == 0 and r.csig != r.sig:
                may_differ.append((t, t, 'the canonical text of the same schema is compiled to different code: ' + r.why))
    st.count('meanings', len(by_meaning))
    # the same with the own conversion of numbers
    num = [t for t in list(numbers()) + scalars_short() if only is None or t == texts[0]]
    for t, x, y in zip(num, drv.run_all([(0, t.encode()) for t in num]), own.run_all([(0, t.encode()) for t in num])):
        st.evaluations += 1
        st.validated += 1
        st.count('own_conversion')
        if (x.rc, x.code) != (y.rc, y.code):
            return bad(t, 'spb-protoc with its own conversion of numbers gives other code: exit %d and %d: %s %s' % (x.rc, y.rc, x.message, y.message))
    # differences count only when the code is usable
    if may_differ:
        flat = cpp([x for d in may_differ[:200] for x in d[:2]])
        for i, (t, u, what) in enumerate(may_differ[:200]):
            if flat[2 * i + 1] and (flat[2 * i] or what == SAME and re.sub(r'//.*?\n|/\*.*?\*/', '', t, flags=re.S) == re.sub(r'//.*?\n|/\*.*?\*/', '', u, flags=re.S)):
                return bad(t, what + ('; the other text: ' + u if t != u else ''))
        st.count('different_but_not_cpp', len(may_differ))
    per = 400 if thorough else 10
    todo = [x for k in sorted(must_fail) for x in (must_fail[k][:per])]
    st.count('left_to_cpp', sum(map(len, must_fail.values())))
    st.count('left_to_cpp_compiled', len(todo))
    for (t, g), ok in zip(todo, cpp([x[0] for x in todo])):
        if ok:
            return bad(t, 'an invalid schema is accepted and its code compiles; protobuf says: ' + g)
    if by_meaning and only is None and (len(by_meaning) < 300 or st.counters.get('accepted', 0) < 3000):
        raise B.BuildError('only %d meanings' % len(by_meaning))
    st.write(evidence, prop, tier, RULE, t0, 0, ['texts with constructs outside of the supported ones (groups, services, comments inside of statements, ...) may be refused', 'what protobuf refuses for reasons of style or for options of other tools may be accepted'])
    return 0


RULE = ('seed schemas with every single token deleted, doubled, replaced by or preceded by each of 60 tokens, pairs of edits in small schemas, all white space and comment placements, every comment up to 4 characters, all field numbers '
        'and enum numbers near borders in every spelling, all type x label x option combinations, all keywords in all positions, all sequences of up to 3 statements; the parser of Google protobuf gives validity '
        'and meaning: valid texts are accepted, one meaning = one code, different meanings never share code, the canonical text of a schema gives the same code, invalid texts are refused')
