"""C21: whatever the text of the schema is, the compiler ends with success and its output, or with an error and nothing."""
import itertools, os, re, subprocess, sys, time
import build as B
sys.path.insert(0, os.path.join(B.ROOT, 'lib'))
import vt_py as V
import vt_drv as D

SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-fno-omit-frame-pointer']

FULL = '''syntax = "proto2";
/* [[ string.type = "std::string" ]] */
package a.b;
import "i.proto";
option java_package = 'x"y';
//[[ enum.type = "uint8" ]]
enum Color { option deprecated = true; RED = 0; GREEN = 0x1; BLUE = -1 [deprecated = true]; }
message Sub { optional int32 x = 1; }
// comment
message M { // trailing
  option deprecated = true;
  required int32 a = 1 [(spb.field).type = "int8:4", default = -1];
  optional string s = 2 [default = "a\\"b\\x41\\101\\n", json_name = "q"];
  repeated Sub subs = 3;
  repeated sint64 p = 4 [packed = true];
  map<string, Sub> m = 5;
  oneof o { int32 i = 6; Color c = 7; Imp k = 16; }
  //[[ optional.type = "std::optional<$>", field.type = "int8" ]]
  message In { optional Color col = 1 [default = GREEN]; enum E2 { Z = 0; } optional E2 e = 0x2; }
  optional In inn = 010;
  reserved 100, 200 to 300, 400 to max;
  reserved "foo", 'bar';
  extensions 1000 to 1999;
  optional double d = 9 [default = -1.5e3, deprecated = true];
  optional M.In far = 17;
}
extend google.protobuf.FieldOptions { optional int32 zz = 50000; }
'''
IMP = 'syntax="proto2";package a;message Imp{optional int32 v=1;}'
SHORT = ['syntax="proto3";message A{int32 v=1;}', 'package p;message A{optional B b=1;}message B{}', 'enum E{A=-0x1;}', '/*[[string.type="std::string"]]*/message M{map<int32,bytes>m=1;}', 'message M{optional string s=1[default="\\x41"];}',
         'message M{oneof o{int32 a=1[deprecated=true];}}', '//[[field.type="int8:3"]]\nmessage M{}', 'import "i.proto";message M{optional a.Imp i=1;}', 'option a={b:1 c:[1,2] d{e:"f"}};message M{}', 'message M{optional int32 a=1[(x).y={z:1},default=-1];}',
         'message M{reserved 1,2 to 3,5 to max;}', "message M{reserved 'a',\"b\";}"]
STRUCT = ['m', '1', '"', "'", '/', '*', '{', '}', ';', '=', '\n', ' ', '[', ']', '<', '.', '-', '\\', '\0', '\x80', '(', ',', '_', '0', 'x', '\xff', ':']
WORDS = ['message', 'enum', 'A', '{', '}', ';', '=', '1', 'int32', 'optional', 'oneof', 'map', '<', ',', '>', '[', ']', '"a"', 'option', 'import', 'package', 'syntax', 'reserved', '//', '/*', '*/', '-', '.', '(', '//[[', ']]', 'extend', 'repeated', 'default', 'service', '\n']


def edits(s, alphabet):
    for i in range(len(s) + 1):
        yield s[:i]  # truncated
        yield s[i:]
        if i < len(s):
            yield s[:i] + s[i + 1:]
            yield s[:i] + s[i] + s[i:]
        for a in alphabet:
            yield s[:i] + a + s[i:]
            if i < len(s) and s[i] != a:
                yield s[:i] + a + s[i + 1:]


def sizes():
    for n in (0, 1, 2, 7, 8, 14, 15, 16, 17, 31, 32, 33, 63, 64, 127, 128, 255, 256, 257, 1000, 4095, 4096, 4097, 20000):
        a = 'a' * n
        yield 'message A%s{optional int32 a%s=1;}' % (a, a)
        yield 'enum A%s{B%s=1;}' % (a, a)
        yield 'package a%s;message M{}' % a
        yield 'message M{optional string s=1[default="%s"];}' % a
        yield 'message M{optional string s=1[json_name="%s"];}' % a
        yield '/*%s*/message M{}' % a
        yield '//%s\nmessage M{}' % a
        yield '//%s' % a
        yield '//[[string.type="%s"]]\nmessage M{}' % a
        yield 'message M{optional int32 a=%s1;}' % ('0' * n)
        yield 'message M{optional int32 a=%s;}' % ('1' * n)
        yield 'enum M{a=-%s;}' % ('1' * n)
        yield 'message M{optional double a=1[default=1%s.%s1];}' % ('0' * n, '0' * n)
        yield 'message M{optional double a=1[default=1e%s1];}' % ('0' * n)
        yield 'message M{optional int64 a=1[default=0x%s];}' % ('f' * n)
        yield 'message M{optional %s a=1;}' % '.'.join(['a'] * (n + 1))
        yield 'package %s;message M{}' % '.'.join(['a'] * (n % 500 + 1))
        yield ' ' * n + 'message M{}' + '\n' * n
        yield ';' * n
        yield 'import "%s";' % a
        yield 'import "%s";' % ('/' * n)
        yield 'syntax="%s";' % a
        yield '"' + a
        yield '/*' + a
        yield '\0' * n
        if n <= 1000:
            yield 'message M{%s}' % ''.join('optional int32 f%d=%d;' % (i, i + 1) for i in range(n))
            yield 'enum E{%s}' % ''.join('f%d=%d;' % (i, i) for i in range(n))
            yield ''.join('message M%d{optional M%d a=1;}' % (i, i + 1) for i in range(n))
            yield 'message M{reserved %s;}' % ','.join(map(str, range(1, n + 2)))
        if n <= 128:
            yield 'message M{' * n + '}' * n
            yield 'message M{' * n
            yield 'option a=' + '{b:' * n + '1' + '}' * n + ';'
            yield 'option a=' + '[' * n + '1' + ']' * n + ';'
            yield '}' * n
            yield 'option a=%s1%s;message M{}' % ('[' * n, ']' * n)
            yield 'message M{optional int32 a=1[x={%s}];}' % ('y{' * n + '}' * n)


def pack(*files):
    return b''.join(b'\x01' + n.encode() + b'\x02' + t for n, t in files)


def imports():
    """files which import one another in every way, unusable files, and names outside of the directory"""
    m = b'message X{}'
    names = ['x.proto', 'y.proto', 'z.proto', 'missing.proto', '', '.', '..', 'inc', 'out', '/', './y.proto', '../' * 3 + 'y.proto', 'y.proto/', 'y.proto/z', 'inc/../y.proto', '/nonexistent/q.proto', 'y', 'spb.proto', '\u20ac.proto', 'y.proto\0z']
    bodies = [b'', b'import "z.proto";', b'import "x.proto";', b'import "y.proto";', b'message Y{', b'\0', b'import "missing.proto";', b'syntax="proto3";package y;message Y{}', b'package y;', b'//']
    for n in names:
        for q in '"\'':
            for pre in ('', 'public ', 'weak '):
                imp = ('import %s%s%s%s;' % (pre, q, n, q)).encode()
                for body in bodies:
                    yield pack(('x.proto', imp + m), ('y.proto', body), ('z.proto', b'message Z{}'))
    for a, b, c in itertools.product(bodies, repeat=3):
        yield pack(('x.proto', b'import "y.proto";import "z.proto";' + a), ('y.proto', b), ('z.proto', c))
    for n in ('a.b.proto', 'x y.proto', 'X-1.proto', '\u20ac.proto', 'd/e/f.proto', 'x.proto.proto'):
        yield pack((n, b'message X{}'))


def main(prop, tier, evidence, work, only, violation):
    t0 = time.time()
    thorough = tier == 'thorough'
    b = B.Build(prop)
    st = V.Stats()
    san = D.Driver(b, 's', ('-O1', '-g1'), SAN)
    opt = D.Driver(b, 'o', ('-O2',))
    one_byte = [bytes([i]).decode('latin1') for i in range(256)]
    texts, plain = [], []
    if only is not None:
        texts = [only.encode().decode('unicode_escape').encode('latin1')]
    else:
        def add(it, to):
            for t in it:
                to.append(t if isinstance(t, bytes) else t.encode('latin1'))
        # in the instrumented build
        add((pack(('x.proto', t.encode('latin1')), ('i.proto', IMP.encode())) for t in edits(FULL, ['{', '"', '\0'] if not thorough else STRUCT)), texts)
        for s in SHORT:
            add((pack(('x.proto', t.encode('latin1')), ('i.proto', IMP.encode())) if 'import' in s else t for t in edits(s, STRUCT if not thorough else one_byte)), texts if thorough else texts)
        add(sizes(), texts)
        add(imports(), texts)
        for n in range(4 if thorough else 3):
            add((''.join(c) for c in itertools.product(STRUCT, repeat=n)), texts)
        for n in range(4 if thorough else 3):
            add((' '.join(c) for c in itertools.product(WORDS, repeat=n)), texts)
        # in the normal build, where a crash, a hang or a wrong exit is still seen
        for n in range(3, 5 if thorough else 4):
            add((''.join(c) for c in itertools.product(STRUCT if n == 3 else STRUCT[:20], repeat=n)), plain)
        add((' '.join(c) for c in itertools.product(WORDS, repeat=3)), plain)
        add((pack(('x.proto', t.encode('latin1')), ('i.proto', IMP.encode())) for t in edits(FULL, STRUCT)), plain)
        for s in SHORT:
            add((pack(('x.proto', t.encode('latin1')), ('i.proto', IMP.encode())) if 'import' in s else t for t in edits(s, one_byte)), plain)
    texts = list(dict.fromkeys(texts))
    seen = set(texts)
    plain = [t for t in dict.fromkeys(plain) if t not in seen]

    def bad(t, what):
        st.write(evidence, prop, tier, RULE, t0, 1)
        return violation(prop, tier, t.decode('latin1').encode('unicode_escape').decode(), what)

    def judge(t, r):
        if r.rc not in (0, 1):
            return 'the compiler ' + ('does not end' if r.rc in (128 + 24, 128 + 14) else 'writes without end' if r.rc == 128 + 25 else 'crashes, exit %d' % r.rc) + ': ' + r.message
        if r.same != '1':
            return 'two runs on the same text differ'
        if r.rc == 1 and (r.h == '1' or r.cc == '1'):
            return 'output is written although the schema is refused: ' + r.message
        if r.rc == 1 and not r.message.strip():
            return 'the schema is refused without a message'
        if r.rc == 0 and (r.h != '1' or r.cc != '1'):
            return 'success without output'
        return None

    accepted = []
    for which, drv, ts in (('instrumented', san, texts), ('plain', opt, plain)):
        for at in range(0, len(ts), 20000):
            part = ts[at:at + 20000]
            for t, r in zip(part, drv.run_all([(0, x) for x in part])):
                st.evaluations += 1
                st.transitions += 1
                st.validated += 1
                st.state(t)
                st.outcome((r.rc, re.sub(r'\d+|\'.*?\'|".*?"', '', r.message.split(':')[-1])[:60]))
                w = judge(t, r)
                if w:
                    return bad(t, '(%s build) %s' % (which, w))
                st.count('accepted' if r.rc == 0 else 'refused')
                if r.rc == 0:
                    accepted.append((t, r.code, r.rc))
        st.count(which, len(ts))
    st.samples = [repr(t[:200]) for t, _, _ in accepted[::max(1, len(accepted) // 5)]][:6]
    # the same output from another build in another process, with memory in other places, and whatever the environment
    codes = {}
    for t, code, _ in accepted:
        codes.setdefault(code, t)
    pick = list(codes.values())[:4000 if thorough else 1500]
    for name, drv, env in (('other build', opt, {}), ('other environment', opt, {'LC_ALL': 'C.UTF-8', 'MALLOC_PERTURB_': '85', 'TZ': 'Asia/Tokyo'}), ('memory filled', opt, {'MALLOC_PERTURB_': '170', 'MALLOC_TOP_PAD_': '100000'})):
        from concurrent.futures import ThreadPoolExecutor
        parts = [pick[i::B.JOBS] for i in range(B.JOBS)]
        with ThreadPoolExecutor(B.JOBS) as ex:
            rs = list(ex.map(lambda p: drv.run([(D.TWICE, t) for t in p], env), parts))
        for p, r in zip(parts, rs):
            for t, x in zip(p, r):
                st.transitions += 2
                st.validated += 1
                w = judge(t, x)
                if w:
                    return bad(t, '(%s) %s' % (name, w))
                if x.code not in codes or codes[x.code] != t:
                    return bad(t, 'the output depends on the process (%s)' % name)
    st.count('repeated', len(pick))
    # every write of the output fails once
    fault = [pack(('x.proto', FULL.encode()), ('i.proto', IMP.encode()))] + [s.encode() for s in SHORT if 'import' not in s] + [('message M{%s}' % ''.join('optional int32 f%d=%d;' % (i, i + 1) for i in range(n))).encode() for n in (1, 20, 100, 400)]
    if only is None:
        for t, r in zip(fault, opt.run_all([(D.FAULTS, t) for t in fault])):
            p = r.faults.split(' ')
            st.evaluations += int(p[0])
            st.transitions += int(p[0])
            st.count('faults', int(p[0]))
            if len(p) > 1:
                return bad(t, 'an output file which cannot be written is not reported (exit 1 and a message expected): ' + r.faults)
        if st.counters.get('accepted', 0) < 500:
            raise B.BuildError('only %d texts accepted' % st.counters.get('accepted', 0))
    r = cli(b, work, st)
    if r:
        return bad(r[0].encode('latin1', 'replace'), r[1])
    st.write(evidence, prop, tier, RULE, t0, 0, ['nesting deeper than 128 is not covered'])
    return 0


def cli(b, work, st):
    """all command lines up to a length, with the real program"""
    b.build_protoc(('-O1',))
    d = os.path.join(work, 'cli')
    os.makedirs(d + '/p/sub')
    ok = {'good.proto': 'syntax="proto3";message G{int32 a=1;}', 'bad.proto': 'message {', 'sub/in.proto': 'import "good.proto";message I{optional G g=1;}', 'empty.proto': ''}
    for n, t in ok.items():
        with open('%s/p/%s' % (d, n), 'w') as h:
            h.write(t)
    words = ['-I', '-Ip', '-I p', '--proto_path=p', '--cpp_out=OUT', '--cpp_out OUT', '--cpp_out', 'p/good.proto', 'p/bad.proto', 'p/sub/in.proto', 'p/missing.proto', 'p/empty.proto', 'p', '-v', '--version', '-h', '--help', '--nonsense', '-', '--', '', '--cpp_out=', '-Ip/sub', '/dev/null']
    jobs = []
    for n in range(0, 4):
        for c in itertools.product(words, repeat=n):
            if n < 3 or ('OUT' in ' '.join(c)):
                jobs.append(c)

    def one(ic):
        i, c = ic
        out = '%s/o%d' % (d, i)
        args = []
        for w in c:
            args += w.replace('OUT', out).split(' ') if ' ' in w else [w.replace('OUT', out)]
        rc, o = V.call([b.protoc] + args, cwd=d, timeout=60)
        made = sorted(os.path.relpath(os.path.join(q, f), out) for q, _, fs in os.walk(out) for f in fs) if os.path.isdir(out) else []
        if os.path.isdir(out):
            import shutil
            shutil.rmtree(out)
        return rc, o, made

    for c, (rc, o, made) in zip(jobs, V.pmap(one, list(enumerate(jobs)))):
        st.evaluations += 1
        st.transitions += 1
        st.validated += 1
        st.outcome(('cli', rc, len(made)))
        case = 'spb-protoc ' + ' '.join(c)
        if rc not in (0, 1):
            return case, 'exit %s: %s' % (rc, o[-500:])
        if rc == 1 and not o.strip():
            return case, 'it fails without a message'
        words_ = ' '.join(c).split(' ')
        # options come first; the files follow
        if rc == 0 and not {'-v', '-h', '--version', '--help'} & set(words_):
            k, dest = 0, ''
            while k < len(words_) and words_[k].startswith('-'):
                if words_[k].startswith('--cpp_out'):
                    dest = words_[k][10:] if words_[k][9:] else words_[k + 1] if k + 1 < len(words_) else ''
                k += 2 if words_[k] in ('-I', '--cpp_out') else 1
            files = words_[k:]
            if not files or any(f not in ('p/good.proto', 'p/sub/in.proto', 'p/empty.proto') and f in ('p/bad.proto', 'p/missing.proto', 'p') for f in files):
                return case, 'success, although a file cannot be compiled: ' + o[-300:]
            want = {os.path.basename(f)[:-6] for f in files if f.endswith('.proto')}
            have = {os.path.basename(f) for f in made}
            if dest == 'OUT' and not {w + e for w in want for e in ('.pb.h', '.pb.cc')} <= have:
                return case, 'success, but only these files were written: %s' % made
    st.count('command_lines', len(jobs))
    return None


RULE = ('every truncation, deletion, doubling, insertion and substitution of a character (over structural characters; every byte for short schemas), all strings of structural characters and all sequences of words up to a '
        'length, names/numbers/strings/comments/lists/nesting of border sizes, all import names x contents of the imported files, all command lines up to 3 words, every failing write; '
        'the real main() in a forked process, with ASan+UBSan: exit 0 with both files or 1 with a message and none, the same every time, in every process')
