"""Schema DSL: one description -> .proto text, C++ descriptor tables and C++ bindings.

The description is the *model* side: every number, name, limit and kind that the
reference codecs use comes from here and never from the compiler under test.
"""

SCALARS = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32',
           'fixed64', 'sfixed32', 'sfixed64', 'bool', 'string', 'bytes']
KIND = {'double': 'Double', 'float': 'Float', 'int32': 'Int32', 'int64': 'Int64', 'uint32': 'UInt32',
        'uint64': 'UInt64', 'sint32': 'SInt32', 'sint64': 'SInt64', 'fixed32': 'Fixed32',
        'fixed64': 'Fixed64', 'sfixed32': 'SFixed32', 'sfixed64': 'SFixed64', 'bool': 'Bool',
        'string': 'String', 'bytes': 'Bytes'}
BITS = {'int8': (-2**7, 2**7 - 1), 'uint8': (0, 2**8 - 1), 'int16': (-2**15, 2**15 - 1),
        'uint16': (0, 2**16 - 1), 'int32': (-2**31, 2**31 - 1), 'uint32': (0, 2**32 - 1),
        'int64': (-2**63, 2**63 - 1), 'uint64': (0, 2**64 - 1)}
RANGE = {'int32': BITS['int32'], 'sint32': BITS['int32'], 'sfixed32': BITS['int32'],
         'int64': BITS['int64'], 'sint64': BITS['int64'], 'sfixed64': BITS['int64'],
         'uint32': BITS['uint32'], 'fixed32': BITS['uint32'], 'uint64': BITS['uint64'],
         'fixed64': BITS['uint64'], 'bool': (0, 1)}
CPP_KEYWORDS = set('''alignas alignof and and_eq asm auto bitand bitor bool break case catch char class compl
concept const consteval constexpr constinit const_cast continue co_await co_return co_yield decltype default delete
do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable
namespace new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast
requires return short signed sizeof static static_assert static_cast struct switch template this thread_local throw
true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq'''.split())


def cpp(name):
    return name + '_' if name in CPP_KEYWORDS else name


def camel(name):
    """protoc's ToJsonName"""
    out, up = '', False
    for c in name:
        if c == '_':
            up = True
        else:
            out += c.upper() if up else c
            up = False
    return out


class Enum:
    def __init__(self, name, values, storage=None, style='option', alias=False):
        self.name, self.values, self.storage, self.style, self.alias = name, values, storage, style, alias


class F:
    """field; opts: type,max_size,max_count,string,bytes,optional,repeated (spb options)
    style: 'comment' -> //[[ (spb_opt).x = ...]], 'inline' -> [(spb_opt).x = ...]"""

    def __init__(self, name, type, num, label='', packed=None, json=None, opts=None, style='comment',
                 default=None, raw=None):
        self.name, self.type, self.num, self.label, self.packed = name, type, num, label, packed
        self.json, self.opts, self.style, self.default, self.raw = json, dict(opts or {}), style, default, raw


class Map:
    def __init__(self, name, key, val, num, json=None, opts=None, style='comment'):
        self.name, self.key, self.val, self.num, self.json = name, key, val, num, json
        self.opts, self.style = dict(opts or {}), style


class Oneof:
    def __init__(self, name, fields):
        self.name, self.fields = name, fields


class Msg:
    def __init__(self, name, items=(), msgs=(), enums=(), opts=None, style='option', extra=''):
        self.name, self.items, self.msgs, self.enums = name, list(items), list(msgs), list(enums)
        self.opts, self.style, self.extra = dict(opts or {}), style, extra


class File:
    def __init__(self, name, package, syntax, msgs=(), enums=(), imports=(), opts=None, style='option',
                 includes=()):
        self.name, self.package, self.syntax = name, package, syntax
        self.msgs, self.enums, self.imports = list(msgs), list(enums), list(imports)
        self.opts, self.style, self.includes = dict(opts or {}), style, list(includes)
        self.link()

    def link(self):
        ns = '::' + self.package.replace('.', '::') if self.package else ''

        def walk(m, path, cpath):
            m.path = path + [m.name]
            m.cpp = cpath + '::' + cpp(m.name)
            m.full = '.'.join(([self.package] if self.package else []) + m.path)
            m.file = self
            for e in m.enums:
                e.path, e.cpp, e.parent, e.file = m.path + [e.name], m.cpp + '::' + cpp(e.name), m, self
                e.full = '.'.join(([self.package] if self.package else []) + e.path)
            for s in m.msgs:
                walk(s, m.path, m.cpp)

        for e in self.enums:
            e.path, e.cpp, e.parent, e.file = [e.name], ns + '::' + cpp(e.name), None, self
            e.full = '.'.join(([self.package] if self.package else []) + e.path)
        for m in self.msgs:
            walk(m, [], ns)

    def all_msgs(self):
        out = []

        def walk(m):
            for s in m.msgs:
                walk(s)
            out.append(m)

        for m in self.msgs:
            walk(m)
        return out

    def all_enums(self):
        return self.enums + [e for m in self.all_msgs() for e in m.enums]

    # ---------------------------------------------------------------- .proto
    def proto(self):
        o = ['syntax = "%s";' % self.syntax, '']
        if self.package:
            o += ['package %s;' % self.package, '']
        for i in self.imports:
            o.append('import "%s";' % (i if isinstance(i, str) else i.name + '.proto'))
        for i in self.includes:
            o.append('//[[ (spb_fileopt).include = "%s" ]]' % i)
        if self.opts and self.style == 'comment':
            # a comment above `option`/`import`/... statements would be attached elsewhere, see fixtures
            o += ['//[[ (spb_fileopt).%s = %s ]]' % (k, lit(v)) for k, v in self.opts.items()]
        elif self.opts:
            pre = 'nanopb_fileopt' if self.style == 'nanopb' else 'spb_fileopt'
            o += ['option (%s).%s = %s;' % (pre, k, lit(v)) for k, v in self.opts.items()]
        for e in self.enums:
            self._enum(o, e, '')
        for m in self.msgs:
            self._msg(o, m, '')
        return '\n'.join(o) + '\n'

    def _enum(self, o, e, ind):
        if e.storage and e.style == 'comment':
            o.append(ind + '//[[ (spb_enumopt).type = "%s" ]]' % e.storage)
        o.append(ind + 'enum %s {' % e.name)
        if e.alias:
            o.append(ind + '  option allow_alias = true;')
        if e.storage and e.style != 'comment':
            o.append(ind + '  option (spb_enumopt).type = "%s";' % e.storage)
        for n, v in e.values:
            o.append(ind + '  %s = %d;' % (n, v))
        o.append(ind + '}')

    def tname(self, t, scope=()):
        if isinstance(t, str):
            return t
        if t.file is not self:
            return t.full
        k = 0
        while k < len(scope) and k < len(t.path) - 1 and scope[k] == t.path[k]:
            k += 1
        return '.'.join(t.path[k:])

    def _field(self, o, f, ind, oneof=False, scope=()):
        inline = []
        for k, v in f.opts.items():
            if f.style == 'inline':
                inline.append('(spb_opt).%s = %s' % (k, lit(v)))
            elif f.style == 'nanopb':
                inline.append('(nanopb).%s = %s' % (k, lit(v)))
            else:
                o.append(ind + '//[[ (spb_opt).%s = %s ]]' % (k, lit(v)))
        if isinstance(f, Map):
            if f.json:
                inline.append('json_name = "%s"' % f.json)
            o.append(ind + 'map<%s, %s> %s = %d%s;' % (f.key, self.tname(f.val, scope), f.name, f.num,
                                                     ' [%s]' % ', '.join(inline) if inline else ''))
            return
        if f.packed is not None:
            inline.append('packed = %s' % ('true' if f.packed else 'false'))
        if f.json:
            inline.append('json_name = "%s"' % f.json)
        if f.default is not None:
            inline.append('default = %s' % f.default[0])
        if f.raw:
            inline.append(f.raw)
        label = f.label + ' ' if f.label and not oneof else ''
        o.append(ind + '%s%s %s = %d%s;' % (label, self.tname(f.type, scope), f.name, f.num,
                                           ' [%s]' % ', '.join(inline) if inline else ''))

    def _msg(self, o, m, ind):
        if m.opts and m.style == 'comment':
            o += [ind + '//[[ (spb_msgopt).%s = %s ]]' % (k, lit(v)) for k, v in m.opts.items()]
        o.append(ind + 'message %s {' % m.name)
        if m.opts and m.style != 'comment':
            pre = 'nanopb_msgopt' if m.style == 'nanopb' else 'spb_msgopt'
            o += [ind + '  option (%s).%s = %s;' % (pre, k, lit(v)) for k, v in m.opts.items()]
        if m.extra:
            o.append(ind + '  ' + m.extra)
        for e in m.enums:
            self._enum(o, e, ind + '  ')
        for s in m.msgs:
            self._msg(o, s, ind + '  ')
        for it in m.items:
            if isinstance(it, Oneof):
                o.append(ind + '  oneof %s {' % it.name)
                for f in it.fields:
                    self._field(o, f, ind + '    ', True, m.path)
                o.append(ind + '  }')
            else:
                self._field(o, it, ind + '  ', False, m.path)
        o.append(ind + '}')

    # ------------------------------------------------------- C++ descriptors
    def lim(self, f, m, key):
        for o in (f.opts, m.opts, self.opts):
            if o.get(key) is not None:
                return o[key]
        return None

    def _fdesc(self, m, f, label, oneof=-1, limits=True, map_side=False):
        t = f.type
        mn, mx, bits = 0, 0, 0
        msg = en = 'nullptr'
        if isinstance(t, Enum):
            kind = 'Enum'
            st = t.storage
            if not st and t.parent is not None:
                st = t.parent.opts.get('enum')
            if not st:
                st = t.file.opts.get('enum')
            mn, mx = BITS[st or 'int32']
            en = '&' + eid(t)
        elif isinstance(t, Msg):
            kind, msg = 'Message', '&' + mid(t)
        else:
            kind = KIND[t]
            if t in RANGE:
                mn, mx = RANGE[t]
        ty = f.opts.get('type')
        if ty and not isinstance(t, Enum):
            base, _, nb = ty.partition(':')
            mn, mx = BITS[base]
            if nb:
                bits = int(nb)
                mn, mx = (0, 2**bits - 1) if base.startswith('u') else (-2**(bits - 1), 2**(bits - 1) - 1)
        packed = False
        if label == 'Rep' and kind not in ('String', 'Bytes', 'Message'):
            packed = f.packed if f.packed is not None else self.syntax == 'proto3'
        ms = self.lim(f, m, 'max_size') if kind in ('String', 'Bytes') and limits else None
        mc = self.lim(f, m, 'max_count') if label == 'Rep' and limits else None
        fixed_n, fixed_sz = -1, -1
        if label == 'Rep':
            r = self.lim(f, m, 'repeated')
            if r and 'array<' in r:
                fixed_n = int(r.rsplit(',', 1)[1].strip(' >'))
        if kind in ('String', 'Bytes') and not map_side:
            r = self.lim(f, m, 'string' if kind == 'String' else 'bytes')
            if r and 'array<' in r:
                fixed_sz = int(r.rsplit(',', 1)[1].strip(' >'))
        jout = f.json or f.name
        alts = sorted({f.name, camel(f.name)} | ({f.json} if f.json else set()))
        if f.json:
            alts = sorted({f.name, f.json})
        dflt = 'std::nullopt'
        if f.default is not None:
            dflt = 'std::optional<Val>(%s)' % f.default[1]
        return ('FieldDesc{.name=%s,.json=%s,.accept={%s},.num=%d,.kind=K::%s,.label=L::%s,.packed=%s,.msg=%s,'
                '.en=%s,.oneof=%d,.min=%s,.max=%s,.bits=%d,.max_size=%d,.max_count=%d,.fixed_n=%d,.fixed_sz=%d,'
                '.dflt=%s}' %
                (cs(f.name), cs(jout), ','.join(cs(a) for a in alts), f.num, kind, label,
                 'true' if packed else 'false', msg, en, oneof, imm(mn), '%dULL' % mx, bits, ms or 0, mc or 0,
                 fixed_n, fixed_sz, dflt))

    def bind(self):
        """C++ header with descriptor tables and visitors"""
        o = ['#pragma once', '#include <%s.pb.h>' % self.name, '#include "vt_bind.hpp"']
        for i in self.imports:
            if not isinstance(i, str):
                o.append('#include "%s.bind.hpp"' % i.name)
        o.append('namespace vt {')
        for e in self.all_enums():
            o.append('inline EnumDesc %s{%s,{%s}};' % (eid(e), cs(e.full), ','.join(
                '{%s,%d}' % (cs(n), v) for n, v in e.values)))
        for m in self.all_msgs():
            o.append('inline MsgDesc %s;' % mid(m))
            for k, it in enumerate(m.items):
                if isinstance(it, Map):
                    o.append('inline MsgDesc %s_e%d;' % (mid(m), k))
        for m in self.all_msgs():
            o.append('template<> struct Bind<%s> {' % m.cpp)
            o.append(' static const MsgDesc& desc() { return %s; }' % mid(m))
            o.append(' template<class V, class Fn> static void visit(V& v, Fn&& fn) {')
            o.append('  [[maybe_unused]] const auto& fs = desc().fields; (void)v; (void)fn;')
            i = 0
            for it in m.items:
                if isinstance(it, Oneof):
                    o.append('  fn.oneof(v.%s, &fs[%d], %d);' % (cpp(it.name), i, len(it.fields)))
                    i += len(it.fields)
                elif isinstance(it, F) and ':' in str(it.opts.get('type', '')):
                    n = cpp(it.name)
                    o.append('  fn.bits([&]{ return v.%s; }, [&](auto t){ v.%s = t; }, fs[%d]);' % (n, n, i))
                    i += 1
                else:
                    o.append('  fn.field(v.%s, fs[%d]);' % (cpp(it.name), i))
                    i += 1
            o.append(' }')
            o.append('};')
        o.append('inline void init_%s() {' % self.name)
        for m in self.all_msgs():
            o.append(' %s.name=%s;' % (mid(m), cs(m.full)))
            oi = 0
            for k, it in enumerate(m.items):
                if isinstance(it, Oneof):
                    for f in it.fields:
                        o.append(' %s.fields.push_back(%s);' % (mid(m), self._fdesc(m, f, 'One', oi)))
                    oi += 1
                elif isinstance(it, Map):
                    e = '%s_e%d' % (mid(m), k)
                    o.append(' %s.name=%s;' % (e, cs(m.full + '.' + it.name + '.entry')))
                    # key/value of a map only inherit message and file limits, and only in JSON;
                    # no fixture sets max_size above a map
                    o.append(' %s.fields.push_back(%s);' % (e, self._fdesc(m, F('key', it.key, 1), 'Req', map_side=True)))
                    o.append(' %s.fields.push_back(%s);' % (e, self._fdesc(m, F('value', it.val, 2), 'Req', map_side=True)))
                    alts = {it.name, it.json or camel(it.name)}
                    o.append(' %s.fields.push_back(FieldDesc{.name=%s,.json=%s,.accept={%s},.num=%d,.kind=K::Message,'
                             '.label=L::Map,.msg=&%s});' % (mid(m), cs(it.name), cs(it.json or it.name),
                                                            ','.join(cs(a) for a in sorted(alts)), it.num, e))
                else:
                    lab = {'repeated': 'Rep', 'required': 'Req'}.get(it.label, 'Opt')
                    o.append(' %s.fields.push_back(%s);' % (mid(m), self._fdesc(m, it, lab)))
        o.append('}')
        o.append('} // namespace vt')
        return '\n'.join(o) + '\n'

    def bind_cc(self, skip=()):
        o = ['#include "%s.bind.hpp"' % self.name, '#include "vt_ops.hpp"', 'namespace vt {',
             'void register_%s(Registry& r) {' % self.name, ' init_%s();' % self.name]
        for m in self.all_msgs():
            if m.name not in skip:
                o.append(' r.add(new OpsT<%s>);' % m.cpp)
        o.append('}')
        o.append('}')
        return '\n'.join(o) + '\n'


def lit(v):
    return '"%s"' % v if isinstance(v, str) else str(v)


def cs(s):
    return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"')


def imm(v):
    return 'INT64_MIN' if v == -2**63 else '%dLL' % v


def mid(m):
    return 'M_' + m.full.replace('.', '_')


def eid(e):
    return 'E_' + e.full.replace('.', '_')
