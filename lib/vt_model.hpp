// Reference model of protobuf messages: descriptors, dynamic values and an independent wire codec.
// Nothing here includes the code under test.
#pragma once
#include <algorithm>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <vector>

namespace vt {
enum class K : uint8_t { Double, Float, Int32, Int64, UInt32, UInt64, SInt32, SInt64, Fixed32, Fixed64, SFixed32, SFixed64, Bool, String, Bytes, Enum, Message };
enum class L : uint8_t { Opt, Req, Rep, One, Map };

struct MsgVal;
struct Val {
    uint64_t u = 0; // integers: sign extended two's complement; floats: bit pattern
    std::string s;
    std::shared_ptr<MsgVal> m;
    Val() = default;
    Val(uint64_t x) : u(x) {}
    Val(int64_t x) : u(uint64_t(x)) {}
    Val(int x) : u(uint64_t(int64_t(x))) {}
    Val(unsigned x) : u(x) {}
    Val(long long x) : u(uint64_t(x)) {}
    Val(unsigned long long x) : u(x) {}
    Val(std::string x) : s(std::move(x)) {}
    Val(const char *x) : s(x) {}
    Val(double d) { memcpy(&u, &d, 8); }
    Val(float d) { uint32_t x; memcpy(&x, &d, 4); u = x; }
    inline Val(const MsgVal &x);
};
struct MsgVal {
    std::map<int, std::vector<Val>> f;
    bool has(int n) const { return f.count(n) != 0; }
};
inline Val::Val(const MsgVal &x) : m(std::make_shared<MsgVal>(x)) {}

struct EnumDesc { const char *name; std::vector<std::pair<const char *, int64_t>> values; };
struct MsgDesc;
struct FieldDesc {
    const char *name = "";
    const char *json = "";
    std::vector<const char *> accept = {};
    int num = 0;
    K kind = K::Int32;
    L label = L::Opt;
    bool packed = false;
    const MsgDesc *msg = nullptr;
    const EnumDesc *en = nullptr;
    int oneof = -1;
    int64_t min = 0;
    uint64_t max = 0;
    int bits = 0;
    uint32_t max_size = 0, max_count = 0;
    int fixed_n = -1, fixed_sz = -1;
    std::optional<Val> dflt = std::nullopt;
    bool is_int() const { return !(kind == K::Double || kind == K::Float || kind == K::String || kind == K::Bytes || kind == K::Message); }
    bool is_signed() const { return kind == K::Int32 || kind == K::Int64 || kind == K::SInt32 || kind == K::SInt64 || kind == K::SFixed32 || kind == K::SFixed64 || kind == K::Enum; }
    bool in_range(uint64_t u) const { return is_signed() ? (int64_t(u) >= min && (int64_t(u) < 0 || uint64_t(u) <= max)) : u <= max; }
};
struct MsgDesc {
    const char *name = "";
    std::vector<FieldDesc> fields;
    const FieldDesc *by_num(int n) const { for (auto &f : fields) if (f.num == n) return &f; return nullptr; }
};

// ------------------------------------------------------------------ hashing / printing
inline uint64_t hash64(std::string_view s, uint64_t h = 1469598103934665603ULL)
{
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; h ^= h >> 32;
    return h;
}
inline std::string hex(std::string_view s, size_t limit = 400)
{
    std::string o; char b[4];
    for (size_t i = 0; i < s.size() && i < limit; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); o += b; }
    if (s.size() > limit) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}
inline std::string quoted(std::string_view s, size_t limit = 400)
{
    std::string o = "\""; char b[8];
    for (size_t i = 0; i < s.size() && i < limit; i++) {
        unsigned char c = s[i];
        if (c < 32 || c >= 127 || c == '"' || c == '\\') { snprintf(b, 8, "\\x%02x", c); o += b; } else o += char(c);
    }
    o += '"';
    if (s.size() > limit) o += "...(" + std::to_string(s.size()) + " bytes)";
    return o;
}
inline double as_double(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline float as_float(uint64_t u) { uint32_t x = uint32_t(u); float d; memcpy(&d, &x, 4); return d; }

inline std::string canon(const MsgDesc &d, const MsgVal &m, bool brief = false);
inline std::string canon(const FieldDesc &f, const Val &v, bool brief)
{
    switch (f.kind) {
    case K::Double: return std::isnan(as_double(v.u)) ? "nan" : "d" + std::to_string(v.u);
    case K::Float: return std::isnan(as_float(v.u)) ? "nan" : "f" + std::to_string(uint32_t(v.u));
    case K::String:
    case K::Bytes: return brief ? quoted(v.s, 60) : std::to_string(v.s.size()) + ":" + v.s;
    case K::Message: return v.m ? canon(*f.msg, *v.m, brief) : "{null}";
    default: return f.is_signed() ? std::to_string(int64_t(v.u)) : std::to_string(v.u);
    }
}
// canonical text: injective for messages which are equal up to map order and NaN payload
inline std::string canon(const MsgDesc &d, const MsgVal &m, bool brief)
{
    std::string o = "{";
    for (auto &[n, vs] : m.f) {
        auto *f = d.by_num(n);
        if (!f) { o += "?" + std::to_string(n); continue; }
        if (vs.empty() && (f->label == L::Rep || f->label == L::Map)) continue;
        if (brief) o += f->name, o += '='; else o += std::to_string(n) + "=";
        std::vector<std::string> parts;
        for (auto &v : vs) parts.push_back(canon(*f, v, brief));
        if (f->label == L::Map) std::sort(parts.begin(), parts.end());
        size_t shown = 0;
        for (auto &p : parts) { if (brief && ++shown > 6) { o += "...x" + std::to_string(parts.size()); break; } o += p; o += ','; }
        o += ';';
    }
    return o + "}";
}
inline std::string show(const MsgDesc &d, const MsgVal &m) { auto s = canon(d, m, true); return s.size() > 900 ? s.substr(0, 900) + "..." : s; }

// value of a field which was never set (plain `required` members always exist)
inline Val default_val(const FieldDesc &f);
inline void norm(const MsgDesc &d, MsgVal &m)
{
    for (auto &f : d.fields) {
        auto it = m.f.find(f.num);
        if (f.label == L::Req && (it == m.f.end() || it->second.empty())) { m.f[f.num] = {default_val(f)}; it = m.f.find(f.num); }
        if (f.label == L::Rep && f.fixed_n >= 0 && it == m.f.end()) { m.f[f.num] = std::vector<Val>(size_t(f.fixed_n), default_val(f)); continue; }
        if (f.label == L::Opt && f.dflt && it == m.f.end()) { m.f[f.num] = {*f.dflt}; continue; }
        if (it == m.f.end()) continue;
        if ((f.label == L::Rep || f.label == L::Map) && it->second.empty()) { m.f.erase(it); continue; }
        if (f.label == L::Map) {
            // the last occurrence of a key wins
            std::map<std::string, Val> uniq; auto &e = *f.msg;
            for (auto &v : it->second) {
                MsgVal x = v.m ? *v.m : MsgVal{}; norm(e, x);
                uniq[canon(e.fields[0], x.f[1][0], false)] = Val(x);
            }
            it->second.clear();
            for (auto &[k, v] : uniq) it->second.push_back(v);
        } else if (f.kind == K::Message) {
            for (auto &v : it->second) { MsgVal x = v.m ? *v.m : MsgVal{}; norm(*f.msg, x); v.m = std::make_shared<MsgVal>(std::move(x)); }
        }
    }
}
inline Val default_val(const FieldDesc &f)
{
    Val v;
    if (f.dflt) return *f.dflt;
    if (f.kind == K::Message) { MsgVal x; norm(*f.msg, x); v.m = std::make_shared<MsgVal>(x); }
    if (f.fixed_sz >= 0) v.s.assign(size_t(f.fixed_sz), '\0');
    return v;
}
inline MsgVal normed(const MsgDesc &d, MsgVal m) { norm(d, m); return m; }

// ------------------------------------------------------------------ UTF-8 (Unicode table 3-7)
inline bool utf8_ok(std::string_view s)
{
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        auto cont = [&](size_t k, unsigned lo = 0x80, unsigned hi = 0xbf) { return i + k < s.size() && (unsigned char)s[i + k] >= lo && (unsigned char)s[i + k] <= hi; };
        if (c < 0x80) i += 1;
        else if (c >= 0xc2 && c <= 0xdf) { if (!cont(1)) return false; i += 2; }
        else if (c == 0xe0) { if (!cont(1, 0xa0) || !cont(2)) return false; i += 3; }
        else if (c == 0xed) { if (!cont(1, 0x80, 0x9f) || !cont(2)) return false; i += 3; }
        else if (c >= 0xe1 && c <= 0xef) { if (!cont(1) || !cont(2)) return false; i += 3; }
        else if (c == 0xf0) { if (!cont(1, 0x90) || !cont(2) || !cont(3)) return false; i += 4; }
        else if (c >= 0xf1 && c <= 0xf3) { if (!cont(1) || !cont(2) || !cont(3)) return false; i += 4; }
        else if (c == 0xf4) { if (!cont(1, 0x80, 0x8f) || !cont(2) || !cont(3)) return false; i += 4; }
        else return false;
    }
    return true;
}

// ------------------------------------------------------------------ wire encoding
enum WT { VARINT = 0, I64 = 1, LEN = 2, SGROUP = 3, EGROUP = 4, I32 = 5 };
inline int wire_type(K k)
{
    switch (k) {
    case K::Double: case K::Fixed64: case K::SFixed64: return I64;
    case K::Float: case K::Fixed32: case K::SFixed32: return I32;
    case K::String: case K::Bytes: case K::Message: return LEN;
    default: return VARINT;
    }
}
inline void put_varint(std::string &o, uint64_t v, int pad = 0)
{
    for (;;) {
        unsigned char b = v & 0x7f; v >>= 7;
        if (v || pad > 0) { if (!v) --pad; o += char(b | 0x80); } else { o += char(b); return; }
    }
}
inline std::string varint(uint64_t v, int pad = 0) { std::string o; put_varint(o, v, pad); return o; }
inline std::string tag(uint32_t num, int wt) { return varint((uint64_t(num) << 3) | unsigned(wt)); }
inline std::string len(std::string_view s) { auto o = varint(s.size()); o += s; return o; }
inline uint64_t zigzag(int64_t v) { return (uint64_t(v) << 1) ^ uint64_t(v >> 63); }
inline std::string le(uint64_t v, int n) { std::string o; for (int i = 0; i < n; i++) o += char((v >> (8 * i)) & 0xff); return o; }
inline std::string ref_encode(const MsgDesc &d, const MsgVal &m);
inline std::string ref_scalar(const FieldDesc &f, const Val &v, int pad = 0)
{
    switch (f.kind) {
    case K::Double: case K::Fixed64: case K::SFixed64: return le(v.u, 8);
    case K::Float: case K::Fixed32: case K::SFixed32: return le(v.u, 4);
    case K::SInt32: return varint(uint32_t(zigzag(int64_t(v.u))), pad);
    case K::SInt64: return varint(zigzag(int64_t(v.u)), pad);
    case K::String: case K::Bytes: return len(v.s);
    case K::Message: return len(ref_encode(*f.msg, *v.m));
    default: return varint(v.u, pad); // negative int32/enum: 10 bytes, sign extended
    }
}
inline std::string ref_field(const FieldDesc &f, const std::vector<Val> &vs)
{
    std::string o;
    if (f.label == L::Rep && f.packed) {
        if (vs.empty()) return o;
        std::string body;
        for (auto &v : vs) body += ref_scalar(f, v);
        return tag(f.num, LEN) + len(body);
    }
    for (auto &v : vs) { o += tag(f.num, wire_type(f.kind)); o += ref_scalar(f, v); }
    return o;
}
inline std::string ref_encode(const MsgDesc &d, const MsgVal &m)
{
    std::string o;
    for (auto &f : d.fields) if (auto it = m.f.find(f.num); it != m.f.end()) o += ref_field(f, it->second);
    return o;
}

// ------------------------------------------------------------------ wire decoding
struct Reject : std::runtime_error { using runtime_error::runtime_error; };
struct Unspecified : std::runtime_error { using runtime_error::runtime_error; }; // outside of what the property says

struct DecodeOpt {
    bool canonical = false; // additionally require the canonical form an encoder has to produce
    int depth = 0;
    int max_depth_ok = 100; // deeper than this but not deeper than max_depth_bad: unspecified
    int max_depth_bad = 2000;
};
struct Cursor {
    std::string_view s; size_t i = 0;
    bool end() const { return i >= s.size(); }
    uint64_t get_varint(bool canonical, bool *long10 = nullptr)
    {
        uint64_t v = 0; size_t start = i;
        for (int k = 0; k < 10; k++) {
            if (end()) throw Reject("truncated varint");
            unsigned char b = s[i++];
            if (k == 9 && (b & 0x7f) > 1 && !(b & 0x80)) throw Unspecified("varint has more than 64 bits");
            v |= uint64_t(b & 0x7f) << (7 * k);
            if (!(b & 0x80)) {
                if (canonical && b == 0 && i - start > 1) throw Reject("varint is not minimal");
                if (long10) *long10 = i - start == 10;
                return v;
            }
        }
        throw Reject("varint is longer than 10 bytes");
    }
    std::string_view take(size_t n) { if (s.size() - i < n) throw Reject("length exceeds the input"); auto r = s.substr(i, n); i += n; return r; }
};
inline uint64_t get_le(std::string_view s) { uint64_t v = 0; for (size_t i = s.size(); i-- > 0;) v = (v << 8) | (unsigned char)s[i]; return v; }
inline void ref_decode(const MsgDesc &d, std::string_view in, MsgVal &m, DecodeOpt o = {});
inline Val ref_get(const FieldDesc &f, Cursor &c, const DecodeOpt &o, const MsgVal *merge = nullptr)
{
    Val v;
    switch (f.kind) {
    case K::Double: case K::Fixed64: case K::SFixed64: v.u = get_le(c.take(8)); break;
    case K::Float: case K::Fixed32: v.u = get_le(c.take(4)); break;
    case K::SFixed32: v.u = uint64_t(int64_t(int32_t(get_le(c.take(4))))); break;
    case K::Int32: case K::Enum: {
        bool l10 = false;
        auto x = c.get_varint(o.canonical, &l10);
        v.u = uint64_t(int64_t(int32_t(x)));
        if (o.canonical && v.u != x) throw Reject("negative 32-bit value is not sign extended");
        if (v.u != x && x > 0xffffffffULL) throw Unspecified("int32 out of range");
        break;
    }
    case K::Int64: case K::UInt64:
        v.u = c.get_varint(o.canonical);
        // the narrowed storage of an int64 is read as the same storage of an int32 (see DESIGN.md, limitations)
        if (f.kind == K::Int64 && f.max <= 0x7fffffff && !f.in_range(v.u) && (f.max == 0x7fffffff || (v.u >= 0x80000000ull && v.u <= 0xffffffffull))) throw Unspecified("narrowed int64");
        break;
    case K::UInt32: v.u = c.get_varint(o.canonical); if (v.u > 0xffffffffULL) throw Unspecified("uint32 out of range"); break;
    case K::Bool: { auto at = c.i; v.u = c.get_varint(o.canonical); if (c.i != at + 1 || v.u > 1) throw Unspecified("bool is not 0 or 1"); break; }
    case K::SInt32: { auto x = c.get_varint(o.canonical); if (x > 0xffffffffULL) throw Unspecified("sint32 out of range"); v.u = uint64_t(int64_t(x >> 1) ^ -int64_t(x & 1)); break; }
    case K::SInt64: { auto x = c.get_varint(o.canonical); v.u = (x >> 1) ^ (~(x & 1) + 1); break; }
    case K::String: case K::Bytes: {
        auto n = c.get_varint(o.canonical); if (n > c.s.size() - c.i) throw Reject("length exceeds the input");
        v.s = std::string(c.take(n));
        if (f.kind == K::String && !utf8_ok(v.s)) throw Reject("invalid utf-8");
        if (f.max_size && v.s.size() > f.max_size) throw Reject("max_size");
        if (f.fixed_sz >= 0 && v.s.size() != size_t(f.fixed_sz)) throw Reject("fixed size");
        break;
    }
    case K::Message: {
        auto n = c.get_varint(o.canonical); if (n > c.s.size() - c.i) throw Reject("length exceeds the input");
        MsgVal x; if (merge) x = *merge;
        auto sub = o; sub.depth++;
        if (sub.depth > o.max_depth_bad) throw Reject("too deep");
        if (sub.depth > o.max_depth_ok) throw Unspecified("deep");
        ref_decode(*f.msg, c.take(n), x, sub);
        v.m = std::make_shared<MsgVal>(std::move(x));
        return v;
    }
    }
    if (f.is_int() && f.kind != K::Bool && !f.in_range(v.u)) throw Reject("does not fit the storage type");
    return v;
}
// decodes into `m` (merge semantics); throws Reject / Unspecified
inline void ref_decode(const MsgDesc &d, std::string_view in, MsgVal &m, DecodeOpt o)
{
    Cursor c{in};
    while (!c.end()) {
        auto at = c.i;
        auto t = c.get_varint(o.canonical);
        if (c.i - at > 5) throw Reject("tag is longer than 5 bytes");
        if (t > 0xffffffffULL) throw Unspecified("tag out of range");
        auto num = uint32_t(t >> 3); int wt = int(t & 7);
        if (num == 0) throw Reject("field number 0");
        auto *f = d.by_num(int(num));
        if (!f) {
            if (o.canonical) throw Reject("unknown field in the output");
            switch (wt) {
            case VARINT: c.get_varint(false); break;
            case I64: c.take(8); break;
            case I32: c.take(4); break;
            case LEN: { auto n = c.get_varint(false); if (n > c.s.size() - c.i) throw Reject("length exceeds the input"); c.take(n); break; }
            case SGROUP: case EGROUP: throw Unspecified("group");
            default: throw Reject("invalid wire type");
            }
            continue;
        }
        auto &vs = m.f[f->num];
        if (f->label == L::Rep && wire_type(f->kind) != LEN && wt == LEN) {
            if (o.canonical && !f->packed) throw Reject("packed encoding of an unpacked field");
            auto n = c.get_varint(o.canonical); if (n > c.s.size() - c.i) throw Reject("length exceeds the input");
            Cursor p{c.take(n)};
            std::vector<Val> got;
            while (!p.end()) got.push_back(ref_get(*f, p, o));
            if (o.canonical && got.empty()) throw Reject("empty packed field in the output");
            if (o.canonical && !vs.empty()) throw Reject("packed field in more than one record");
            if (f->fixed_n >= 0) { if (got.size() != size_t(f->fixed_n)) throw Reject("fixed count"); vs = got; }
            else for (auto &v : got) vs.push_back(v);
            if (f->max_count && vs.size() > f->max_count) throw Reject("max_count");
            if (vs.empty()) m.f.erase(f->num);
            continue;
        }
        if (wt != wire_type(f->kind)) { if (vs.empty()) m.f.erase(f->num); throw (wt > 5) ? Reject("invalid wire type") : Reject("wire type mismatch"); }
        if (o.canonical && f->label == L::Rep && f->packed) throw Reject("unpacked encoding of a packed field");
        if (f->label == L::Rep && f->fixed_n >= 0) throw Unspecified("unpacked fixed size array");
        if (f->label == L::Rep || f->label == L::Map) {
            auto v = ref_get(*f, c, o);
            if (f->label == L::Map) { norm(*f->msg, *v.m); }
            vs.push_back(v);
            if (f->max_count && vs.size() > f->max_count) throw Reject("max_count");
            continue;
        }
        if (o.canonical && !vs.empty()) throw Reject("singular field occurs more than once");
        if (f->label == L::One) {
            for (auto &g : d.fields) if (g.label == L::One && g.oneof == f->oneof && g.num != f->num && m.f.count(g.num)) {
                if (o.canonical) throw Reject("two members of a oneof");
                m.f.erase(g.num);
            }
        }
        const MsgVal *merge = (f->kind == K::Message && !m.f[f->num].empty()) ? m.f[f->num][0].m.get() : nullptr;
        auto v = ref_get(*f, c, o, merge);
        m.f[f->num] = {v};
    }
}
enum class Verdict { Ok, Reject, Unspecified };
inline Verdict ref_try(const MsgDesc &d, std::string_view in, MsgVal &m, std::string *why = nullptr, DecodeOpt o = {})
{
    try { ref_decode(d, in, m, o); norm(d, m); return Verdict::Ok; }
    catch (const Unspecified &e) { if (why) *why = e.what(); return Verdict::Unspecified; }
    catch (const Reject &e) { if (why) *why = e.what(); return Verdict::Reject; }
}
} // namespace vt
