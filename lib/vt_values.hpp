// Value alphabets and the explicit state space of messages: states are canonical message values, a transition assigns
// one field. Enumerated breadth first from several start states, without repetition.
#pragma once
#include "vt_run.hpp"
#include <limits>

namespace vt {
struct Alpha {
    bool json = false;    // only defined enum values
    size_t cap = SIZE_MAX; // elements/bytes which a static container holds
    size_t map_cap = SIZE_MAX;
    size_t count_cap = SIZE_MAX;
    bool big = true;      // 16 kB strings
};
inline Alpha alpha_for(const MsgDesc &d, bool json)
{
    Alpha a; a.json = json;
    if (std::string_view(d.name).starts_with("Vt.Static")) { a.cap = 590; a.map_cap = 40; }
    if (std::string_view(d.name).starts_with("Vt.Tiny")) { a.cap = 300; a.count_cap = 6; a.map_cap = 4; }
    return a;
}
inline std::string utf8(uint32_t c)
{
    std::string o;
    if (c < 0x80) o += char(c);
    else if (c < 0x800) { o += char(0xc0 | c >> 6); o += char(0x80 | (c & 63)); }
    else if (c < 0x10000) { o += char(0xe0 | c >> 12); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    else { o += char(0xf0 | c >> 18); o += char(0x80 | (c >> 12 & 63)); o += char(0x80 | (c >> 6 & 63)); o += char(0x80 | (c & 63)); }
    return o;
}
inline std::string pattern(size_t n, unsigned mul = 7, unsigned add = 3) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = char('a' + (i * mul + add) % 26); return s; }
inline std::string bin_pattern(size_t n, unsigned mul = 37, unsigned add = 11) { std::string s(n, 0); for (size_t i = 0; i < n; i++) s[i] = char(i * mul + add); return s; }

// lv 0: two or three values, 1: the interesting ones, 2: every boundary
inline std::vector<Val> scalar_values(const FieldDesc &f, int lv, const Alpha &a)
{
    std::vector<Val> o;
    switch (f.kind) {
    case K::Double: case K::Float: {
        std::vector<double> v{1.5, -0.0};
        if (lv >= 1) for (double x : {0.0, -1.0, 0.1, 1e21, (double)INFINITY, -(double)INFINITY, (double)NAN}) v.push_back(x);
        if (lv >= 2) for (double x : {1.0, -0.1, 3.14159265358979, 1e-5, 123456789.0, 16777216.0, 16777217.0, 9007199254740993.0, 1e15, 1e16, 1e17, 1e20, 1e22, 1e-7, 2.5e-8, 1.0 / 3,
                                      (double)std::numeric_limits<float>::max(), (double)std::numeric_limits<float>::lowest(), (double)std::numeric_limits<float>::min(), (double)std::numeric_limits<float>::denorm_min(),
                                      1e-45, 9.999999e9, 0.3f + 0.0, 8388608.5})
            v.push_back(x);
        for (double x : v) o.push_back(f.kind == K::Double ? Val(x) : Val(float(x)));
        if (f.kind == K::Double && lv >= 2)
            for (double x : {std::numeric_limits<double>::max(), std::numeric_limits<double>::lowest(), std::numeric_limits<double>::min(), std::numeric_limits<double>::denorm_min(), std::numeric_limits<double>::epsilon(), 5e-324, 2.2250738585072011e-308, 1.7976931348623157e308, 0.1 + 0.2, 123456789012345678.0, 18446744073709551615.0, 1e100, 1e-100})
                o.push_back(Val(x));
        break;
    }
    case K::Bool: o = {Val(1), Val(0)}; break;
    case K::String: {
        if (f.fixed_sz >= 0) {
            auto n = size_t(f.fixed_sz);
            o.push_back(pattern(n)); if (lv) o.push_back(std::string(n, '\0'));
            if (lv >= 2) { o.push_back(std::string(n, '"')); if (n >= 4) o.push_back(utf8(0x1f600) + std::string(n - 4, 'x')); if (n >= 2) o.push_back(utf8(0xe9) + std::string(n - 2, '\n')); }
            break;
        }
        std::vector<std::string> v{"a", ""};
        if (lv >= 1) for (auto &s : {pattern(127), pattern(128), std::string("q\"\\/\b\f\n\r\t"), std::string("\0z", 2), utf8(0x20ac) + utf8(0x1f600)}) v.push_back(s);
        if (lv >= 2) {
            for (size_t n : {2, 3, 4, 31, 32, 33, 63, 64, 65, 126, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513}) v.push_back(pattern(n));
            if (a.big) for (size_t n : {16382, 16383, 16384, 65536}) v.push_back(pattern(n));
            for (int c = 0; c < 128; c++) { v.push_back(std::string(1, char(c))); if (c < 32 || c == 127 || c == '"' || c == '\\') v.push_back("x" + std::string(1, char(c)) + "y"); }
            for (uint32_t c : {0x80u, 0x7ffu, 0x800u, 0xfffu, 0x1000u, 0xcfffu, 0xd000u, 0xd7ffu, 0xe000u, 0xfeffu, 0xfffdu, 0xffffu, 0x10000u, 0x10ffffu, 0x100000u, 0xfffffu, 0x40000u, 0x3ffffu}) { v.push_back(utf8(c)); v.push_back("a" + utf8(c) + "b"); v.push_back(utf8(c) + utf8(c)); }
            for (const char *s : {"null", "true", "{}", "[]", "\\u0041", "\\", "a\\", "\"\"", "NaN", "0", "-1", " a ", "</script>"}) v.push_back(s);
            for (size_t n : {250, 251, 252, 253, 254, 255, 256, 257}) v.push_back(pattern(n) + utf8(0x1f600) + "\"");
        }
        for (auto &s : v) if (s.size() <= a.cap && (!f.max_size || s.size() <= f.max_size)) o.push_back(s);
        if (f.max_size) { o.push_back(pattern(f.max_size)); if (f.max_size >= 4) o.push_back(utf8(0x1f600) + pattern(f.max_size - 4)); o.push_back(pattern(f.max_size - 1)); }
        break;
    }
    case K::Bytes: {
        if (f.fixed_sz >= 0) {
            auto n = size_t(f.fixed_sz);
            o.push_back(bin_pattern(n)); if (lv) o.push_back(std::string(n, '\0'));
            if (lv >= 2) for (int c : {1, 0x3f, 0x40, 0x7f, 0x80, 0xfb, 0xff}) o.push_back(std::string(n, char(c)));
            break;
        }
        std::vector<std::string> v{"\x01\xff", ""};
        if (lv >= 1) for (auto &s : {bin_pattern(127), bin_pattern(128), std::string(1, '\0'), std::string(3, '\xff'), std::string("\xfb\xef\xbe\xff", 4)}) v.push_back(s);
        if (lv >= 2) {
            for (int c = 0; c < 256; c++) v.push_back(std::string(1, char(c)));
            for (size_t n = 2; n < 14; n++) v.push_back(bin_pattern(n));
            for (size_t n : {62, 63, 64, 65, 126, 129, 190, 191, 192, 193, 194, 254, 255, 256, 257, 258, 300, 511, 512, 513}) v.push_back(bin_pattern(n));
            if (a.big) for (size_t n : {16383, 16384}) v.push_back(bin_pattern(n));
        }
        for (auto &s : v) if (s.size() <= a.cap && (!f.max_size || s.size() <= f.max_size)) o.push_back(s);
        if (f.max_size) { o.push_back(bin_pattern(f.max_size)); o.push_back(bin_pattern(f.max_size - 1)); }
        break;
    }
    case K::Enum:
        for (auto &[n, v] : f.en->values) { bool dup = false; for (auto &x : o) dup |= int64_t(x.u) == v; if (!dup && (lv >= 1 || o.size() < 3)) o.push_back(Val(v)); }
        if (!a.json && lv >= 1) for (int64_t x : {int64_t(3), f.min, int64_t(f.max), int64_t(-2)}) if (f.in_range(uint64_t(x))) { bool dup = false; for (auto &y : o) dup |= int64_t(y.u) == x; if (!dup) o.push_back(Val(x)); }
        break;
    case K::Message: break;
    default: {
        std::vector<uint64_t> v;
        auto add = [&](uint64_t x) { if (f.in_range(x) && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); };
        add(1); add(0); add(f.max); add(uint64_t(f.min)); add(uint64_t(-1));
        if (lv >= 1) { for (uint64_t x : {127ull, 128ull, 300ull, 16384ull, 0x7fffffffull, 0x80000000ull, 0xffffffffull}) add(x); add(uint64_t(-128)); add(uint64_t(-65)); add(uint64_t(-64)); add(uint64_t(INT32_MIN)); }
        if (lv >= 2) {
            for (int k = 0; k < 64; k++) for (int e : {-1, 0, 1}) { uint64_t x = (1ull << k) + uint64_t(int64_t(e)); add(x); if (f.is_signed()) add(uint64_t(-int64_t(x))); }
            uint64_t p = 1; for (int k = 0; k < 20; k++) { for (int e : {-1, 0, 1}) { add(p + uint64_t(int64_t(e))); if (f.is_signed() && p <= 1000000000000000000ull) add(uint64_t(-int64_t(p + uint64_t(int64_t(e))))); } p *= 10; }
            add(uint64_t(f.min + 1)); add(f.max - 1);
            if (f.max <= 255) for (int x = -128; x < 256; x++) add(uint64_t(int64_t(x)));
        }
        if (lv == 0 && v.size() > 3) v = {v[0], v[2], v[3] == v[1] ? v.back() : v[3]};
        for (auto x : v) o.push_back(Val(x));
    }
    }
    return o;
}
inline std::vector<std::vector<Val>> field_values(const FieldDesc &f, int lv, const Alpha &a, int depth);
// sets one field of a message (clearing the other members of its oneof)
inline void assign(const MsgDesc &d, MsgVal &m, const FieldDesc &f, const std::vector<Val> &v)
{
    if (f.label == L::One && !v.empty()) for (auto &g : d.fields) if (g.label == L::One && g.oneof == f.oneof) m.f.erase(g.num);
    if (v.empty()) m.f.erase(f.num); else m.f[f.num] = v;
}
// every field is set to its k-th value (modulo)
inline MsgVal full_msg(const MsgDesc &d, size_t k, int lv, const Alpha &a, int depth)
{
    MsgVal m;
    for (auto &f : d.fields) {
        auto vs = field_values(f, lv, a, depth);
        std::vector<std::vector<Val>> ne; for (auto &v : vs) if (!v.empty()) ne.push_back(v);
        if (ne.empty()) continue;
        if (f.label == L::One && k % 2) { bool used = false; for (auto &g : d.fields) if (g.label == L::One && g.oneof == f.oneof && m.has(g.num)) used = true; if (used) continue; }
        assign(d, m, f, ne[k % ne.size()]);
    }
    return m;
}
inline std::vector<Val> msg_values(const MsgDesc &d, int lv, const Alpha &a, int depth)
{
    std::vector<Val> o{Val(MsgVal{})};
    if (depth <= 0) return o;
    int sub = depth - 1;
    o.push_back(Val(full_msg(d, 0, 0, a, sub)));
    if (lv >= 1) {
        for (size_t k = 1; k < 4; k++) o.push_back(Val(full_msg(d, k, lv >= 2 ? 1 : 0, a, sub)));
        for (auto &f : d.fields) for (auto &v : field_values(f, lv >= 2 ? 1 : 0, a, sub)) { if (v.empty()) continue; MsgVal m; assign(d, m, f, v); o.push_back(Val(m)); if (lv == 1) break; }
    }
    return o;
}
inline std::vector<Val> element_values(const FieldDesc &f, int lv, const Alpha &a, int depth)
{
    return f.kind == K::Message ? msg_values(*f.msg, lv, a, depth) : scalar_values(f, lv, a);
}
// everything that can be assigned to a field, simplest first ({}: absent)
inline std::vector<std::vector<Val>> field_values(const FieldDesc &f, int lv, const Alpha &a, int depth)
{
    std::vector<std::vector<Val>> o;
    if (f.label == L::Map) {
        auto &e = *f.msg;
        auto entry = [&](const Val &k, const Val &v) { MsgVal m; m.f[1] = {k}; m.f[2] = {v}; return Val(m); };
        auto ks = scalar_values(e.fields[0], lv, a); auto vs = element_values(e.fields[1], lv, a, depth);
        for (auto &k : ks) o.push_back({entry(k, vs[0])});
        for (auto &v : vs) o.push_back({entry(ks[0], v)});
        std::vector<Val> all; for (size_t i = 0; i < ks.size() && all.size() < std::min<size_t>(a.map_cap, lv ? 200 : 3); i++) all.push_back(entry(ks[i], vs[i % vs.size()]));
        o.push_back(all);
        if (lv >= 2 && e.fields[0].kind != K::Bool && e.fields[0].max >= 300) {
            std::vector<Val> many; for (size_t i = 0; i < std::min<size_t>(a.map_cap, 130); i++) many.push_back(entry(Val(uint64_t(i)), vs[0])); o.push_back(many);
        }
        return o;
    }
    if (f.label == L::Rep) {
        auto es = element_values(f, lv, a, depth);
        if (f.fixed_n >= 0) {
            auto n = size_t(f.fixed_n);
            for (auto &e : es) { o.push_back(std::vector<Val>(n, e)); std::vector<Val> x(n, es[0]); x[n - 1] = e; o.push_back(x); }
            std::vector<Val> x; for (size_t i = 0; i < n; i++) x.push_back(es[i % es.size()]); o.push_back(x);
            return o;
        }
        size_t mx = f.max_count ? f.max_count : SIZE_MAX; mx = std::min({mx, a.cap, a.count_cap});
        for (auto &e : es) o.push_back({e});
        auto add = [&](std::vector<Val> v) { if (v.size() <= mx) o.push_back(std::move(v)); };
        size_t lim = lv == 0 ? 2 : lv == 1 ? 3 : 6;
        for (size_t i = 0; i < es.size() && i < lim; i++) for (size_t j = 0; j < es.size() && j < lim; j++) add({es[i], es[j]});
        if (lv >= 1) {
            std::vector<Val> all; size_t bytes = 0; for (auto &e : es) { if (all.size() >= mx || (bytes += e.s.size()) > 20000) break; all.push_back(e); } add(all);
            std::vector<Val> three(3, es[0]); add(three); if (f.max_count) add(std::vector<Val>(f.max_count, es.back()));
        }
        if (lv >= 2 && f.kind != K::Message) for (size_t n : {126, 127, 128, 129, 255, 256, 257, 300}) { std::vector<Val> v; for (size_t i = 0; i < n; i++) v.push_back(es[f.is_int() ? i % es.size() : i % 2]); add(v); add(std::vector<Val>(n, es[0])); }
        if (lv >= 2 && f.kind == K::Message) for (size_t n : {130}) add(std::vector<Val>(n, es[0]));
        if (lv >= 2 && f.is_int() && a.big) for (size_t n : {16383, 16384}) add(std::vector<Val>(n, es[0]));
        return o;
    }
    for (auto &e : element_values(f, lv, a, depth)) o.push_back({e});
    return o;
}

struct Bounds { int full_lv = 2, depth2_lv = 1, depth3_lv = 0, depth4_lv = -1; int nest = 2; bool from_full = true; double cap = 4e5; };
inline Bounds bounds(bool thorough) { Bounds b; if (thorough) { b.depth3_lv = 1; b.depth4_lv = 0; b.nest = 3; b.cap = 2e6; } return b; }

// visits every distinct state reachable within the bounds
template <class F> void explore(Run &run, const MsgDesc &d, const Alpha &a, Bounds b, F &&visit)
{
    std::unordered_set<uint64_t> seen; uint64_t trans = 0;
    auto see = [&](const MsgVal &m) {
        ++trans;
        auto h = hash64(canon(d, m, false), hash64(d.name));
        if (!seen.insert(h).second) return;
        visit(m, h);
    };
    using Op = std::pair<const FieldDesc *, std::vector<Val>>;
    auto ops = [&](int lv, int nest) { std::vector<Op> o; for (auto &f : d.fields) { if (lv < 2) o.push_back({&f, {}}); for (auto &v : field_values(f, lv, a, nest)) o.push_back({&f, v}); } return o; };
    MsgVal empty; see(empty);
    auto big = ops(b.full_lv, b.nest);
    for (auto &op : big) { MsgVal m; assign(d, m, *op.first, op.second); see(m); }
    if (b.from_full) {
        for (size_t k = 0; k < 6; k++) {
            auto start = full_msg(d, k, k < 3 ? 0 : 1, a, b.nest); see(start);
            for (auto &f : d.fields) { MsgVal m = start; m.f.erase(f.num); see(m); }
        }
        auto start = full_msg(d, 0, 0, a, 1);
        for (auto &op : big) { size_t sz = 0; for (auto &v : op.second) sz += v.s.size() + 1; if (sz > 3000) continue; MsgVal m = start; assign(d, m, *op.first, op.second); see(m); }
    }
    big.clear();
    auto deep = [&](int lv, int depth, int nest) {
        auto os = ops(lv, nest);
        std::vector<Op> keep; std::unordered_set<uint64_t> uniq;
        for (auto &op : os) {
            size_t sz = 0; for (auto &v : op.second) sz += v.s.size() + 1;
            if (sz >= 600 || op.second.empty()) continue;
            MsgVal m; assign(d, m, *op.first, op.second);
            if (uniq.insert(hash64(canon(d, m, false))).second) keep.push_back(std::move(op));
        }
        // number of combinations (elementary symmetric polynomial); a space above the cap is not entered at all
        std::vector<double> e(size_t(depth) + 1, 0); e[0] = 1;
        for (size_t i = 0; i < keep.size();) { size_t j = i; while (j < keep.size() && keep[j].first == keep[i].first) ++j; for (int k = depth; k > 0; k--) e[size_t(k)] += e[size_t(k - 1)] * double(j - i); i = j; }
        if (e[size_t(depth)] > b.cap && (depth > 3 || lv > 0)) { if (run.worker == 0) run.count("spaces_above_the_cap"); return false; }
        std::function<void(const MsgVal &, size_t, int)> rec = [&](const MsgVal &m, size_t from, int left) {
            for (size_t i = from; i < keep.size(); i++) {
                MsgVal x = m; assign(d, x, *keep[i].first, keep[i].second);
                if (left == 1) { if (depth <= 2) see(x); else { ++trans; visit(x, hash64(canon(d, x, false), hash64(d.name))); } }
                else { size_t j = i + 1; while (j < keep.size() && keep[j].first == keep[i].first) ++j; rec(x, j, left - 1); }
            }
        };
        rec(empty, 0, depth);
        return true;
    };
    if (b.depth2_lv >= 0 && !deep(b.depth2_lv, 2, 1) && b.depth2_lv > 0) deep(0, 2, 1);
    if (b.depth3_lv >= 0 && !deep(b.depth3_lv, 3, 1) && b.depth3_lv > 0) deep(0, 3, 1);
    if (b.depth4_lv >= 0) deep(b.depth4_lv, 4, 1);
    if (run.worker == 0) run.transitions += trans;
}
} // namespace vt
