// Independent JSON side of the reference model: strict RFC 8259 parser, Google's JSON mapping, and an emitter which
// writes every legal spelling of a message. Nothing here includes the code under test.
#pragma once
#include "vt_model.hpp"
#include <cerrno>
#include <cstdlib>

namespace vt::js {
struct JVPair;
struct JV {
    enum T { Null, Bool, Num, Str, Arr, Obj } t = Null;
    bool b = false;
    bool soft = false; // string: has something whose treatment is not specified (raw control, invalid utf-8/escape)
    bool hard = false; // string: has something which has to be rejected when the string is used
    bool escaped = false; // string: written with an escape sequence
    std::string s;
    std::vector<JV> a;
    std::vector<JVPair> o;
    JV(); JV(const JV &); JV(JV &&) noexcept; JV &operator=(const JV &); JV &operator=(JV &&) noexcept; ~JV();
};
struct JVPair { JV first, second; };
inline JV::JV() = default; inline JV::JV(const JV &) = default; inline JV::JV(JV &&) noexcept = default;
inline JV &JV::operator=(const JV &) = default; inline JV &JV::operator=(JV &&) noexcept = default; inline JV::~JV() = default;
// verdict of a whole document: Reject is thrown, anything unspecified is remembered
struct Parser {
    std::string_view s; size_t i = 0; bool unspec = false; std::string why; int depth = 0;
    void vague(const char *w) { if (!unspec) why = w; unspec = true; }
    [[noreturn]] void bad(const char *w) { throw Reject(w); }
    int cur() const { return i < s.size() ? (unsigned char)s[i] : -1; }
    void ws() { while (i < s.size() && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n' || s[i] == '\r')) ++i; }
    void expect(char c, const char *w) { if (cur() != (unsigned char)c) bad(w); ++i; ws(); }
    static bool ident(int c) { return c == '_' || (c >= '0' && c <= '9') || ((c | 32) >= 'a' && (c | 32) <= 'z'); }
    JV str()
    {
        JV v; v.t = JV::Str;
        if (cur() != '"') bad("expecting a string");
        ++i;
        for (;;) {
            int c = cur();
            if (c < 0) bad("unterminated string");
            ++i;
            if (c == '"') break;
            if (c < 32) { v.soft = true; v.s += char(c); continue; }
            if (c != '\\') { v.s += char(c); continue; }
            v.escaped = true;
            c = cur(); if (c < 0) bad("unterminated string");
            ++i;
            switch (c) {
            case '"': case '\\': case '/': v.s += char(c); break;
            case 'b': v.s += '\b'; break;
            case 'f': v.s += '\f'; break;
            case 'n': v.s += '\n'; break;
            case 'r': v.s += '\r'; break;
            case 't': v.s += '\t'; break;
            case 'u': {
                auto hex4 = [&](size_t at) -> long { long x = 0; for (size_t k = 0; k < 4; k++) { if (at + k >= s.size()) return -1; int h = (unsigned char)s[at + k]; int d = h >= '0' && h <= '9' ? h - '0' : (h | 32) >= 'a' && (h | 32) <= 'f' ? (h | 32) - 'a' + 10 : -1; if (d < 0) return -1; x = x * 16 + d; } return x; };
                auto h = hex4(i);
                if (h < 0) { v.hard = true; break; } // rejected wherever the string is used; do not skip: the rest may hold the closing quote
                i += 4;
                uint32_t cp = uint32_t(h);
                if (h >= 0xd800 && h <= 0xdbff) {
                    auto l = i + 1 < s.size() && s[i] == '\\' && s[i + 1] == 'u' ? hex4(i + 2) : -1;
                    if (l >= 0xdc00 && l <= 0xdfff) { cp = 0x10000 + ((uint32_t(h) - 0xd800) << 10) + (uint32_t(l) - 0xdc00); i += 6; } else { v.hard = true; break; }
                } else if (h >= 0xdc00 && h <= 0xdfff) { v.hard = true; break; }
                if (cp < 0x80) v.s += char(cp);
                else if (cp < 0x800) { v.s += char(0xc0 | cp >> 6); v.s += char(0x80 | (cp & 63)); }
                else if (cp < 0x10000) { v.s += char(0xe0 | cp >> 12); v.s += char(0x80 | (cp >> 6 & 63)); v.s += char(0x80 | (cp & 63)); }
                else { v.s += char(0xf0 | cp >> 18); v.s += char(0x80 | (cp >> 12 & 63)); v.s += char(0x80 | (cp >> 6 & 63)); v.s += char(0x80 | (cp & 63)); }
                break;
            }
            default: v.hard = true;
            }
        }
        if (!utf8_ok(v.s)) v.hard = true;
        ws();
        return v;
    }
    static bool strict_number(std::string_view t)
    {
        size_t k = 0; auto dig = [&] { size_t a = k; while (k < t.size() && isdigit((unsigned char)t[k])) ++k; return k - a; };
        if (k < t.size() && t[k] == '-') ++k;
        if (k < t.size() && t[k] == '0') ++k; else if (!dig()) return false;
        if (k < t.size() && t[k] == '.') { ++k; if (!dig()) return false; }
        if (k < t.size() && (t[k] | 32) == 'e') { ++k; if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k; if (!dig()) return false; }
        return k == t.size();
    }
    static bool loose_number(std::string_view t)
    {
        size_t k = 0; auto dig = [&] { size_t a = k; while (k < t.size() && isdigit((unsigned char)t[k])) ++k; return k - a; };
        if (k < t.size() && t[k] == '-') ++k;
        auto n = dig(); if (k < t.size() && t[k] == '.') { ++k; n += dig(); }
        if (!n) return false;
        if (k < t.size() && (t[k] | 32) == 'e') { ++k; if (k < t.size() && (t[k] == '+' || t[k] == '-')) ++k; if (!dig()) return false; }
        return k == t.size();
    }
    JV value()
    {
        if (++depth > 100) { if (depth > 2000) bad("too deep"); vague("deep"); }
        JV v = value_(); --depth; return v;
    }
    JV value_()
    {
        JV v; int c = cur();
        switch (c) {
        case '{':
            v.t = JV::Obj; ++i; ws();
            if (cur() == '}') { ++i; ws(); return v; }
            for (;;) {
                auto k = str(); expect(':', "expecting ':'");
                auto x = value(); v.o.emplace_back(std::move(k), std::move(x));
                if (cur() == ',') { ++i; ws(); continue; }
                expect('}', "expecting '}' or ','"); return v;
            }
        case '[':
            v.t = JV::Arr; ++i; ws();
            if (cur() == ']') { ++i; ws(); return v; }
            for (;;) {
                v.a.push_back(value());
                if (cur() == ',') { ++i; ws(); continue; }
                expect(']', "expecting ']' or ','"); return v;
            }
        case '"': return str();
        default: break;
        }
        for (auto *w : {"null", "true", "false"}) {
            std::string_view x = w;
            if (s.substr(i).starts_with(x) && !(i + x.size() < s.size() && ident((unsigned char)s[i + x.size()]))) {
                i += x.size(); ws(); v.t = x == "null" ? JV::Null : JV::Bool; v.b = x == "true"; return v;
            }
        }
        size_t e = i; while (e < s.size() && (isdigit((unsigned char)s[e]) || strchr("+-.eE", s[e]) != nullptr) && s[e]) ++e;
        auto t = s.substr(i, e - i);
        {   // bare nan / inf
            size_t k = i; if (k < s.size() && s[k] == '-') ++k;
            auto low = std::string(s.substr(k, 3)); for (auto &ch : low) ch = char(tolower((unsigned char)ch));
            if (low == "nan" || low == "inf") { throw Unspecified("bare nan or inf"); }
        }
        if (t.empty()) bad("expecting a value");
        if (!strict_number(t)) { if (loose_number(t)) vague("number is not written as JSON wants it"); else bad("invalid number"); }
        if (t.size() > 200) vague("very long number");
        if (e < s.size() && ident((unsigned char)s[e])) bad("invalid number");
        v.t = JV::Num; v.s = std::string(t); i = e; ws();
        return v;
    }
    JV document() { ws(); auto v = value(); if (i != s.size()) vague("content behind the document"); return v; }
};

inline bool b64_value(unsigned char c, int &v)
{
    if (c >= 'A' && c <= 'Z') v = c - 'A'; else if (c >= 'a' && c <= 'z') v = c - 'a' + 26; else if (c >= '0' && c <= '9') v = c - '0' + 52;
    else if (c == '+') v = 62; else if (c == '/') v = 63; else return false;
    return true;
}
inline std::string b64_encode(std::string_view in)
{
    static const char *T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (size_t i = 0; i < in.size(); i += 3) {
        uint32_t x = 0; size_t n = std::min<size_t>(3, in.size() - i);
        for (size_t k = 0; k < 3; k++) x = x << 8 | (k < n ? (unsigned char)in[i + k] : 0);
        for (size_t k = 0; k < 4; k++) o += k <= n ? T[x >> (18 - 6 * k) & 63] : '=';
    }
    return o;
}
struct Mapper {
    bool unspec = false; std::string why;
    void vague(const char *w) { if (!unspec) why = w; unspec = true; }
    // the text of an integer: a JSON number or a quoted number
    uint64_t integer(const FieldDesc &f, const std::string &t, bool quoted)
    {
        if (t.empty()) throw Reject("empty number");
        size_t k = 0; bool neg = false; if (t[k] == '-') { neg = true; ++k; }
        size_t d0 = k; while (k < t.size() && isdigit((unsigned char)t[k])) ++k;
        if (k == d0) throw Reject("not an integer");
        if (k != t.size()) {
            if (Parser::strict_number(t) || Parser::loose_number(t)) { // 1.0, 1e2
                char *e; double x = strtod(t.c_str(), &e);
                if (std::floor(x) == x) { vague("integer written as a float"); return 0; }
                throw Reject("integer has a fraction");
            }
            if (quoted && (t.find('"') != t.npos || t.find('\0') != t.npos)) { vague("number in a number"); return 0; }
            throw Reject("not an integer");
        }
        if (t[d0] == '0' && k - d0 > 1) vague("leading zeros");
        unsigned __int128 x = 0; for (size_t j = d0; j < t.size(); j++) { x = x * 10 + unsigned(t[j] - '0'); if (x > (unsigned __int128)1 << 70) throw Reject("integer is too big"); }
        if (f.kind == K::UInt32 || f.kind == K::UInt64 || f.kind == K::Fixed32 || f.kind == K::Fixed64) {
            if (neg) { if (x == 0) { vague("-0"); return 0; } throw Reject("negative number for an unsigned field"); }
            if (x > f.max) throw Reject("integer is too big");
            return uint64_t(x);
        }
        if (neg ? x > (unsigned __int128)(-(__int128)f.min) : x > f.max) throw Reject("integer is out of range");
        return neg ? uint64_t(-(__int128)x) : uint64_t(x);
    }
    Val floating(const FieldDesc &f, const std::string &t, bool quoted)
    {
        if (quoted) {
            if (t == "NaN") return f.kind == K::Double ? Val((double)NAN) : Val((float)NAN);
            if (t == "Infinity") return f.kind == K::Double ? Val((double)INFINITY) : Val((float)INFINITY);
            if (t == "-Infinity") return f.kind == K::Double ? Val(-(double)INFINITY) : Val(-(float)INFINITY);
            if (t.empty()) throw Reject("empty number");
            auto low = t; for (auto &c : low) c = char(tolower((unsigned char)c));
            if (low.find("nan") != low.npos || low.find("inf") != low.npos || t.find('"') != t.npos) { vague("another spelling of nan or inf"); return Val(); }
            if (!Parser::strict_number(t)) { if (Parser::loose_number(t)) vague("number is not written as JSON wants it"); else throw Reject("not a number"); }
        }
        errno = 0; Val v;
        if (f.kind == K::Double) { double x = strtod(t.c_str(), nullptr); if (errno == ERANGE && (std::isinf(x) || x == 0)) vague("float out of range"); v = Val(x); }
        else { float x = strtof(t.c_str(), nullptr); if (errno == ERANGE && (std::isinf(x) || x == 0)) vague("float out of range"); v = Val(x); }
        return v;
    }
    std::string base64(const JV &j)
    {
        auto &t = j.s; std::string o; int v;
        if (j.escaped) { vague("escape in base64"); return o; }
        bool url = false, other = false; size_t n = t.size(); size_t pad = 0;
        while (n && t[n - 1] == '=' && pad < 2) { --n; ++pad; }
        for (size_t k = 0; k < n; k++) if (!b64_value((unsigned char)t[k], v)) { if (t[k] == '-' || t[k] == '_') url = true; else other = true; }
        if (other) throw Reject("invalid base64 character");
        if (url) { vague("base64url"); return o; }
        if (n % 4 == 1) throw Reject("invalid base64 length");
        if (t.size() % 4) { if (pad == 0) { vague("base64 without padding"); return o; } throw Reject("invalid base64 padding"); }
        if ((n + pad) % 4 || (pad && n % 4 != 4 - pad)) throw Reject("invalid base64 padding");
        uint32_t acc = 0; int bits = 0;
        for (size_t k = 0; k < n; k++) { b64_value((unsigned char)t[k], v); acc = acc << 6 | uint32_t(v); bits += 6; if (bits >= 8) { bits -= 8; o += char(acc >> bits & 255); } }
        if (acc & ((1u << bits) - 1)) vague("unused base64 bits");
        return o;
    }
    void use(const JV &j) { if (j.hard) throw Reject("invalid string"); if (j.soft) vague("control character in a string"); }
    void check_size(const FieldDesc &f, const std::string &s)
    {
        if (f.max_size && s.size() > f.max_size) throw Reject("max_size");
        if (f.fixed_sz >= 0 && s.size() != size_t(f.fixed_sz)) throw Reject("fixed size");
    }
    Val one(const FieldDesc &f, const JV &j)
    {
        switch (f.kind) {
        case K::Message: if (j.t != JV::Obj) throw Reject("expecting an object"); { MsgVal m; message(*f.msg, j, m); return Val(m); }
        case K::Bool: if (j.t != JV::Bool) throw Reject("expecting true or false"); return Val(uint64_t(j.b));
        case K::String: if (j.t != JV::Str) throw Reject("expecting a string"); use(j); check_size(f, j.s); return Val(j.s);
        case K::Bytes: { if (j.t != JV::Str) throw Reject("expecting base64"); if (j.soft) throw Reject("invalid base64 character"); if (j.hard && !j.escaped) throw Reject("invalid base64 character"); if (j.hard) throw Reject("invalid base64 string"); auto b = base64(j); if (!unspec) check_size(f, b); return Val(b); }
        case K::Enum:
            if (j.t == JV::Str) { use(j); for (auto &[n, v] : f.en->values) if (j.s == n) return Val(v); throw Reject("unknown enum name"); }
            if (j.t != JV::Num) throw Reject("expecting an enum");
            { FieldDesc i; i.kind = K::Int32; i.min = INT32_MIN; i.max = INT32_MAX; auto u = integer(i, j.s, false); for (auto &[n, v] : f.en->values) if (uint64_t(v) == u) return Val(u); vague("unknown enum number"); return Val(); }
        case K::Double: case K::Float:
            if (j.t == JV::Str) { use(j); return floating(f, j.s, true); }
            if (j.t != JV::Num) throw Reject("expecting a number");
            return floating(f, j.s, false);
        default:
            if (j.t == JV::Str) { use(j); return Val(integer(f, j.s, true)); }
            if (j.t != JV::Num) throw Reject("expecting a number");
            return Val(integer(f, j.s, false));
        }
    }
    void message(const MsgDesc &d, const JV &j, MsgVal &m)
    {
        if (j.t != JV::Obj) throw Reject("expecting an object");
        std::vector<int> seen;
        for (auto &[k, x] : j.o) {
            if (k.soft || k.hard) vague("odd key");
            const FieldDesc *f = nullptr;
            for (auto &g : d.fields) for (auto *a : g.accept) if (k.s == a) f = &g;
            if (!f) { ignored(x); continue; }
            if (std::find(seen.begin(), seen.end(), f->num) != seen.end()) vague("duplicate member");
            seen.push_back(f->num);
            if (x.t == JV::Null) { if (f->label == L::Req) vague("null for a required field"); if (f->fixed_n >= 0 || f->dflt) vague("null for a fixed size array or a field with a default"); continue; }
            if (f->label == L::Map) {
                if (x.t != JV::Obj) throw Reject("expecting an object");
                auto &e = *f->msg; std::vector<std::string> keys;
                for (auto &[mk, mv] : x.o) {
                    MsgVal en; use(mk);
                    if (std::find(keys.begin(), keys.end(), mk.s) != keys.end()) vague("duplicate map key");
                    keys.push_back(mk.s);
                    auto &kf = e.fields[0];
                    if (kf.kind == K::String) { check_size(kf, mk.s); en.f[1] = {Val(mk.s)}; }
                    else if (kf.kind == K::Bool) { if (mk.s == "true") en.f[1] = {Val(1)}; else if (mk.s == "false") en.f[1] = {Val(0)}; else { auto t = mk.s; while (!t.empty() && strchr(" \t\r\n", t.back()) && t.back()) t.pop_back(); if (t == "true" || t == "false") vague("space in a map key"); else throw Reject("invalid bool key"); } }
                    else {
                        auto t = mk.s; while (!t.empty() && t.back() && strchr(" \t\r\n", t.back())) t.pop_back();
                        if (t != mk.s && !t.empty()) vague("space in a map key");
                        en.f[1] = {Val(integer(kf, t, true))};
                    }
                    if (mv.t == JV::Null) { vague("null in a map"); continue; }
                    en.f[2] = {one(e.fields[1], mv)};
                    m.f[f->num].push_back(Val(en));
                }
                continue;
            }
            if (f->label == L::Rep) {
                if (x.t != JV::Arr) throw Reject("expecting an array");
                if (f->fixed_n >= 0 && x.a.size() != size_t(f->fixed_n)) { for (auto &y : x.a) if (y.t == JV::Null) vague("null in an array"); throw Reject("fixed count"); }
                for (auto &y : x.a) { if (y.t == JV::Null) { vague("null in an array"); continue; } m.f[f->num].push_back(one(*f, y)); }
                if (f->max_count && x.a.size() > f->max_count) throw Reject("max_count");
                if (x.a.empty()) m.f.erase(f->num);
                continue;
            }
            if (f->label == L::One) {
                for (auto &g : d.fields) if (g.label == L::One && g.oneof == f->oneof && g.num != f->num && m.has(g.num)) { vague("two members of a oneof"); m.f.erase(g.num); }
            }
            m.f[f->num] = {one(*f, x)};
        }
    }
    void ignored(const JV &x)
    {
        if (x.t == JV::Str && (x.soft || x.hard)) vague("odd ignored string");
        if (x.t == JV::Num) { errno = 0; double v = strtod(x.s.c_str(), nullptr); if (errno == ERANGE && (std::isinf(v) || v == 0)) vague("float out of range"); }
        for (auto &y : x.a) ignored(y);
        for (auto &[k, y] : x.o) { if (k.soft || k.hard) vague("odd key"); ignored(y); }
    }
};
inline Verdict ref_json(const MsgDesc &d, std::string_view text, MsgVal &m, std::string *why = nullptr)
{
    try {
        Parser p{text}; auto j = p.document();
        Mapper mp; mp.message(d, j, m); norm(d, m);
        if (p.unspec || mp.unspec) { if (why) *why = p.unspec ? p.why : mp.why; return Verdict::Unspecified; }
        return Verdict::Ok;
    }
    catch (const Unspecified &e) { if (why) *why = e.what(); return Verdict::Unspecified; }
    catch (const Reject &e) {
        if (why) *why = e.what();
        // a lenient reader could have stopped earlier in an unspecified way
        return Verdict::Reject;
    }
}

// ------------------------------------------------------------------ emitter
struct Style { int v[10] = {}; };
enum { S_NAME, S_QUOTE, S_ENUM, S_ESC, S_WS, S_ORDER, S_NULL, S_UNKNOWN, S_FLOAT, S_EMPTY, S_N };
inline const int STYLE_MAX[S_N] = {3, 2, 2, 4, 5, 2, 2, 10, 4, 2};
inline const char *const STYLE_NAME[S_N] = {"name", "quote", "enum", "esc", "ws", "order", "null", "unknown", "float", "empty"};
struct Emitter {
    Style st; std::string o; int tick = 0;
    void sp()
    {
        switch (st.v[S_WS]) {
        case 1: o += ' '; break;
        case 2: o += "\r\n\t "; break;
        case 3: o += std::string("\n\t\r ").substr(size_t(tick++ % 4), 1); break;
        case 4: o += std::string(size_t(tick++ % 5 == 0 ? 261 : 1), ' '); break;
        default: break;
        }
    }
    void tok(std::string_view t) { o += t; sp(); }
    static std::string quote(std::string_view s, int esc)
    {
        std::string r = "\""; char b[32];
        for (size_t i = 0; i < s.size();) {
            unsigned char c = s[i]; size_t n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
            if (esc == 1 || esc == 2) {
                uint32_t cp = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7; for (size_t k = 1; k < n && i + k < s.size(); k++) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
                if (cp < 0x10000) { snprintf(b, 32, esc == 1 ? "\\u%04x" : "\\u%04X", cp); r += b; }
                else { snprintf(b, 32, esc == 1 ? "\\u%04x\\u%04x" : "\\u%04X\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff)); r += b; }
            } else if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
            else if (c == '/' && esc == 3) r += "\\/";
            else if (c < 32) {
                const char *e = esc == 3 ? nullptr : c == 8 ? "\\b" : c == 12 ? "\\f" : c == 10 ? "\\n" : c == 13 ? "\\r" : c == 9 ? "\\t" : nullptr;
                if (e) r += e; else { snprintf(b, 32, "\\u%04x", c); r += b; }
            } else r += s.substr(i, n);
            i += n;
        }
        return r + "\"";
    }
    void number(const std::string &t) { tok(st.v[S_QUOTE] ? "\"" + t + "\"" : t); }
    static std::string flt(double x, bool dbl, int style)
    {
        char b[64];
        if (std::isnan(x)) return "\"NaN\""; if (std::isinf(x)) return x > 0 ? "\"Infinity\"" : "\"-Infinity\"";
        int p = dbl ? 17 : 9;
        if (style == 1) { snprintf(b, 64, "%.*e", p - 1, x); return b; }
        if (style == 2) { snprintf(b, 64, "%.*E", p + 3, x); return b; }
        if (style == 3 && std::fabs(x) < 1e15 && (x == 0 || std::fabs(x) > 1e-5)) { snprintf(b, 64, "%.*f", 30, x); return b; }
        if (style == 3) { snprintf(b, 64, "%.*e", 30, x); return b; }
        snprintf(b, 64, "%.*g", p, x); return b;
    }
    void one(const FieldDesc &f, const Val &v)
    {
        switch (f.kind) {
        case K::Message: message(*f.msg, *v.m); break;
        case K::Bool: tok(v.u ? "true" : "false"); break;
        case K::String: tok(quote(v.s, st.v[S_ESC])); break;
        case K::Bytes: tok("\"" + b64_encode(v.s) + "\""); break;
        case K::Enum: {
            const char *name = nullptr; for (auto &[n, x] : f.en->values) if (uint64_t(x) == v.u) { name = n; if (!st.v[S_ORDER]) break; }
            if (st.v[S_ENUM] || !name) tok(std::to_string(int64_t(v.u))); else tok(quote(name, st.v[S_ESC] == 1 ? 1 : 0));
            break;
        }
        case K::Double: case K::Float: {
            double x = f.kind == K::Double ? as_double(v.u) : double(as_float(v.u)); auto t = flt(x, f.kind == K::Double, st.v[S_FLOAT]);
            if (t[0] == '"') tok(t); else number(t);
            break;
        }
        default: number(f.is_signed() ? std::to_string(int64_t(v.u)) : std::to_string(v.u));
        }
    }
    std::string key_text(const FieldDesc &k, const Val &v)
    {
        if (k.kind == K::String) return v.s;
        if (k.kind == K::Bool) return v.u ? "true" : "false";
        return k.is_signed() ? std::to_string(int64_t(v.u)) : std::to_string(v.u);
    }
    void unknown(const MsgDesc &d, bool &first)
    {
        static const char *docs[] = {"", "1", "\"s\\\"\\\\tr\\u0022\"", "null", "[1, \"]\", {\"a\": [[], {}]}, null, true]", "{\"k\": {\"}\": -1.5e+3}, \"l\": [false]}", "-0.125E-2", "true", "\"\"", "[]"};
        auto k = st.v[S_UNKNOWN]; if (!k) return;
        if (!first) tok(","); first = false;
        std::string name = k % 2 ? "no_such_field_" : ""; for (auto &f : d.fields) if (name == f.json) name += "_";
        if (k == 6) name = std::string(300, 'k');
        if (k == 4) { name = d.fields.empty() ? "x" : d.fields[0].json; name += "x"; for (auto &f : d.fields) for (auto *a : f.accept) if (name == a) name += "x"; }
        tok("\"" + name + "\""); tok(":"); tok(docs[k]);
    }
    void message(const MsgDesc &d, const MsgVal &m)
    {
        tok("{"); bool first = true;
        std::vector<const FieldDesc *> fs; for (auto &f : d.fields) fs.push_back(&f);
        if (st.v[S_ORDER]) std::reverse(fs.begin(), fs.end());
        if (!st.v[S_ORDER]) unknown(d, first);
        for (auto *f : fs) {
            auto it = m.f.find(f->num); const bool has = it != m.f.end() && !it->second.empty();
            const bool null = !has && st.v[S_NULL] && f->label != L::Req && f->fixed_n < 0 && !f->dflt;
            const bool empty = !has && st.v[S_EMPTY] && (f->label == L::Map || (f->label == L::Rep && f->fixed_n < 0));
            if (!has && !null && !empty) continue;
            if (!first) tok(","); first = false;
            std::string name = f->json;
            if (st.v[S_NAME] == 1) name = f->name;
            if (st.v[S_NAME] == 2) for (auto *a : f->accept) if (a != std::string_view(f->name)) name = a;
            tok(quote(name, st.v[S_NAME] && st.v[S_ESC] == 1 ? 1 : 0)); tok(":");
            if (null) { tok("null"); continue; }
            if (empty) { tok(f->label == L::Map ? "{" : "["); tok(f->label == L::Map ? "}" : "]"); continue; }
            if (f->label == L::Map) {
                tok("{"); bool fe = true;
                for (auto &e : it->second) { if (!fe) tok(","); fe = false; tok(quote(key_text(f->msg->fields[0], e.m->f[1][0]), f->msg->fields[0].kind == K::String ? st.v[S_ESC] : 0)); tok(":"); one(f->msg->fields[1], e.m->f[2][0]); }
                tok("}");
            } else if (f->label == L::Rep) { tok("["); bool fe = true; for (auto &v : it->second) { if (!fe) tok(","); fe = false; one(*f, v); } tok("]"); }
            else one(*f, it->second[0]);
        }
        if (st.v[S_ORDER]) unknown(d, first);
        tok("}");
    }
};
inline std::string emit(const MsgDesc &d, const MsgVal &m, const Style &st = {}) { Emitter e{st}; e.sp(); e.message(d, m); return e.o; }
inline std::string show(const Style &s) { std::string o; for (int k = 0; k < S_N; k++) if (s.v[k]) o += std::string(STYLE_NAME[k]) + "=" + std::to_string(s.v[k]) + " "; return o; }
// every style with at most `dev` deviations from the plain one
inline std::vector<Style> styles(int dev)
{
    std::vector<Style> o{Style{}};
    if (dev >= 1) for (int k = 0; k < S_N; k++) for (int x = 1; x < STYLE_MAX[k]; x++) { Style s; s.v[k] = x; o.push_back(s); }
    if (dev >= 2) for (int k = 0; k < S_N; k++) for (int x = 1; x < STYLE_MAX[k]; x++) for (int l = k + 1; l < S_N; l++) for (int y = 1; y < STYLE_MAX[l]; y++) { Style s; s.v[k] = x; s.v[l] = y; o.push_back(s); }
    return o;
}
} // namespace vt::js
