// C26: a number in JSON has exactly the value which its digits say, and is written so that it is read back exactly, with
// std::from_chars/to_chars and with the conversion of the library where the standard library has none.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_values.hpp"
#include <spb/json.hpp>
#include <set>
using namespace vt;
static Registry R;
static bool is_float(K k) { return k == K::Double || k == K::Float; }
// fractions (mantissas) whose bits are all in the first or last few, or are one or two bits or their complement
static std::vector<uint64_t> fractions(unsigned bits, unsigned ends, bool two)
{
    std::set<uint64_t> s; const uint64_t all = (1ull << bits) - 1;
    for (uint64_t i = 0; i < (1ull << ends); i++) { s.insert(i); s.insert(all - i); s.insert(i << (bits - ends)); s.insert(all & ~(i << (bits - ends))); }
    for (unsigned i = 0; i < bits; i++) { s.insert(1ull << i); s.insert(all & ~(1ull << i)); if (two) for (unsigned j = 0; j < i; j++) { s.insert(1ull << i | 1ull << j); s.insert(all & ~(1ull << i | 1ull << j)); } }
    s.insert(0x5555555555555555ull & all); s.insert(0x3333333333333333ull & all); s.insert(0x123456789abcdefull & all);
    return {s.begin(), s.end()};
}
int main(int argc, char **argv)
{
    Check c{.prop = "C26"};
#if __cpp_lib_to_chars >= 201611L
    const char *variant = "std::from_chars";
#else
    const char *variant = "own conversion";
#endif
    c.rule = "two builds of the library (with std::from_chars and, the macro of the standard library hidden, with its own conversion). Reading: every text up to a length over the characters of numbers, bare, quoted and as a key of a map, for every number type in every place; every border of every type and narrowed type with its neighbours, signs, leading zeros, up to 200 digits, multiples of 2^32 and 2^64 added; shortest, long and halfway decimals of floats. Writing: all floats and doubles of every exponent with fractions of regular shape (all bits at the ends, one or two bits), all 16 bit integers and borders; the text is checked by a strict parser and read back by both the library and strtod. A state is a (type, place, text or value)";
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [&](Run &run) {
        const bool T = run.thorough;
        auto check = [&](const Ops &o, const std::string &text, bool reader) {
            auto &d = o.desc(); MsgVal want; std::string why; auto v = js::ref_json(d, text, want, &why);
            auto wc = v == Verdict::Ok ? canon(d, normed(d, want), false) : std::string();
            auto judge = [&](const char *how, auto &&f) {
                ++run.transitions; auto x = o.make(); bool ok = true; std::string e;
                try { f(*x); } catch (const std::exception &ex) { ok = false; e = ex.what(); }
                if (v == Verdict::Unspecified) { run.count("unspecified"); return; }
                ++run.validated; auto got = ok ? canon(d, o.read(*x), false) : std::string("rejected"); run.outcome(got);
                if (ok != (v == Verdict::Ok)) run.fail(std::string(variant) + ": " + d.name + " " + quoted(text, 600) + how + (ok ? " is accepted as " + show(d, o.read(*x)) + " but has to be rejected: " + why : " is rejected: " + e));
                if (ok && got != wc) run.fail(std::string(variant) + ": " + d.name + " " + quoted(text, 600) + how + " is read as " + show(d, o.read(*x)) + " but means " + show(d, want));
            };
            judge("", [&](Obj &x) { o.js_de(x, text.data(), text.size()); });
            if (reader) { ChunkReader r{text, 1}; Reader f = std::ref(r); judge(" (reader)", [&](Obj &x) { o.js_de_reader(x, f); }); }
        };
        // all places of one text
        auto places = [&](const Ops &o, const std::string &t, bool bare, bool quote, bool reader) {
            auto &d = o.desc(); run.test([&] { return std::string(d.name) + " " + quoted(t, 300); }, [&] {
                run.state(hash64(t, hash64(d.name))); const bool nar = std::string_view(d.name).ends_with("Nar");
                std::vector<std::string> vals; if (bare) vals.push_back(t); if (quote) vals.push_back("\"" + t + "\"");
                for (auto &f : d.fields) {
                    if (f.kind == K::String && f.label != L::Map) continue;
                    std::string j = f.json;
                    for (auto &v : vals) {
                        if (nar || f.label == L::Opt || f.label == L::One) check(o, "{\"" + j + "\":" + v + "}", reader);
                        else if (f.label == L::Rep) { check(o, "{\"" + j + "\":[" + v + "]}", false); check(o, "{\"" + j + "\":[1, " + v + " ,2]}", reader); }
                        else if (j == "v") check(o, "{\"" + j + "\":{\"a\":" + v + "}}", reader);
                    }
                    if (quote && j == "k") { check(o, "{\"k\":{\"" + t + "\":7}}", reader); check(o, "{\"k\":{ \"1\" : 3 , \"" + t + "\" : 7}}", false); }
                }
            });
        };
        for (auto *o : R.all) {
            auto &d = o->desc(); const bool nar = std::string_view(d.name).ends_with("Nar"); if (std::string_view(d.name).find(".N") == std::string_view::npos || d.fields.empty()) continue;
            auto &f0 = d.fields[0]; const bool fl = is_float(f0.kind);
            // reading, all short texts
            std::function<void(std::string, const std::string &, size_t, bool, bool)> words = [&](std::string s, const std::string &al, size_t n, bool bare, bool quote) { if (s.size()) places(*o, s, bare, quote, false); if (n) for (char ch : al) words(s + ch, al, n - 1, bare, quote); };
            words("", "019-+.eE", T ? 6 : nar ? 3 : 4, true, true);
            words("", fl ? "015-+.eE xp_," : "012-+ xXaF_.", T ? 5 : nar ? 2 : 3, false, true);
            // reading, long and odd texts
            std::set<std::string> ts; std::vector<std::string> tails = {"", ".0", ".5", "e0", "e1", ".", "e", "e+", "e-", "x", " ", "L", "u", "f", "_", "0", "00000", ",", "'", "-", "+", "%", "\\u0030", "\\u0000"};
            auto ints = [&](__int128 x) { auto neg = x < 0; unsigned __int128 u = neg ? -(unsigned __int128)x : x; std::string s; do { s.insert(s.begin(), char('0' + int(u % 10))); u /= 10; } while (u); return (neg ? "-" : "") + s; };
            std::set<std::string> is; for (int b = 0; b <= 72; b++) for (int k = -3; k <= 3; k++) for (int sg : {1, -1}) is.insert(ints(sg * (((__int128)1 << b) + k)));
            for (int b : {7, 8, 15, 16, 31, 32, 63, 64}) for (int m : {8, 16, 32, 64}) for (int k = -2; k <= 2; k++) for (int sg : {1, -1}) is.insert(ints(sg * (((__int128)1 << m) * 3 + ((__int128)1 << b) + k))), is.insert(ints(((__int128)1 << m) * 2 + sg * k));
            for (auto &i : is) { ts.insert(i); if (T || i.size() < 4 || i.size() > 18) for (auto &t : tails) ts.insert(i + t); for (auto *p : {"0", "00", "+", " ", "-", "0x", "--", "+-", "\\t", "\\u002d", "\\u002b"}) ts.insert(p + i); }
            for (size_t n = 1; n < 200; n += T || n < 40 ? 1 : 7) { auto z = std::string(n, '0'), x = std::string(n, '9'), y = "1" + z; for (auto &s : {z, x, y, z + "1", "-" + z, "-" + z + "1", "-" + x, "1" + std::string(n, '5'), x + "." + x.substr(0, std::min<size_t>(n, 199 - n)), "0." + z + "1", "1." + z, "1." + z + "1", "-1." + x, y + ".0", "1e" + z, "1e" + z + "1", "1e-" + z + "1", "1e+" + z + "1"}) if (s.size() < 200) ts.insert(s); }
            for (int e = -400; e <= 400; e++) for (auto *m : {"1", "9", "1.7976931348623157", "4.9406564584124654", "2.2250738585072011", "2.2250738585072014", "3.4028235", "3.4028236", "1.17549435", "1.4012984643e", "123456789012345678", "0.00000000000000000001", "-5", "0"}) for (auto *x : {"e", "E"}) if (x[0] == 'e' || e % 50 == 0 || T) { std::string b = m; if (b.back() == 'e') b.pop_back(); ts.insert(b + x + std::to_string(e)); if (e >= 0) ts.insert(b + x + "+" + std::to_string(e)); ts.insert(b + x + (e < 0 ? "-0" : "0") + std::to_string(std::abs(e))); }
            if (fl) {
                // halves between neighbouring floats, exactly and a bit beside; 17 significant digits
                char b[2200]; for (int e = -30; e <= 60; e += 1) for (uint64_t m : {0ull, 1ull, 2ull, 3ull, 0x7fffffull, 0x7ffffeull, 0x400000ull, 0x555555ull, 0x2aaaaaull}) {
                    long double x; if (f0.kind == K::Float) x = std::ldexp((long double)(0x800000 + m) + 0.5L, e - 23); else x = std::ldexp((long double)((1ull << 52) + (m << 29 | m)) + 0.5L, e - 52);
                    snprintf(b, sizeof b, "%.120Lf", x); std::string s = b; while (s.back() == '0') s.pop_back(); if (s.back() == '.') s += '0'; if (s.size() > 190) continue;
                    ts.insert(s); ts.insert("-" + s); auto up = s + "0000001"; auto dn = s; ts.insert(up); for (size_t i = dn.size(); i-- > 0;) if (dn[i] > '0' && dn[i] <= '9') { dn[i]--; break; } ts.insert(dn + "9999");
                }
                for (auto *s : {"NaN", "Infinity", "-Infinity", "nan", "inf", "-inf", "INF", "infinity", "+Infinity", "-NaN", "nan(1)", "Inf", "Infinit", "NaNx", " NaN", "NaN ", "0x1p3", "0x10", "0X1", "1p3", "1d", "1f", "1e5f", "1,5", "1 5", "1.5.5", "1e5e5", "1e5.5", "--1", "-", "+", ".", "e", "-.", "-e1", ".e1", "-.5", "\\u0031", "1\\u002e5", "1e\\u0035"}) ts.insert(s);
            }
            size_t idx = 0; for (auto &t : ts) places(*o, t, t.find_first_of("\\ _") == t.npos, true, ++idx % (T ? 2 : 8) == 0);
            // writing
            auto round = [&](const MsgVal &m, const char *what) {
                run.test([&] { return std::string(d.name) + " written: " + show(d, m); }, [&] {
                    auto want = canon(d, normed(d, m), false); run.state(hash64(want, hash64(what, hash64(d.name)))); auto obj = o->build(m); auto text = o->js_ser(*obj); run.outcome(text); ++run.transitions;
                    js::Parser p{text}; MsgVal got; std::string why; auto v = js::ref_json(d, text, got, &why);
                    if (v != Verdict::Ok || canon(d, normed(d, got), false) != want) run.fail(std::string(variant) + ": " + show(d, m) + " is written as " + quoted(text, 600) + (v != Verdict::Ok ? ", which is not valid: " + why : ", which means " + show(d, got)));
                    ++run.validated; if (auto n = o->js_size(*obj); n != text.size()) run.fail(std::string(variant) + ": " + show(d, m) + ": the size of " + quoted(text, 600) + " is reported as " + std::to_string(n));
                    auto x = o->make(); try { o->js_de(*x, text.data(), text.size()); } catch (const std::exception &e) { run.fail(std::string(variant) + ": own text " + quoted(text, 600) + " is rejected: " + e.what()); }
                    if (canon(d, o->read(*x), false) != want) run.fail(std::string(variant) + ": " + show(d, m) + " is written as " + quoted(text, 600) + " and read as " + show(d, o->read(*x)));
                    ++run.transitions; ++run.validated;
                });
            };
            if (fl) {
                const bool fd = f0.kind == K::Double; auto fr = fd ? fractions(52, T ? 10 : 5, T) : fractions(23, T ? 14 : 8, true); const unsigned exps = fd ? 2048 : 256;
                std::vector<Val> part; // many values in one message
                for (unsigned e = 0; e < exps; e++) for (auto m : fr) {
                    if (e + 1 == exps && m) continue; // NaN
                    for (uint64_t s : {0, 1}) { part.push_back(Val(uint64_t(fd ? s << 63 | uint64_t(e) << 52 | m : s << 31 | uint64_t(e) << 23 | m))); if (part.size() == 8) { MsgVal v; v.f[2] = part; round(v, "r"); part.clear(); } }
                }
                for (auto x : {0.1, 1e22, 1e23, 123456.0, 1234567.0, 999999.5, 1e15, 1e16, 1e17, 1e-4, 1e-5, 0.30000000000000004, 5e-324, 1.7976931348623157e308, 9007199254740993.0}) { MsgVal v; v.f[1] = {fd ? Val(x) : Val(float(x))}; round(v, "o"); }
                MsgVal v; v.f[1] = {fd ? Val((double)NAN) : Val((float)NAN)}; round(v, "o");
            } else if (!nar) {
                std::vector<Val> part; auto put = [&](uint64_t u) { part.push_back(Val(u)); if (part.size() == 16) { MsgVal v; v.f[2] = part; round(v, "r"); part.clear(); } };
                std::set<uint64_t> vs; for (int64_t i = -70000; i <= 70000; i++) vs.insert(uint64_t(i)); for (int b = 0; b < 64; b++) for (int k = -40; k <= 40; k++) for (int sg : {1, -1}) vs.insert(uint64_t(sg) * ((1ull << b) + uint64_t(int64_t(k))));
                uint64_t ten = 1; for (int i = 0; i < 20; i++, ten *= 10) for (int k = -3; k <= 3; k++) for (int sg : {1, -1}) for (int mul : {1, 9}) vs.insert(uint64_t(sg) * (ten * mul + uint64_t(int64_t(k))));
                for (auto u : vs) { const bool uns = f0.min == 0; if (uns ? u <= f0.max : int64_t(u) >= f0.min && int64_t(u) <= int64_t(f0.max)) { put(u); if (u < 300 || u > uint64_t(-300) || !(u & (u - 1))) { MsgVal v; v.f[1] = {Val(u)}; round(v, "o"); } } }
            }
        }
    };
    return run_check(argc, argv, c);
}
