// C08: malformed JSON documents, and documents which do not fit the message, are rejected with an exception.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_values.hpp"
using namespace vt;
static Registry R;
static void decode(Run &run, const Ops &o, const std::string &text)
{
    auto &d = o.desc(); MsgVal want; std::string why;
    auto v = js::ref_json(d, text, want, &why);
    if (v == Verdict::Unspecified) { run.count("unspecified"); return; }
    ++run.validated; run.outcome(std::string(d.name) + why); run.state(hash64(text, hash64(d.name)));
    if (v == Verdict::Ok) { run.count("still_valid"); return; } // C07
    run.count("malformed");
    bool threw = false; auto got = o.make();
    try { o.js_de(*got, text.data(), text.size()); } catch (const std::exception &) { threw = true; }
    if (!threw) run.fail("malformed document " + quoted(text) + " (" + why + ") was accepted as " + show(d, o.read(*got)));
    threw = false; got = o.make(); ChunkReader r{text};
    try { o.js_de_reader(*got, std::ref(r)); } catch (const Endless &) { run.fail("malformed document " + quoted(text) + ": reader is called forever"); } catch (const std::exception &) { threw = true; }
    if (!threw) run.fail("malformed document " + quoted(text) + " (" + why + ") was accepted via a reader as " + show(d, o.read(*got)));
}
static std::vector<std::string> tokens(const std::string &t)
{
    std::vector<std::string> o;
    for (size_t i = 0; i < t.size();) {
        size_t j = i;
        if (t[i] == '"') { for (++j; j < t.size() && t[j] != '"'; ++j) if (t[j] == '\\') ++j; ++j; }
        else if (strchr("{}[]:,", t[i])) ++j;
        else while (j < t.size() && !strchr("{}[]:,\"", t[j])) ++j;
        o.push_back(t.substr(i, j - i)); i = j;
    }
    return o;
}
static std::string join(const std::vector<std::string> &v) { std::string o; for (auto &x : v) o += x; return o; }
int main(int argc, char **argv)
{
    Check c{.prop = "C08"};
    c.rule = "every token sequence up to a length; every text up to a length as the value of every field; every truncation and character replacement, insertion and deletion of valid documents; every token deleted, doubled, swapped or replaced by every other token; values of every JSON type and range for every field; a strict parser and mapping decide what is malformed";
    c.assumptions = {"documents which Google's parsers or the library's documentation treat leniently (leading zeros, raw control characters, text behind the document, ...) are not judged"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        uint64_t trans = 0;
        const std::vector<std::string> vocab = {"{", "}", "[", "]", ":", ",", "\"\"", "1", "null", "true", "-", "\"", "1.5", "nul", "\"x\"", "\"AQ==\"", "{}", "[]", "1e", "tru", "\"1\"", "\\", "'a'", "99999999999999999999"};
        auto go = [&](const Ops &o, const char *what, const std::string &b) {
            ++trans;
            run.test([&] { return std::string(o.desc().name) + " " + what + " " + quoted(b, 300); }, [&] { decode(run, o, b); });
        };
        // whole documents out of tokens
        for (auto *name : {"Vt.Comp.Node", "Vt.Comp.MapV"}) {
            auto &o = R.get(name); std::string key = std::string("\"") + o.desc().fields[0].json + "\"";
            std::vector<std::string> tk = {"{", "}", "[", "]", ":", ",", key, "\"q\"", "1", "null"}; 
            const size_t depth = run.thorough ? 7 : 5;
            std::function<void(std::string, size_t)> rec = [&](std::string s, size_t k) { go(o, "tokens", s); if (k == depth) return; for (auto &t : tk) rec(s + t, k + 1); };
            rec("", 0);
        }
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true); a.big = false;
            // every text as a value
            const std::string chars = "{}[]:,\"01-.eEn+\\a \x01";
            for (auto &f : d.fields) {
                std::string head = std::string("{\"") + f.json + "\":";
                std::vector<std::string> values;
                for (char x : chars) { values.push_back({x}); for (char y : chars) { values.push_back({x, y}); for (char z : chars) values.push_back({x, y, z}); } }
                if (run.thorough) { const std::string few = "{}[],\"1-.e\\"; for (char w : few) for (char x : few) for (char y : few) for (char z : few) values.push_back({w, x, y, z}); }
                for (auto &v : values) { go(*o, "value", head + v + "}"); }
                for (auto &v : vocab) { go(*o, "cut", head + v); go(*o, "value", head + "[" + v + "]}"); go(*o, "value", head + "{\"1\":" + v + "}}"); go(*o, "value", head + "{\"" + v + "\":1}}"); go(*o, "value", head + "[1," + v + "]}"); for (auto &w : vocab) go(*o, "value", head + v + w + "}"); }
                // values out of range and of a wrong type, in every position where the type is used
                std::vector<std::string> els;
                const FieldDesc &e = f.label == L::Map ? f.msg->fields[1] : f; const FieldDesc *kf = f.label == L::Map ? &f.msg->fields[0] : nullptr;
                auto range = [](const FieldDesc &x) {
                    std::vector<std::string> o;
                    if (!x.is_int() || x.kind == K::Bool) return o;
                    __int128 lo = x.is_signed() ? (__int128)x.min : 0, hi = x.is_signed() ? (__int128)int64_t(x.max) : (__int128)x.max;
                    auto put = [&](__int128 v) { bool n = v < 0; unsigned __int128 u = n ? -v : v; std::string s; do s.insert(s.begin(), char('0' + int(u % 10))); while (u /= 10); o.push_back(n ? "-" + s : s); };
                    for (__int128 k : {1, 2, 10, 128, 256, 65536}) { put(hi + k); put(lo - k); }
                    put(hi * 2 + 1); put(hi * 2 + 2); put(hi * 10); put(hi + ((__int128)1 << 32)); put((__int128)1 << 63); put((__int128)1 << 64); put(((__int128)1 << 64) + 1); put((__int128)1 << 32); put(((__int128)1 << 32) + 1); put(-((__int128)1 << 63) - 1); put(-((__int128)1 << 63)); put(-((__int128)1 << 31) - 1); put((__int128)1 << 31); put(((__int128)1 << 64) + ((__int128)1 << 63)); put((__int128)1 << 66);
                    o.push_back(std::string(30, '9')); o.push_back("-" + std::string(30, '9')); o.push_back("1.5"); o.push_back("-0.5"); o.push_back("5e-1"); o.push_back("0.1"); o.push_back("1x"); o.push_back("0x1"); o.push_back("+1"); o.push_back("1 2"); o.push_back("--1"); o.push_back("1-"); o.push_back("");
                    return o;
                };
                for (auto &t : range(e)) { els.push_back(t); els.push_back("\"" + t + "\""); }
                for (auto *t : {"1", "0", "-1", "1.5", "\"\"", "\"a\"", "\"1\"", "true", "false", "\"true\"", "{}", "[]", "[1]", "[[]]", "{\"a\":1}", "\"A\"", "\"AAA\"", "\"AA=A\"", "\"A===\"", "\"====\"", "\"AAAAA\"", "\"AAAA=\"", "\"AA==AA==\"", "\"A A=\"", "\"AQ==\\n\"", "\"@@@@\"", "\"NaN\"", "\"infinity\"", "\"Infinit\"", "\"1.5x\"", "\"--1\"", "\"+1\"", "\" 1\"", "\"1 \"", "tRue", "True", "TRUE", "truefalse", "nulll", "Null", "\"\\ud800\"", "\"\\ud800\\ud800\"", "\"\\udc00\"", "\"\\u12\"", "\"\\u12g4\"", "\"\\x\"", "\"\\u\"", "\"\\ud800x\"", "\"\\ud800\\n\"", "\"\xff\"", "\"\xc3\"", "\"\xed\xa0\x80\"", "\"\xf4\x90\x80\x80\"", "\"\xc0\x80\"", "\"ZER\"", "\"ZEROO\"", "\"zero\"", "\"S_ZER\"", "\"EN_\"", "\"COLOR_RE\"", "\"COLOR_REDD\"", "\"\\u0000\"", "'a'", "1,", ",1", "1 1", "1:1"}) els.push_back(t);
                for (auto &t : els) {
                    go(*o, "element", head + t + "}"); go(*o, "element", head + "[" + t + "]}"); go(*o, "element", head + "{\"1\":" + t + "}}");
                    if (f.label == L::Rep) { go(*o, "element", head + "[" + t + "," + t + "]}"); auto vs = scalar_values(f, 0, a); MsgVal m; m.f[f.num] = {vs.empty() ? Val(MsgVal{}) : vs[0]}; auto x = js::emit(d, m); auto p = x.rfind(']'); if (p != x.npos) go(*o, "second element", x.substr(0, p) + "," + t + x.substr(p)); }
                    if (f.label == L::Map) { auto ks = scalar_values(*kf, 0, a); MsgVal m; js::Emitter em; auto k = js::Emitter::quote(em.key_text(*kf, ks[0]), 0); go(*o, "map value", head + "{" + k + ":" + t + "}}"); }
                }
                if (kf) {
                    auto vs = element_values(e, 0, a, 0); js::Emitter em; em.one(e, vs[0]);
                    std::vector<std::string> keys = range(*kf); for (auto *t : {"", "a", "True", "truee", "tru", "1.0x", "\\ud800", "\\u12", "\xff", "\\x", "-"}) keys.push_back(t);
                    for (auto &k : keys) go(*o, "map key", head + "{\"" + k + "\":" + em.o + "}}");
                    for (auto *k : {"1", "true", "null", "{}", "[]"}) go(*o, "map key is no string", head + "{" + k + ":" + em.o + "}}");
                }
                // limits
                if (f.max_size) for (size_t n : {f.max_size + 1, f.max_size + 2, f.max_size * 2, 300u}) for (auto &s : {pattern(n), utf8(0x20ac) + pattern(n - 3)}) { auto q = f.kind == K::Bytes ? "\"" + js::b64_encode(s) + "\"" : js::Emitter::quote(s, 0); auto q2 = f.kind == K::Bytes ? q : js::Emitter::quote(s, 1); for (auto &x : {q, q2}) { go(*o, "too long", head + x + "}"); go(*o, "too long", head + "[" + x + "]}"); go(*o, "too long", head + "[\"\"," + x + "]}"); } }
                if (f.fixed_sz >= 0) for (int n = 0; n < f.fixed_sz + 4; n++) { auto s = pattern(size_t(n)); auto q = f.kind == K::Bytes ? "\"" + js::b64_encode(s) + "\"" : "\"" + s + "\""; go(*o, "fixed size", head + q + "}"); go(*o, "fixed size", head + "[" + q + "]}"); }
                if (f.max_count || f.fixed_n >= 0) for (size_t n = 0; n < 12; n++) { auto vs = element_values(f, 0, a, 1); js::Emitter em; em.o = head + "["; for (size_t k = 0; k < n; k++) { if (k) em.o += ','; em.one(f, vs[k % vs.size()]); } go(*o, "count", em.o + "]}"); }
            }
            // mutations
            std::vector<std::string> base;
            for (auto &f : d.fields) { size_t k = 0; for (auto &v : field_values(f, 0, a, 1)) { if (++k > 3) break; MsgVal m; assign(d, m, f, v); base.push_back(js::emit(d, m)); } }
            auto styles = js::styles(1);
            size_t si = 0; const size_t singles = base.size();
            for (auto &s : styles) { auto m = full_msg(d, si++ % 3, 0, a, 1); base.push_back(js::emit(d, m, s)); if (!run.thorough) base.push_back(js::emit(d, {}, s)); }
            std::unordered_set<uint64_t> seen; size_t bi = 0;
            for (auto &b : base) {
                const bool whole = bi++ >= singles;
                if (!seen.insert(hash64(b)).second || b.size() > 6000) continue;
                for (size_t i = 0; i < b.size(); i++) { go(*o, "truncated", b.substr(0, i)); if (!whole || bi < singles + 8 || run.thorough) go(*o, "character deleted", b.substr(0, i) + b.substr(i + 1)); }
                const std::string rep = run.thorough ? std::string("{}[]:,\"\\01-.eEtn \xff\x80/'+") : std::string("{}[]:,\"\\0-.\xff");
                if (!whole || b.size() < 300 || run.thorough) for (size_t i = 0; i < b.size(); i++) for (char x : rep) { auto m = b; m[i] = x; go(*o, "character replaced", m); go(*o, "character inserted", b.substr(0, i) + x + b.substr(i)); }
                auto tk = tokens(b);
                if (tk.size() > 600) continue;
                for (size_t i = 0; i < tk.size(); i++) {
                    auto m = tk; m.erase(m.begin() + long(i)); go(*o, "token deleted", join(m));
                    m = tk; m.insert(m.begin() + long(i), tk[i]); go(*o, "token doubled", join(m));
                    if (i + 1 < tk.size()) { m = tk; std::swap(m[i], m[i + 1]); go(*o, "tokens swapped", join(m)); }
                    if (!whole || b.size() < 400 || run.thorough) for (auto &v : vocab) { m = tk; m[i] = v; go(*o, "token replaced", join(m)); m = tk; m.insert(m.begin() + long(i), v); go(*o, "token inserted", join(m)); }
                }
            }
        }
        // malformed values of unknown members
        for (auto *name : {"Vt.Comp.Node", "Vt.Scalar.Empty"}) {
            auto &o = R.get(name);
            const std::string chars = "{}[]:,\"1-.en\\ ";
            std::function<void(std::string, int)> rec = [&](std::string s, int k) { go(o, "unknown member", "{\"no\":" + s + "}"); if (k == (run.thorough ? 5 : 4)) return; for (char x : chars) rec(s + x, k + 1); };
            rec("", 0);
        }
        auto &n = R.get("Vt.Comp.Node");
        for (int depth : {2001, 2500, 5000, 20000, 100000}) {
            for (int kind = 0; kind < 6; kind++) {
                static const char *open[] = {"{\"next\":", "{\"kids\":[", "[", "{\"q\":", "[{\"q\":", "{\"q\":["}; static const char *close[] = {"}", "]}", "]", "}", "}]", "]}"};
                std::string t, u; for (int i = 0; i < depth; i++) { t += open[kind]; u = close[kind]; }
                std::string all = t + (kind == 0 ? "{}" : kind == 1 ? "{}" : "1"); for (int i = 0; i < depth; i++) all += u;
                if (kind > 1) all = "{\"no\":" + all + "}";
                for (auto &x : {all, t}) { ++trans; run.test([&] { return "nested " + std::to_string(depth) + " kind " + std::to_string(kind); }, [&] { decode(run, n, x); }); }
            }
        }
        if (run.worker == 0) run.transitions += trans;
    };
    return run_check(argc, argv, c);
}
