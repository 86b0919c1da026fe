// C19: a name in a JSON document selects exactly the field (or the enum value) which has this name; every other name is
// ignored (or rejected, for an enum), whatever its hash.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_records.hpp"
#include <set>
using namespace vt;
static Registry R;
static uint32_t djb2(std::string_view s) { uint32_t h = 5381; for (unsigned char c : s) h = h * 33 + c; return h; }
static std::string esc(const std::string &s)
{
    std::string o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += char(c); } else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; } else o += char(c); }
    return o;
}
// all strings with the hash of s which are found by moving weight between neighbours: (c, d) -> (c + k, d - 33 k)
static void same_hash(const std::string &s, size_t from, size_t changes, std::set<std::string> &out)
{
    out.insert(s); if (!changes) return;
    for (size_t i = from; i + 1 < s.size(); i++) for (int k : {-3, -2, -1, 1, 2, 3}) {
        int c = (unsigned char)s[i] + k, d = (unsigned char)s[i + 1] - 33 * k; if (c < 1 || c > 126 || d < 1 || d > 126) continue;
        auto t = s; t[i] = char(c); t[i + 1] = char(d); same_hash(t, i, changes - 1, out);
    }
}
int main(int argc, char **argv)
{
    Check c{.prop = "C19"};
    c.rule = "schemas whose member and enum names collide in the hash which the generated code switches on. Every name up to a length over the letters of the names, every name in a neighbourhood of an accepted one (one edit, prefixes, repetitions, escapes), and every name with the same hash made by moving weight between neighbouring characters, in every place (first, middle, last member; nested, oneof; enum in a field, an array, a map, a oneof), from a buffer and via readers. Model: a reference reader which compares the names; a state is a (message, name, place)";
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough;
        auto check = [&](const Ops &o, const std::string &text, bool readers) {
            auto &d = o.desc(); MsgVal want; std::string why; auto v = js::ref_json(d, text, want, &why);
            if (v == Verdict::Unspecified) { run.count("unspecified"); return; }
            auto wc = v == Verdict::Ok ? canon(d, normed(d, want), false) : std::string();
            auto judge = [&](const char *how, auto &&f) {
                ++run.transitions; ++run.validated; auto x = o.make(); bool ok = true; std::string e;
                try { f(*x); } catch (const std::exception &ex) { ok = false; e = ex.what(); }
                run.outcome(ok ? canon(d, o.read(*x), false) : "rejected");
                if (ok != (v == Verdict::Ok)) run.fail(std::string(d.name) + " " + quoted(text, 600) + how + (ok ? " is accepted as " + show(d, o.read(*x)) + " but has to be rejected: " + why : " is rejected: " + e));
                if (ok) if (auto got = canon(d, o.read(*x), false); got != wc) run.fail(std::string(d.name) + " " + quoted(text, 600) + how + " is read as " + show(d, o.read(*x)) + " but means " + show(d, want));
            };
            judge("", [&](Obj &x) { o.js_de(x, text.data(), text.size()); });
            if (readers) for (size_t k : {0, 1, 3}) { ChunkReader r{text, k}; Reader f = std::ref(r); judge(" (reader)", [&](Obj &x) { o.js_de_reader(x, f); }); }
        };
        // the names of one message or enum
        auto names = [&](const std::vector<std::string> &acc, size_t maxlen) {
            std::set<std::string> out; const std::string al = T ? "abcAB1x_yoj" : "abA1x_";
            std::function<void(std::string)> words = [&](std::string s) { out.insert(s); if (s.size() < maxlen) for (char ch : al) words(s + ch); };
            words("");
            for (auto &n : acc) {
                same_hash(n, 0, n.size() > 40 ? (T ? 2 : 1) : T ? 4 : 3, out);
                for (size_t i = 0; i <= n.size(); i += n.size() > 40 && i > 3 && i + 6 < n.size() ? (T ? 5 : 23) : 1) {
                    out.insert(n.substr(0, i)); out.insert(n.substr(i));
                    for (char ch : {'a', 'A', '_', '0', ' ', '"', '\\', '.', '/', '\x7f'}) { out.insert(n.substr(0, i) + ch + n.substr(i)); if (i < n.size()) out.insert(n.substr(0, i) + ch + n.substr(i + 1)); }
                    if (i < n.size()) { out.insert(n.substr(0, i) + n.substr(i + 1)); auto t = n; t[i] = char(t[i] ^ 32); if ((unsigned char)t[i] > 31) out.insert(t); for (int x : {1, 0x80}) { t = n; t[i] = char(t[i] ^ x); if (x == 1) out.insert(t); } if (i + 1 < n.size()) { t = n; std::swap(t[i], t[i + 1]); out.insert(t); } }
                    out.insert(n.substr(0, i) + std::string(1, '\0') + n.substr(i)); out.insert(n.substr(0, i) + utf8(0xe9) + n.substr(i));
                }
                out.insert(n + n); out.insert(n + std::string(300, 'a')); out.insert(n + std::string(1, '\0')); out.insert(std::string(1, '\0') + n); out.insert(" " + n); out.insert(n + " ");
                for (auto &m : acc) { if (m.size() + n.size() < 40) { out.insert(n + m); out.insert(n + "_" + m); } }
            }
            for (size_t n = 0; n < 620; n += T ? 1 : (n < 20 || (n > 240 && n < 270) || (n > 295 && n < 310) ? 1 : 13)) for (char ch : {'z', 'a', 'n'}) out.insert(std::string(n, ch));
            return out;
        };
        // value for a member with this name
        auto value = [](const MsgDesc &d, const std::string &k) -> std::string {
            for (auto &f : d.fields) for (auto *a : f.accept) if (k == a) {
                if (f.label == L::Map) return f.msg->fields[1].kind == K::Enum ? "{\"k\":\"bA\"}" : f.msg->fields[1].kind == K::Message ? "{\"k\":{\"ab\":3}}" : "{\"k\":3}";
                auto one = f.kind == K::Message ? "{\"ab\":5,\"bA\":\"t\",\"bB\":1}" : f.kind == K::String ? "\"7\"" : f.kind == K::Enum ? "\"abbA\"" : "7";
                return f.label == L::Rep ? std::string("[") + one + "," + one + "]" : one;
            }
            return "7";
        };
        for (auto *o : R.all) {
            auto &d = o->desc(); std::vector<std::string> acc; for (auto &f : d.fields) for (auto *a : f.accept) acc.push_back(a);
            const bool bnd = std::string_view(d.name).find(".Bnd_") != std::string_view::npos, disp = std::string_view(d.name).starts_with("Vt.Disp") && !bnd; if (acc.empty()) continue;
            std::set<uint32_t> hashes; for (auto &a : acc) hashes.insert(djb2(a));
            // members which follow or precede
            const FieldDesc *mate = nullptr; for (auto &f : d.fields) if (f.label != L::One && f.kind == K::Int32 && f.label != L::Rep && f.label != L::Map) mate = &f;
            size_t collisions = 0, idx = 0;
            for (auto &k : names(acc, disp ? 5 : T ? 4 : 3)) {
                ++idx; const bool same = hashes.count(djb2(k)) > 0, is = std::find(acc.begin(), acc.end(), k) != acc.end(); collisions += same && !is;
                run.test([&] { return std::string(d.name) + " member " + quoted(k, 400); }, [&] {
                    run.state(hash64(k, hash64(d.name))); auto q = "\"" + esc(k) + "\":"; auto v = value(d, k); bool rd = same || k.size() > 240 || idx % 8 == 0;
                    check(*o, "{" + q + v + "}", rd);
                    if (mate && k != mate->name && k != mate->json) { auto m = "\"" + std::string(mate->json) + "\":2"; check(*o, "{" + q + v + "," + m + "}", rd); if (same || T) { check(*o, "{" + m + "," + q + v + "}", rd); check(*o, "{ \"no such\" : [ ] , " + q + " " + v + " , " + m + " }", rd); } }
                    if (!is) for (auto *x : {"\"s\"", "[1,{\"ab\":2}]", "{\"ab\":1,\"bA\":{}}", "null", "true", "-1.5e3"}) if (same || T || idx % 16 == 1) check(*o, "{" + q + x + "}", same);
                    if (is) { // other spellings of the same name
                        std::string all; for (unsigned char ch : k) { char b[8]; snprintf(b, 8, "\\u%04x", ch); all += b; } check(*o, "{\"" + all + "\":" + v + "}", true);
                        if (k.size() < 40 || T) for (size_t i = 0; i < k.size(); i++) { char b[8]; snprintf(b, 8, "\\u%04X", (unsigned char)k[i]); check(*o, "{\"" + k.substr(0, i) + b + k.substr(i + 1) + "\":" + v + "}", true); }
                    }
                });
            }
            run.count("names_with_the_hash_of_another", collisions);
            // two different names in one document
            if (disp || bnd) for (auto &a : acc) for (auto &b : acc) run.test([&] { return std::string(d.name) + " members " + quoted(a) + " " + quoted(b); }, [&] { run.state(hash64(a + "|" + b, hash64(d.name))); check(*o, "{\"" + a + "\":" + value(d, a) + ",\"" + b + "\":" + value(d, b) + "}", true); check(*o, "{\"" + a + "\":" + value(d, a) + ",\"" + b + "x\":" + value(d, b) + "}", true); });
            // enum names
            for (auto &f : d.fields) {
                const FieldDesc *ef = f.kind == K::Enum && f.label != L::Map ? &f : f.label == L::Map && f.msg->fields[1].kind == K::Enum ? &f.msg->fields[1] : nullptr; if (!ef || bnd) continue;
                std::vector<std::string> en; for (auto &[n, v] : ef->en->values) en.push_back(n);
                std::set<uint32_t> eh; for (auto &a : en) eh.insert(djb2(a));
                size_t ei = 0; for (auto &k : names(en, disp ? 5 : T ? 4 : 3)) { ++ei; const bool same = eh.count(djb2(k)) > 0; run.test([&] { return std::string(d.name) + "." + f.name + " enum " + quoted(k, 400); }, [&] {
                    run.state(hash64(k, hash64(f.name, hash64(d.name)))); auto q = "\"" + esc(k) + "\""; std::string mem = "{\"" + std::string(f.json) + "\":";
                    const std::string key = f.label == L::Map ? f.msg->fields[0].kind == K::String ? "k" : f.msg->fields[0].kind == K::Bool ? "true" : "1" : "";
                    check(*o, mem + (f.label == L::Map ? "{\"" + key + "\":" + q + "}" : f.label == L::Rep ? "[" + q + "]" : q) + "}", same || k.size() > 240 || ei % 8 == 0);
                    if (f.label == L::Rep && same) for (auto &b : en) check(*o, mem + "[\"" + b + "\"," + q + ",\"" + b + "\"]}", false);
                    if (std::find(en.begin(), en.end(), k) != en.end() && k.size() < 40) for (size_t i = 0; i < k.size(); i++) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)k[i]); auto w = "\"" + k.substr(0, i) + b + k.substr(i + 1) + "\""; check(*o, mem + (f.label == L::Map ? "{\"" + key + "\":" + w + "}" : f.label == L::Rep ? "[" + w + "]" : w) + "}", true); }
                }); }
            }
        }
    };
    return run_check(argc, argv, c);
}
