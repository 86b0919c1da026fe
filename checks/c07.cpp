// C07: every valid JSON document of a message is accepted with the meaning of Google's JSON mapping.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_values.hpp"
using namespace vt;
static Registry R;
static void decode(Run &run, const Ops &o, const std::string &text)
{
    auto &d = o.desc(); MsgVal want; std::string why;
    auto v = js::ref_json(d, text, want, &why);
    if (v == Verdict::Reject) throw HarnessError("the emitter wrote an invalid document " + quoted(text, 3000) + ": " + why);
    if (v == Verdict::Unspecified) { run.count("skipped_unspecified"); return; }
    run.state(hash64(text, hash64(d.name)));
    auto got = o.make(); size_t used = 0;
    try { used = o.js_de(*got, text.data(), text.size()); }
    catch (const std::exception &e) { run.fail("valid document " + quoted(text) + " was rejected: " + e.what()); }
    auto g = o.read(*got);
    if (canon(d, g, false) != canon(d, want, false)) run.fail("document " + quoted(text) + " means " + show(d, want) + " but was decoded as " + show(d, g));
    if (used != text.size()) run.fail("consumed " + std::to_string(used) + " of " + std::to_string(text.size()) + " bytes of " + quoted(text));
    got = o.make(); ChunkReader r{text};
    try { o.js_de_reader(*got, std::ref(r)); }
    catch (const std::exception &e) { run.fail("valid document " + quoted(text) + " was rejected via a reader: " + e.what()); }
    g = o.read(*got);
    if (canon(d, g, false) != canon(d, want, false)) run.fail("document " + quoted(text) + " means " + show(d, want) + " but was decoded via a reader as " + show(d, g));
    ++run.validated; run.outcome(canon(d, want, false));
}
int main(int argc, char **argv)
{
    Check c{.prop = "C07"};
    c.rule = "every message of the alphabet in every spelling with a bounded number of deviations from the plain one: member names, quoted numbers, enum numbers, string escapes, white space, member order, null members, empty arrays/objects, unknown members of every kind, float formats";
    c.assumptions = {"documents on which Google's mapping leaves freedom or which the library documents as unsupported (see DESIGN.md) are skipped and counted"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        uint64_t trans = 0;
        auto s1 = js::styles(1), s2 = js::styles(2);
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true);
            auto go = [&](const MsgVal &m, const js::Style &s) {
                ++trans;
                run.test([&] { return std::string(d.name) + " " + show(d, m) + " style " + js::show(s); }, [&] { decode(run, *o, js::emit(d, m, s)); });
            };
            for (auto &s : s2) go({}, s);
            for (auto &f : d.fields) {
                for (auto &v : field_values(f, 2, a, 2)) { MsgVal m; assign(d, m, f, v); size_t sz = 0; for (auto &x : v) sz += x.s.size() + 1; if (sz > 2000) { go(m, s1[0]); go(m, s1[1]); continue; } for (auto &s : s1) go(m, s); }
                for (auto &v : field_values(f, run.thorough ? 2 : 1, a, 1)) { size_t sz = 0; for (auto &x : v) sz += x.s.size() + 1; if (sz > 600) continue; MsgVal m; assign(d, m, f, v); for (auto &s : s2) go(m, s); }
            }
            for (size_t k = 0; k < 6; k++) { auto m = full_msg(d, k, k < 3 ? 0 : 1, a, 2); for (auto &s : s2) go(m, s); }
            explore(run, d, a, {.full_lv = 1, .depth2_lv = 0, .depth3_lv = -1, .nest = 1}, [&](const MsgVal &m, uint64_t) { go(m, s1[0]); go(m, s1[1]); go(m, s1[2]); go(m, s1.back()); });
        }
        // one white space (each of the four, and a run over the buffer of the reader) at every token border
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true); js::Style st; st.v[js::S_WS] = 1;
            for (size_t k = 0; k < 2; k++) {
                auto m = full_msg(d, k, 0, a, 1); auto text = js::emit(d, m, st);
                bool in = false;
                for (size_t i = 0; i < text.size(); i++) {
                    if (text[i] == '"' && (i == 0 || text[i - 1] != '\\')) in = !in;
                    if (in || text[i] != ' ') continue;
                    for (auto &w : {std::string(), std::string("\n"), std::string("\t"), std::string("\r"), std::string(255, ' '), std::string(256, '\n'), std::string(257, '\t')}) {
                        ++trans; auto t = text.substr(0, i) + w + text.substr(i + 1);
                        run.test([&] { return std::string(d.name) + " white space at " + std::to_string(i) + " of " + quoted(text, 200); }, [&] { decode(run, *o, t); });
                    }
                }
            }
        }
        auto &n = R.get("Vt.Comp.Node");
        for (int depth = 1; depth < 100; depth++) {
            std::string t = "{\"v\":1}", u = t; for (int i = 1; i < depth; i++) { t = "{\"next\":" + t + "}"; u = "{\"kids\":[" + u + "],\"v\":2}"; }
            for (auto &x : {t, depth < 49 ? u : t}) { ++trans; run.test([&] { return "nested " + std::to_string(depth); }, [&] { decode(run, n, x); }); }
            std::string w = "1"; for (int i = 2; i < depth; i++) w = i % 2 ? "[" + w + "]" : "{\"q\":" + w + "}";
            ++trans; run.test([&] { return "unknown nested " + std::to_string(depth); }, [&] { decode(run, n, "{\"nope\":" + w + ",\"v\":3}"); });
        }
        if (run.worker == 0) run.transitions += trans;
    };
    return run_check(argc, argv, c);
}
