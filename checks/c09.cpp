// C09: the way in which a reader cuts its input (or a writer receives its output) changes nothing.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_records.hpp"
using namespace vt;
static Registry R;
// a reader which hands out at most k[i] bytes in its i-th call (then everything which is asked for)
struct CutReader {
    std::string_view s; const std::vector<size_t> *cuts; size_t pos = 0, calls = 0;
    size_t operator()(void *p, size_t n)
    {
        if (++calls > s.size() * 2 + 1000) throw Endless{};
        size_t lim = s.size(); for (auto c : *cuts) if (c > pos) { lim = std::min(lim, c); break; }
        size_t k = std::min(n, lim - pos); memcpy(p, s.data() + pos, k); pos += k; return k;
    }
};
static std::string outcome(const Ops &o, const std::function<void(Obj &)> &f)
{
    auto obj = o.make();
    try { f(*obj); }
    catch (const Endless &) { return "the reader is called forever"; }
    catch (const std::exception &) { return "error"; }
    return "value " + canon(o.desc(), o.read(*obj), false);
}
struct Input { bool json; std::string bytes; };
static std::string de(const Ops &o, const Input &in, const Reader *r)
{
    return outcome(o, [&](Obj &x) {
        if (in.json) { if (r) o.js_de_reader(x, *r); else o.js_de(x, in.bytes.data(), in.bytes.size()); }
        else { if (r) o.pb_de_reader(x, *r); else o.pb_de(x, in.bytes.data(), in.bytes.size()); }
    });
}
int main(int argc, char **argv)
{
    Check c{.prop = "C09"};
    c.rule = "model: the outcome of decoding a contiguous buffer. Valid and malformed inputs are decoded through readers: all compositions of short inputs, every single cut and pair of cuts of longer ones, every chunk size; JSON documents are additionally shifted over every offset of the reader's buffer; a state is an (input, partition) pair";
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough;
        auto test = [&](const Ops &o, const Input &in, size_t all_upto, size_t one_upto, size_t two_upto, const std::vector<size_t> &chunks) {
            run.test([&] { return std::string(o.desc().name) + (in.json ? " json " + quoted(in.bytes, 300) : " " + hex(in.bytes, 200)); }, [&] {
                auto want = de(o, in, nullptr); run.outcome(want); auto h = hash64(in.bytes, hash64(o.desc().name));
                auto compare = [&](const std::string &got, const std::string &how) {
                    ++run.transitions; ++run.validated;
                    if (got != want) run.fail("decoding " + (in.json ? quoted(in.bytes) : hex(in.bytes)) + " from a buffer: " + want.substr(0, 300) + "; " + how + ": " + got.substr(0, 300));
                };
                run.state(h);
                for (auto k : chunks) { ChunkReader r{in.bytes, k}; Reader f = std::ref(r); run.state(h + 1 + k); compare(de(o, in, &f), "with a reader which returns at most " + std::to_string(k) + " bytes"); }
                const auto n = in.bytes.size(); std::vector<size_t> cuts;
                auto cut = [&] {
                    CutReader r{in.bytes, &cuts}; Reader f = std::ref(r); uint64_t ch = h; std::string s; for (auto x : cuts) ch = ch * 1000003 + x + 7; run.state(ch);
                    auto got = de(o, in, &f); if (got != want) for (auto x : cuts) s += " " + std::to_string(x); compare(got, "with a reader which stops at" + s);
                };
                if (n <= all_upto) { for (uint64_t m = 1; m < (1ull << (n ? n - 1 : 0)); m++) { cuts.clear(); for (size_t i = 1; i < n; i++) if (m >> (i - 1) & 1) cuts.push_back(i); cut(); } return; }
                if (n <= one_upto) for (size_t i = 1; i < n; i++) { cuts = {i}; cut(); }
                if (n <= two_upto) for (size_t i = 1; i < n; i++) for (size_t j = i + 1; j < n; j++) { cuts = {i, j}; cut(); }
            });
        };
        std::vector<size_t> few{0, 1, 2, 3, 5, 7, 8, 13, 64, 255, 256, 257}, some{0, 1, 3, 8, 256};
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, false), aj = alpha_for(d, true);
            // protobuf
            for (auto &r : records(d, 1, a, 1)) {
                test(*o, {false, r.bytes}, T ? 14 : 9, 600, T ? 120 : 40, few);
                if (r.bytes.size() <= (T ? 300u : 24u)) for (size_t i = 0; i < r.bytes.size(); i++) test(*o, {false, r.bytes.substr(0, i)}, T ? 10 : 6, 100, T ? 40 : 0, some);
                auto bad = r.bytes; bad.back() = char(bad.back() ^ 0x80); test(*o, {false, bad}, T ? 10 : 6, 100, T ? 40 : 0, some);
            }
            for (size_t k = 0; k < 6; k++) {
                auto b = ref_encode(d, full_msg(d, k, k < 3 ? 0 : 1, a, 2)); test(*o, {false, b}, 0, 3000, T ? 150 : 60, few);
                if (b.size() < 2000) for (size_t i = 0; i < b.size(); i += T || b.size() < 300 ? 1 : 7) { test(*o, {false, b.substr(0, i)}, 0, 0, 0, some); for (int x : {1, 0x80}) { auto m = b; m[i] = char(m[i] ^ x); test(*o, {false, m}, 0, 0, 0, some); } }
            }
            // json
            auto styles = js::styles(1);
            for (auto &f : d.fields) {
                size_t k = 0;
                for (auto &v : field_values(f, 1, aj, 1)) {
                    MsgVal m; assign(d, m, f, v); auto &st = styles[k++ % styles.size()];
                    for (int plain = 0; plain < 2; plain++) {
                        auto t = js::emit(d, m, plain ? js::Style{} : st); if (t.size() > 2000) continue;
                        test(*o, {true, t}, T ? 14 : 11, 600, T ? 100 : 30, few);
                        if (T && t.size() < 60) for (size_t i = 0; i < t.size(); i++) { test(*o, {true, t.substr(0, i)}, 10, 100, 0, some); auto x = t; x[i] = '"'; test(*o, {true, x}, 10, 100, 0, some); }
                    }
                }
            }
            size_t si = 0;
            for (auto &s : styles) {
                auto t = js::emit(d, full_msg(d, si++ % 6, 0, aj, 1), s);
                test(*o, {true, t}, 0, 1500, 0, few);
                if (t.size() < 1500) for (size_t i = 0; i < t.size(); i += T || t.size() < 200 ? 1 : 11) { test(*o, {true, t.substr(0, i)}, 0, 0, 0, some); for (char x : {'"', '\\', '1'}) { auto m = t; m[i] = x; test(*o, {true, m}, 0, 0, 0, some); } }
            }
            // every position of the document at every offset of the buffer: white space in front of it
            for (size_t k = 0; k < (T ? 4u : 2u); k++) {
                js::Style st; st.v[js::S_ESC] = k & 1 ? 1 : 0; st.v[js::S_UNKNOWN] = k & 1 ? 4 : 0; st.v[js::S_QUOTE] = k & 1;
                auto t = js::emit(d, full_msg(d, k + 1, 0, aj, 1), st); if (t.size() > 1500) t = js::emit(d, full_msg(d, 0, 0, aj, 0), st);
                for (size_t pad = 0; pad < 260; pad += (t.size() > 600 && !T ? 3 : 1)) test(*o, {true, std::string(pad, ' ') + t}, 0, 0, 0, pad % 4 ? std::vector<size_t>{0} : std::vector<size_t>{0, 1, 255});
            }
            // long strings, numbers, names and keys across the buffer
            for (auto &f : d.fields) if (f.label != L::Map && f.fixed_sz < 0 && !f.max_size && (f.kind == K::String || f.kind == K::Bytes)) for (size_t n = 200; n < 560; n += T ? 1 : 3) {
                auto s = f.kind == K::Bytes ? bin_pattern(n) : pattern(n - 3) + utf8(0x20ac); MsgVal m; m.f[f.num] = {Val(s)};
                test(*o, {true, js::emit(d, m)}, 0, 0, 0, {0, 1, 100, 256});
                js::Style st; st.v[js::S_ESC] = 1; test(*o, {true, js::emit(d, m, st)}, 0, 0, 0, {0, 7, 256});
            }
        }
        // numbers and literals at the end of the buffer
        auto &n = R.get("Vt.Comp.Node");
        for (auto *v : {"123456", "-2147483648", "\"77\"", "null", "99999999999", "12x", "1.0", "1e1", "-"}) for (size_t pad = 220; pad < 262; pad++) for (auto &t : {std::string(pad, ' ') + "{\"v\":" + v + "}", "{\"no\":\"" + std::string(pad, 'x') + "\",\"v\":" + v + "}", "{\"v\"" + std::string(pad, '\n') + ":" + v + ",\"tag\":\"z\"}", "{\"no\":[" + std::string(pad, ' ') + v + "],\"v\":" + v + "}", std::string("{\"v\":") + v + std::string(pad, ' ') + "}"})
            test(n, {true, t}, 0, 600, 0, few);
        for (size_t len = 1; len < 600; len += 1) for (char ch : {'0', '1'}) { std::string num(len, ch); if (ch == '0') num = "0." + num; test(n, {true, "{\"no\":" + num + ",\"v\":3}"}, 0, 0, 0, some); test(n, {true, "{\"" + std::string(len, 'k') + "\":1,\"v\":3}"}, 0, 0, 0, some); test(n, {true, "{\"v\":\"" + num + "\"}"}, 0, 0, 0, some); }
        // one part of the input which is long enough for several refills of the buffer: white space at every place,
        // names, strings, escapes, numbers, arrays, nested and ignored values
        {
            std::vector<size_t> lens; for (size_t k = 1; k <= (T ? 12u : 5u); k++) for (int e = T ? -6 : -2; e <= (T ? 6 : 2); e++) lens.push_back(256 * k + size_t(e));
            for (size_t x : {16u * 256, 4096u + 1, 40u * 256 + 3}) lens.push_back(x);
            auto reps = [](size_t n, const std::string &s, const std::string &sep = "") { std::string r; for (size_t i = 0; i < n; i++) { if (i) r += sep; r += s; } return r; };
            const std::vector<std::string> places{"{", "\"v\"", ":", "1", ",", "\"no\"", ":", "[", "2", ",", "{", "\"x\"", ":", "3", "}", "]", ",", "\"kids\"", ":", "[", "{", "\"v\"", ":", "4", "}", ",", "{", "}", "]", ",", "\"tag\"", ":", "\"t\"", ",", "\"next\"", ":", "null", "}"};
            for (size_t ln : lens) for (size_t before : T ? std::vector<size_t>{0, 1, 100, 255} : std::vector<size_t>{0, 37}) {
                std::string lead(before, '\t');
                for (size_t at = 0; at <= places.size(); at++) { std::string t = lead; for (size_t i = 0; i < places.size(); i++) { if (i == at) t += std::string(ln, " \n\t\r"[at % 4]); t += places[i]; } if (at == places.size()) t += std::string(ln, ' '); test(n, {true, t}, 0, 0, 0, {0, 256, 1000}); }
                for (auto &t : {"{\"tag\":\"" + reps(ln, "x") + "\",\"v\":1}", "{\"tag\":\"" + reps(ln / 2, "\\n") + "\",\"v\":1}", "{\"tag\":\"" + reps(ln / 6, "\\u20ac") + "\",\"v\":1}", "{\"tag\":\"" + reps(ln / 12, "\\ud83d\\ude00") + "\",\"v\":1}", "{\"tag\":\"" + reps(ln / 3, utf8(0x20ac)) + "\",\"v\":1}", "{\"tag\":\"" + reps(ln, "x") + "\\\"\",\"v\":1}",
                        "{\"" + reps(ln, "k") + "\":2,\"v\":1}", "{\"" + reps(ln / 2, "\\t") + "\":2,\"v\":1}", "{\"no\":\"" + reps(ln, "x") + "\",\"v\":1}", "{\"no\":\"" + reps(ln / 2, "\\\"") + "\",\"v\":1}", "{\"no\":[" + reps(ln / 2, "0", ",") + "],\"v\":1}", "{\"no\":[" + reps(ln / 6, "\"a]b\"", ",") + "],\"v\":1}", "{\"no\":{" + reps(ln / 8, "\"x\":[]", " , ") + "},\"v\":1}", "{\"no\":" + reps(std::min<size_t>(ln, 60), "[") + "7" + reps(std::min<size_t>(ln, 60), "]") + ",\"v\":1}",
                        "{\"no\":" + reps(ln, "1") + ",\"v\":1}", "{\"v\":" + reps(ln, "0") + "1,\"tag\":\"\"}", "{\"kids\":[" + reps(ln / 8, "{\"v\":5}", ",") + "],\"v\":1}", "{\"kids\":[" + reps(ln / 3, "{}", ", ") + "],\"v\":1}", "{\"next\":{\"kids\":[" + reps(ln / 16, "{\"kids\":[ { } ]}", ",") + "]},\"v\":1}", "{" + reps(ln / 6, "\"v\":1", ",") + "}"})
                    test(n, {true, lead + t}, 0, 0, 0, {0, 256, 1000});
                auto str = std::string(ln, 's'); auto len = varint(ln);
                for (auto &t : {"\x22" + len + str + "\x08\x05", "\x3a" + len + str + "\x08\x05", reps(ln / 2, "\x08\x05"), reps(ln / 4, std::string("\x1a\x02\x08\x07", 4)) + "\x08\x05", reps(ln / 4, std::string("\x3a\x02\x08\x07", 4)) + "\x08\x05", reps(ln / 9, std::string("\x39") + std::string(8, '\x08')) + "\x08\x05", "\x22" + varint(ln + 1) + str}) test(n, {false, t}, 0, 0, 0, {0, 1, 256, 1000});
            }
        }
        // writers: the pieces are the output
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true);
            explore(run, d, a, {.full_lv = 1, .depth2_lv = 0, .depth3_lv = -1, .nest = 2}, [&](const MsgVal &m, uint64_t h) {
                run.test([&] { return std::string(d.name) + " writer " + show(d, m); }, [&] {
                    auto obj = o->build(m); run.state(h); ++run.transitions; ++run.validated;
                    for (int json = 0; json < 2; json++) {
                        std::string pieces; Writer w = [&](const void *p, size_t k) { pieces.append((const char *)p, k); };
                        auto n = json ? o->js_ser_writer(*obj, w) : o->pb_ser_writer(*obj, w); auto whole = json ? o->js_ser(*obj) : o->pb_ser(*obj);
                        if (pieces != whole) run.fail("a writer gets " + hex(pieces) + " but the returned string is " + hex(whole));
                        if (n != whole.size()) run.fail("returned size " + std::to_string(n) + " instead of " + std::to_string(whole.size()));
                        std::string out = "previous content"; auto n2 = json ? o->js_ser_to(*obj, out) : o->pb_ser_to(*obj, out);
                        if (out != whole || n2 != whole.size()) run.fail("the container gets " + hex(out) + " but the returned string is " + hex(whole));
                        std::vector<char> exact(whole.size() + 1, '\x5a'); auto n3 = json ? o->js_ser_buf(*obj, exact.data()) : o->pb_ser_buf(*obj, exact.data());
                        if (n3 != whole.size() || std::string(exact.data(), whole.size()) != whole || exact.back() != '\x5a') run.fail("the buffer gets " + hex({exact.data(), exact.size()}) + " but the returned string is " + hex(whole));
                        auto vec = json ? o->js_ser_vec(*obj) : o->pb_ser_vec(*obj);
                        if (std::string((const char *)vec.data(), vec.size()) != whole) run.fail("the byte vector differs from the string");
                    }
                });
            });
        }
    };
    return run_check(argc, argv, c);
}
