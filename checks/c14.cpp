// C14: limits of a schema hold in both directions and both formats; nothing within the limits is refused, no integer is cut.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_values.hpp"
using namespace vt;
static Registry R;
int main(int argc, char **argv)
{
    Check c{.prop = "C14"};
    c.rule = "schemas: every combination of max_size/max_count at file, message and field level in every spelling, for every kind of field; for each of them every size and count up to the limit + 4, every split of the elements over records; integers narrower than their wire type: every value of 17 bits and the borders of all powers of two in every encoding; fixed size containers: every size. Model: field overrides message overrides file";
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough;
        auto attempt = [](auto &&f) { try { f(); return true; } catch (const std::exception &) { return false; } };
        // all of the ways in and out
        auto judge = [&](const Ops &o, const MsgVal &m, bool ok, const std::string &what) {
            auto &d = o.desc(); ++run.validated; ++run.transitions; run.outcome(ok ? "fits" : "does not fit");
            auto need = [&](bool got, const char *op) { if (got != ok) run.fail(what + (ok ? " is within the limits but rejected by " : " exceeds a limit but is accepted by ") + op); };
            auto obj = o.build(m); auto want = canon(d, normed(d, m), false);
            need(attempt([&] { o.pb_ser(*obj); }), "protobuf serialization");
            need(attempt([&] { o.pb_ser_writer(*obj, [](const void *, size_t) {}); }), "protobuf serialization to a writer");
            need(attempt([&] { o.js_ser(*obj); }), "JSON serialization");
            need(attempt([&] { o.js_ser_writer(*obj, [](const void *, size_t) {}); }), "JSON serialization to a writer");
            auto wire = ref_encode(d, m); auto text = js::emit(d, m); js::Style st; st.v[js::S_ESC] = 1; st.v[js::S_WS] = 2; auto text2 = js::emit(d, m, st);
            std::unique_ptr<Obj> x; auto same = [&](const char *op) { if (ok && canon(d, o.read(*x), false) != want) run.fail(what + " is read by " + op + " as " + show(d, o.read(*x))); };
            x = o.make(); need(attempt([&] { o.pb_de(*x, wire.data(), wire.size()); }), "protobuf deserialization"); same("protobuf deserialization");
            for (size_t k : {0, 1}) { x = o.make(); ChunkReader r{wire, k}; need(attempt([&] { o.pb_de_reader(*x, std::ref(r)); }), "protobuf deserialization via a reader"); same("protobuf deserialization via a reader"); }
            for (auto *t : {&text, &text2}) {
                x = o.make(); need(attempt([&] { o.js_de(*x, t->data(), t->size()); }), "JSON deserialization"); same("JSON deserialization");
                for (size_t k : {0, 1}) { x = o.make(); ChunkReader r{*t, k}; need(attempt([&] { o.js_de_reader(*x, std::ref(r)); }), "JSON deserialization via a reader"); same("JSON deserialization via a reader"); }
            }
        };
        for (auto *o : R.all) {
            auto &d = o->desc(); std::string_view dn = d.name;
            for (auto &f : d.fields) {
                if (f.label == L::Map) continue;
                auto name = std::string(d.name) + "." + f.name;
                // sizes
                if ((f.kind == K::String || f.kind == K::Bytes) && (dn.starts_with("Vt.Lim_") || f.max_size)) for (size_t n = f.label == L::Req ? 1 : 0; n <= 12; n++) for (int kind = 0; kind < 3; kind++) run.test([&] { return name + " size " + std::to_string(n) + " limit " + std::to_string(f.max_size); }, [&] {
                    std::string s = f.kind == K::Bytes ? bin_pattern(n) : kind == 0 ? pattern(n) : kind == 1 ? std::string(n % 2, 'x') : std::string(n % 3, '"');
                    if (f.kind == K::String && kind == 1) for (size_t i = 0; i < n / 2; i++) s += utf8(0xe9);
                    if (f.kind == K::String && kind == 2) for (size_t i = 0; i < n / 3; i++) s += utf8(0x20ac);
                    run.state(hash64(name + s)); const bool ok = !f.max_size || n <= f.max_size;
                    MsgVal m; m.f[f.num] = {Val(s)}; judge(*o, m, ok, name + " = " + quoted(s));
                    if (f.label == L::Rep && (!f.max_count || f.max_count > 1)) { m.f[f.num] = {Val("a"), Val(s)}; judge(*o, m, ok, name + " = [a, " + quoted(s) + "]"); m.f[f.num] = {Val(s), Val("a")}; judge(*o, m, ok, name + " = [" + quoted(s) + ", a]"); }
                });
                if (f.fixed_sz >= 0) for (int n = 0; n < f.fixed_sz + 5; n++) run.test([&] { return name + " fixed size " + std::to_string(n); }, [&] {
                    auto s = pattern(size_t(n)); MsgVal m; m.f[f.num] = {Val(s)}; const bool ok = n == f.fixed_sz; run.state(hash64(name + s)); ++run.transitions; ++run.validated;
                    auto wire = ref_encode(d, m), text = js::emit(d, m);
                    auto x = o->make(); if (attempt([&] { o->pb_de(*x, wire.data(), wire.size()); }) != ok) run.fail(name + ": " + std::to_string(n) + " bytes are" + (ok ? " rejected" : " accepted") + " by protobuf"); if (ok && o->read(*x).f[f.num].back().s != s) run.fail(name + " changes");
                    x = o->make(); if (attempt([&] { o->js_de(*x, text.data(), text.size()); }) != ok) run.fail(name + ": " + std::to_string(n) + " bytes are" + (ok ? " rejected" : " accepted") + " by JSON"); if (ok && o->read(*x).f[f.num].back().s != s) run.fail(name + " changes");
                });
                // counts
                if (f.label == L::Rep && (dn.starts_with("Vt.Lim_") || f.max_count)) for (size_t n = 0; n <= 10; n++) run.test([&] { return name + " count " + std::to_string(n) + " limit " + std::to_string(f.max_count); }, [&] {
                    MsgVal m; auto vs = element_values(f, 0, Alpha{.json = true}, 1); std::vector<Val> v; for (size_t i = 0; i < n; i++) v.push_back(f.kind == K::String || f.kind == K::Bytes ? Val("a") : vs[i % vs.size()]);
                    if (n) m.f[f.num] = v; const bool ok = !f.max_count || n <= f.max_count; run.state(hash64(name) + n);
                    judge(*o, m, ok, name + " with " + std::to_string(n) + " elements");
                    // split over records
                    const bool scalar = wire_type(f.kind) != LEN;
                    for (size_t k = 0; k <= n; k++) for (int form = 0; form < (scalar ? 4 : 1); form++) {
                        auto part = [&](size_t a, size_t b, bool packed) { std::string w; if (packed && scalar) { std::string body; for (size_t i = a; i < b; i++) body += ref_scalar(f, v[i]); return tag(uint32_t(f.num), LEN) + len(body); } for (size_t i = a; i < b; i++) w += tag(uint32_t(f.num), wire_type(f.kind)) + ref_scalar(f, v[i]); return w; };
                        auto w = part(0, k, form & 1) + tag(3000, VARINT) + "\x01" + part(k, n, form & 2); ++run.transitions;
                        auto x = o->make(); if (attempt([&] { o->pb_de(*x, w.data(), w.size()); }) != ok) run.fail(name + ": " + std::to_string(k) + " + " + std::to_string(n - k) + " elements are " + (ok ? "rejected " : "accepted ") + hex(w));
                        if (ok && canon(d, o->read(*x), false) != canon(d, normed(d, m), false)) run.fail(name + ": " + hex(w) + " is read as " + show(d, o->read(*x)));
                    }
                });
                if (f.fixed_n >= 0) for (size_t n = 0; n < size_t(f.fixed_n) + 5; n++) run.test([&] { return name + " fixed count " + std::to_string(n); }, [&] {
                    auto vs = scalar_values(f, 0, {}); std::string body; MsgVal m; for (size_t i = 0; i < n; i++) { body += ref_scalar(f, vs[i % vs.size()]); m.f[f.num].push_back(vs[i % vs.size()]); } const bool ok = n == size_t(f.fixed_n); run.state(hash64(name) + n + 100); ++run.transitions; ++run.validated;
                    auto w = tag(uint32_t(f.num), LEN) + len(body); auto text = n ? js::emit(d, m) : std::string("{\"") + f.json + "\":[]}";
                    for (int how = 0; how < 4; how++) {
                        auto x = o->make(); auto &in = how < 2 ? w : text; ChunkReader r{in, 1};
                        bool got = attempt([&] { if (how == 0) o->pb_de(*x, in.data(), in.size()); if (how == 1) o->pb_de_reader(*x, std::ref(r)); if (how == 2) o->js_de(*x, in.data(), in.size()); if (how == 3) o->js_de_reader(*x, std::ref(r)); });
                        if (got != ok) run.fail(name + ": " + std::to_string(n) + " elements are" + (ok ? " rejected" : " accepted") + (how < 2 ? " by protobuf" : " by JSON"));
                        if (ok && canon(d, o->read(*x), false) != canon(d, normed(d, m), false)) run.fail(name + " is read as " + show(d, o->read(*x)));
                    }
                });
                // narrow integers
                FieldDesc wide = f; bool narrow = false;
                if (f.is_int() && f.kind != K::Bool && f.fixed_n < 0) { int64_t lo = 0; uint64_t hi = 0; switch (f.kind) { case K::UInt32: case K::Fixed32: hi = UINT32_MAX; break; case K::UInt64: case K::Fixed64: hi = UINT64_MAX; break; case K::Int64: case K::SInt64: case K::SFixed64: lo = INT64_MIN; hi = INT64_MAX; break; default: lo = INT32_MIN; hi = INT32_MAX; } narrow = f.min != lo || f.max != hi; wide.min = lo; wide.max = hi; }
                if (!narrow) continue;
                std::vector<uint64_t> vs; std::unordered_set<uint64_t> seen; auto add = [&](uint64_t x) { if (wide.in_range(x) && seen.insert(x).second) vs.push_back(x); };
                for (int64_t x = T ? -140000 : -66000; x <= (T ? 140000 : 66000); x += (!T && (f.max > 40000 || f.min < -40000)) ? 101 : 1) add(uint64_t(x));
                for (int k = 0; k < 64; k++) for (int e = -3; e <= 3; e++) { add((1ull << k) + uint64_t(int64_t(e))); add(uint64_t(-int64_t((1ull << k) + uint64_t(int64_t(e))))); }
                for (int e = -200; e <= 200; e++) { add(f.max + uint64_t(int64_t(e))); add(uint64_t(f.min + e)); add((1ull << 32) + uint64_t(int64_t(e))); add((1ull << 31) + uint64_t(int64_t(e))); add(uint64_t(int64_t(e)) * 65536); add(uint64_t(int64_t(e)) * 256); add((1ull << 32) * uint64_t(int64_t(e))); add((1ull << 32) * uint64_t(int64_t(e)) + 1); }
                for (size_t at = 0; at < vs.size(); at += 512) run.test([&] { return name + " values from " + std::to_string(int64_t(vs[at])); }, [&] {
                    for (size_t i = at; i < vs.size() && i < at + 512; i++) {
                        auto u = vs[i]; const bool ok = f.in_range(u); ++run.transitions; ++run.validated; ++run.evaluations; run.state(hash64(name) ^ hash64(std::to_string(u)));
                        std::vector<std::string> wires{tag(uint32_t(f.num), wire_type(f.kind)) + ref_scalar(wide, Val(u))};
                        if (f.label == L::Rep) wires.push_back(tag(uint32_t(f.num), LEN) + len(ref_scalar(wide, Val(u))));
                        auto text = f.is_signed() ? std::to_string(int64_t(u)) : std::to_string(u); 
                        MsgVal want; want.f[f.num] = {Val(u)}; norm(d, want);
                        auto test1 = [&](const std::string &in, bool json) {
                            if (!json) { MsgVal g; std::string why; if (ref_try(d, in, g, &why) == Verdict::Unspecified) return; }
                            auto x = o->make(); bool got = attempt([&] { if (json) o->js_de(*x, in.data(), in.size()); else o->pb_de(*x, in.data(), in.size()); });
                            if (got != ok) run.fail(name + " = " + text + (ok ? " is rejected " : " is accepted ") + (json ? in : hex(in)) + (got ? " as " + show(d, o->read(*x)) : ""));
                            if (ok && canon(d, o->read(*x), false) != canon(d, want, false)) run.fail(name + " = " + text + " is read as " + show(d, o->read(*x)));
                        };
                        for (auto &w : wires) test1(w, false);
                        if (f.kind == K::Enum) { bool known = false; for (auto &[n, v] : f.en->values) known |= uint64_t(v) == u; if (!known && ok) continue; }
                        auto q = f.label == L::Rep ? "[" + text + "]" : text; test1(std::string("{\"") + f.json + "\":" + q + "}", true);
                        if (f.kind != K::Enum) { q = f.label == L::Rep ? "[\"" + text + "\"]" : "\"" + text + "\""; test1(std::string("{\"") + f.json + "\":" + q + "}", true); }
                    }
                });
            }
        }
        // elements of one message spread over several records of the enclosing field
        auto &nl = R.get("Vt.Opts.NoLim"); auto &lf = R.get("Vt.Opts.LimField"); 
        for (auto &f : lf.desc().fields) if (f.label == L::Rep && f.max_count) for (size_t a = 0; a <= f.max_count + 1; a++) for (size_t b = 0; b <= f.max_count + 1; b++) run.test([&] { return std::string("merged ") + f.name + " " + std::to_string(a) + "+" + std::to_string(b); }, [&] {
            auto vs = element_values(f, 0, Alpha{.json = true}, 1); std::string one, two; for (size_t i = 0; i < a; i++) one += tag(uint32_t(f.num), wire_type(f.kind)) + ref_scalar(f, vs[0]); for (size_t i = 0; i < b; i++) two += tag(uint32_t(f.num), wire_type(f.kind)) + ref_scalar(f, vs[0]);
            auto w = tag(3, LEN) + len(one) + tag(3, LEN) + len(two); const bool ok = a + b <= f.max_count; ++run.transitions; ++run.validated; run.state(hash64(w));
            auto x = nl.make(); if (attempt([&] { nl.pb_de(*x, w.data(), w.size()); }) != ok) run.fail(std::string(f.name) + ": " + std::to_string(a) + " + " + std::to_string(b) + " elements in two records of the enclosing field are" + (ok ? " rejected" : " accepted"));
        });
    };
    return run_check(argc, argv, c);
}
