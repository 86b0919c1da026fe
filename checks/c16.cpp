// C16: the library itself never allocates: serialization of any message into a buffer or a writer, and deserialization into
// containers which do not allocate. A container which is full makes deserialization fail, nothing else.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_records.hpp"
#include <cstdlib>
#include <new>
using namespace vt;
// every way to the heap of this process
static volatile bool watching; static volatile size_t allocs, alloc_bytes;
extern "C" {
void *__libc_malloc(size_t); void __libc_free(void *); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t);
static void seen(size_t n) { if (watching) { allocs = allocs + 1; alloc_bytes = alloc_bytes + n; } }
void *malloc(size_t n) { seen(n); return __libc_malloc(n); }
void free(void *p) { __libc_free(p); }
void *calloc(size_t a, size_t b) { seen(a * b); return __libc_calloc(a, b); }
void *realloc(void *p, size_t n) { seen(n); return __libc_realloc(p, n); }
void *memalign(size_t a, size_t n) { seen(n); return __libc_memalign(a, n); }
void *aligned_alloc(size_t a, size_t n) { seen(n); return __libc_memalign(a, n); }
int posix_memalign(void **p, size_t a, size_t n) { seen(n); *p = __libc_memalign(a, n); return *p ? 0 : 12; }
}
void *operator new(size_t n) { auto *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
static Registry R;
static bool fits_caps(const MsgDesc &d, const MsgVal &m, const Alpha &a)
{
    for (auto &f : d.fields) if (auto it = m.f.find(f.num); it != m.f.end()) {
        if (f.label == L::Map && it->second.size() > a.map_cap) return false;
        if (f.label == L::Rep && f.fixed_n < 0 && it->second.size() > a.count_cap) return false;
        for (auto &v : it->second) { if (v.s.size() > a.cap) return false; if (v.m && f.msg && !fits_caps(*f.msg, *v.m, a)) return false; }
    }
    return true;
}
int main(int argc, char **argv)
{
    Check c{.prop = "C16"};
    c.rule = "every call to the allocator of the process is counted while the library runs. Serialization (size, buffer, writer, both formats) of every message of every fixture schema; deserialization (buffer, reader, both formats, every record and every style of document, unknown data) into containers with a fixed capacity, and into scalars of every schema; every container filled to its capacity and one beyond. Model: no allocations; the value fits or the call fails";
    c.assumptions = {"the allocation of a thrown exception is not counted (failing calls)"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough; static std::vector<char> sink(1 << 20);
        auto watch = [&](const char *what, auto &&f) { allocs = 0; alloc_bytes = 0; watching = true; try { f(); } catch (...) { watching = false; throw; } watching = false; ++run.transitions; ++run.validated; if (allocs) run.fail(std::string(what) + " allocates memory " + std::to_string(allocs) + " times, " + std::to_string(alloc_bytes) + " bytes"); };
        auto serialize = [&](const Ops &o, const Obj &obj) {
            size_t n = 0;
            watch("protobuf serialize_size", [&] { n = o.pb_size(obj); }); if (n + 20 > sink.size()) return;
            watch("protobuf serialization to a buffer", [&] { o.pb_ser_buf(obj, sink.data()); });
            watch("delimited protobuf serialization to a buffer", [&] { o.pb_ser_buf(obj, sink.data(), true); });
            size_t pos = 0; Writer w = [&pos](const void *p, size_t k) { if (pos + k > sink.size()) pos = 0; memcpy(sink.data() + pos, p, k); pos += k; };
            watch("protobuf serialization to a writer", [&] { o.pb_ser_writer(obj, w); });
            watch("JSON serialize_size", [&] { n = o.js_size(obj); }); if (n + 20 > sink.size()) return;
            watch("JSON serialization to a buffer", [&] { o.js_ser_buf(obj, sink.data()); });
            pos = 0; watch("JSON serialization to a writer", [&] { o.js_ser_writer(obj, w); });
        };
        auto from = [&](const Ops &o, const std::string &in, bool json) -> std::string {
            std::string first;
            for (int how = 0; how < 4; how++) {
                auto x = o.make(); ChunkReader r{in, how == 2 ? size_t(1) : how == 3 ? size_t(100) : 0}; Reader f = std::ref(r);
                watch(json ? "JSON deserialization" : "protobuf deserialization", [&] { if (how == 0) json ? o.js_de(*x, in.data(), in.size()) : o.pb_de(*x, in.data(), in.size()); else json ? o.js_de_reader(*x, f) : o.pb_de_reader(*x, f); });
                auto got = canon(o.desc(), o.read(*x), false); if (how && got != first) run.fail("a reader gives another value: " + show(o.desc(), o.read(*x)).substr(0, 300)); first = got;
            }
            return first;
        };
        auto de = [&](const Ops &o, const MsgVal &m, const std::string &in, bool json, const std::string &what) {
            run.test([&] { return std::string(o.desc().name) + (json ? " json " + quoted(in, 300) : " " + hex(in, 200)) + " " + what; }, [&] {
                run.state(hash64(in, hash64(o.desc().name) + json)); auto got = from(o, in, json); run.outcome(got);
                MsgVal n = m; norm(o.desc(), n); if (got != canon(o.desc(), n, false)) run.fail("the value differs: " + got.substr(0, 300) + " instead of " + canon(o.desc(), n, false).substr(0, 300));
            });
        };
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true); a.big = false; const bool st = std::string_view(d.name).starts_with("Vt.Tiny");
            // serialization of everything
            explore(run, d, a, {.full_lv = T || st ? 2 : 1, .depth2_lv = T ? 1 : 0, .depth3_lv = T ? 0 : -1, .nest = T ? 2 : 1, .cap = T ? 2e5 : 4000}, [&](const MsgVal &m, uint64_t h) {
                run.test([&] { return std::string(d.name) + " serialize " + show(d, m).substr(0, 500); }, [&] { run.state(h); auto obj = o->build(m); serialize(*o, *obj); });
            });
            // deserialization
            auto styles = js::styles(1); size_t k = 0;
            auto both = [&](const MsgVal &m, const std::string &what) { auto wire = ref_encode(d, m); if (wire.size() < 30000) de(*o, m, wire, false, what); auto &s = styles[k++ % styles.size()]; for (int plain = 0; plain < 2; plain++) { auto t = js::emit(d, m, plain ? js::Style{} : s); if (t.size() < 30000) de(*o, m, t, true, what); } };
            if (st) {
                for (auto &f : d.fields) for (auto &v : field_values(f, 2, a, 1)) { MsgVal m; assign(d, m, f, v); both(m, f.name); }
                for (size_t i = 0; i < 6; i++) both(full_msg(d, i, i < 3 ? 0 : 1, a, 1), "all fields");
                explore(run, d, a, {.full_lv = 1, .depth2_lv = T ? 1 : 0, .depth3_lv = -1, .nest = 1, .cap = T ? 3e5 : 8000}, [&](const MsgVal &m, uint64_t) { both(m, "pairs"); });
                for (auto &s : js::styles(2)) { auto m = full_msg(d, k++ % 6, 0, a, 1); de(*o, m, js::emit(d, m, s), true, "style"); }
                auto rs = records(d, 1, a, 1);
                auto seq = [&](const std::string &b) { MsgVal m; if (ref_try(d, b, m) == Verdict::Ok && fits_caps(d, m, a)) de(*o, m, b, false, "records"); };
                for (auto &r : rs) seq(r.bytes);
                for (size_t i = 0; i < rs.size(); i++) for (size_t j = 0; j < rs.size(); j++) if (T || rs[i].bytes.size() + rs[j].bytes.size() < 40) seq(rs[i].bytes + rs[j].bytes);
                // capacity: up to the border everything fits, beyond it the call fails
                for (auto &f : d.fields) {
                    if (f.fixed_sz >= 0 || f.fixed_n >= 0 || f.max_size) continue;
                    auto fill = [&](const MsgVal &m, bool fits, const std::string &what) {
                        if (fits) { both(m, what); return; }
                        auto wire = ref_encode(d, m), text = js::emit(d, m); std::string packed;
                        run.test([&] { return std::string(d.name) + "." + f.name + " " + what; }, [&] {
                            for (int how = 0; how < 6; how++) {
                                auto x = o->make(); bool threw = false; auto &in = how < 3 ? wire : text; ChunkReader r{in, how % 3 == 2 ? size_t(7) : 0}; Reader rf = std::ref(r); ++run.transitions; ++run.validated; run.state(hash64(in, hash64(d.name)));
                                try { how == 0 ? o->pb_de(*x, in.data(), in.size()) : how < 3 ? o->pb_de_reader(*x, rf) : how == 3 ? o->js_de(*x, in.data(), in.size()) : o->js_de_reader(*x, rf); } catch (const std::exception &) { threw = true; }
                                if (!threw) run.fail("a container takes more than its capacity"); o->read(*x);
                                auto again = ref_encode(d, {}); x = o->make(); o->pb_de(*x, again.data(), again.size());
                            }
                        });
                    };
                    auto vs = f.label == L::Map ? std::vector<Val>{} : element_values(f, 0, a, 0);
                    if (f.label == L::Rep) for (size_t n : {5, 6, 7, 8, 40}) { MsgVal m; for (size_t i = 0; i < n; i++) m.f[f.num].push_back(vs[i % vs.size()]); fill(m, n <= 6, std::to_string(n) + " elements"); }
                    if (f.label == L::Map && f.msg->fields[0].kind != K::Bool) { auto ev = element_values(f.msg->fields[1], 0, a, 0); for (size_t n : {3, 4, 5, 6}) { MsgVal m; for (size_t i = 0; i < n; i++) { MsgVal e; e.f[1] = {f.msg->fields[0].kind == K::String ? Val("key" + std::to_string(i)) : Val(uint64_t(i))}; e.f[2] = {ev[0]}; m.f[f.num].push_back(Val(e)); } fill(m, n <= 4, std::to_string(n) + " entries"); } }
                    if (f.kind == K::String || f.kind == K::Bytes) for (size_t n : {298, 299, 300, 301, 302, 303, 304, 600}) { MsgVal m; m.f[f.num] = {Val(f.kind == K::String ? pattern(n) : bin_pattern(n))}; fill(m, n <= 300, std::to_string(n) + " bytes"); if (f.label == L::Rep) { m.f[f.num].insert(m.f[f.num].begin(), 3, Val("x")); fill(m, n <= 300, std::to_string(n) + " bytes, last element"); } }
                }
            } else {
                // scalar members of any schema, and unknown data
                for (auto &f : d.fields) if (f.label != L::Map && f.label != L::Rep && f.kind != K::Message && (f.fixed_sz >= 0 || (f.kind != K::String && f.kind != K::Bytes)) && !std::string_view(d.name).starts_with("Vt.Static")) for (auto &v : field_values(f, T ? 2 : 1, a, 0)) { MsgVal m; assign(d, m, f, v); both(m, f.name); }
                for (auto &r : records(d, 1, a, 0)) if (r.what.starts_with("unknown") && !std::string_view(d.name).starts_with("Vt.Static")) de(*o, {}, r.bytes, false, r.what);
            }
        }
    };
    return run_check(argc, argv, c);
}
