// C10: an exception of a reader or writer reaches the caller unchanged, whichever call throws it, and leaves nothing behind.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_records.hpp"
using namespace vt;
static Registry R;
struct Fault { uint64_t id; };                                                   // not derived from std::exception
struct StdFault : std::runtime_error { uint64_t id; StdFault(uint64_t i) : runtime_error("fault of the environment"), id(i) {} };
enum Kind { PLAIN, STD, LATE }; // LATE: fills the buffer before it throws
static void raise(Kind k, uint64_t id) { if (k == STD) throw StdFault(id); throw Fault{id}; }
static std::string caught(const std::function<void()> &f, uint64_t id)
{
    try { f(); }
    catch (const Fault &x) { return x.id == id ? "fault" : "another fault"; }
    catch (const StdFault &x) { return x.id == id ? "std fault" : "another fault"; }
    catch (const Endless &) { return "reader is called forever"; }
    catch (const std::exception &e) { return std::string("exception ") + e.what(); }
    return "no exception";
}
int main(int argc, char **argv)
{
    Check c{.prop = "C10", .level = "fault_enumeration"};
    c.rule = "every call of the reader or writer of a run throws once (an exception derived from std::exception, one which is not, and one which has already filled the buffer), for several chunk sizes, valid and malformed inputs; non-trivial: a case with at least two distinct fault points";
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough; uint64_t serial = 0;
        auto read_faults = [&](const Ops &o, const std::string &in, bool json, bool delim) {
            run.test([&] { return std::string(o.desc().name) + (json ? " json reader " + quoted(in, 300) : std::string(delim ? " delimited" : "") + " reader " + hex(in, 300)); }, [&] {
                for (size_t chunk : {size_t(0), size_t(1), size_t(3), size_t(64)}) {
                    auto decode = [&](Obj &x, const Reader &r) { if (json) o.js_de_reader(x, r); else o.pb_de_reader(x, r, delim); };
                    ChunkReader r{in, chunk}; std::string plain;
                    auto first = o.make();
                    auto want = caught([&] { decode(*first, std::ref(r)); }, 0);
                    const auto calls = r.calls; const bool ok = want == "no exception"; if (ok) plain = canon(o.desc(), o.read(*first), false);
                    if (calls > (T ? 4000u : 400u)) continue;
                    if (calls > 1) run.nontrivial.insert(hash64(in, chunk + 31 * unsigned(json) + 17 * unsigned(delim)));
                    for (size_t at = 1; at <= calls; at++) for (Kind k : {PLAIN, STD, LATE}) {
                        ++serial; ++run.transitions;
                        ChunkReader q{in, chunk}; size_t call = 0; auto id = serial;
                        Reader f = [&](void *p, size_t n) -> size_t { if (++call == at) { if (k == LATE) memset(p, 0x22, n); raise(k, id); } if (call > at) throw std::runtime_error("called again after the fault"); return q(p, n); };
                        auto x = o.make();
                        auto got = caught([&] { decode(*x, f); }, id);
                        run.outcome(got); ++run.evaluations;
                        if (got != (k == STD ? "std fault" : "fault")) run.fail("the reader throws in call " + std::to_string(at) + " of " + std::to_string(calls) + " (chunks of " + std::to_string(chunk) + "): " + got);
                        o.read(*x); // readable and destructible
                    }
                    // nothing is left behind
                    ChunkReader q{in, chunk}; auto x = o.make(); auto again = caught([&] { decode(*x, std::ref(q)); }, 0);
                    if (again != want || q.calls != calls || (ok && canon(o.desc(), o.read(*x), false) != plain)) run.fail("decoding the same input after the faults: " + again + " instead of " + want);
                    if (ok && !json && !delim) { // the returning form
                        ChunkReader z{in, chunk}; size_t call = 0; const size_t at = calls; auto id = ++serial;
                        Reader f = [&](void *p, size_t n) -> size_t { if (++call == at) raise(PLAIN, id); return z(p, n); };
                        if (auto got = caught([&] { o.pb_de_reader_ret(f); }, id); got != "fault") run.fail("returning deserialize: " + got);
                    }
                }
            });
        };
        auto write_faults = [&](const Ops &o, const MsgVal &m) {
            run.test([&] { return std::string(o.desc().name) + " writer " + show(o.desc(), m); }, [&] {
                auto obj = o.build(m);
                for (int mode = 0; mode < 3; mode++) {
                    auto encode = [&](const Writer &w) { if (mode == 2) o.js_ser_writer(*obj, w); else o.pb_ser_writer(*obj, w, mode == 1); };
                    std::string whole; std::vector<size_t> sizes; encode([&](const void *p, size_t n) { whole.append((const char *)p, n); sizes.push_back(n); });
                    const size_t calls = sizes.size(); if (calls > 1) run.nontrivial.insert(hash64(whole, unsigned(mode)));
                    for (size_t at = 1; at <= calls; at++) for (Kind k : {PLAIN, STD}) {
                        if (!T && calls > 200 && at % 7 && at > 20 && at + 20 < calls) continue;
                        ++serial; ++run.transitions; auto id = serial; size_t call = 0; std::string part;
                        auto got = caught([&] { encode([&](const void *p, size_t n) { if (++call == at) raise(k, id); if (call > at) throw std::runtime_error("called again after the fault"); part.append((const char *)p, n); }); }, id);
                        run.outcome(got); ++run.evaluations;
                        if (got != (k == STD ? "std fault" : "fault")) run.fail("the writer throws in call " + std::to_string(at) + " of " + std::to_string(calls) + ": " + got);
                        if (whole.compare(0, part.size(), part) != 0) run.fail("the writer got " + hex(part) + " before the fault, which is no prefix of " + hex(whole));
                    }
                    std::string again; encode([&](const void *p, size_t n) { again.append((const char *)p, n); });
                    if (again != whole) run.fail("the output after the faults is " + hex(again) + " instead of " + hex(whole));
                }
            });
        };
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true); a.big = false;
            for (auto &r : records(d, T ? 2 : 1, a, 1)) {
                if (r.bytes.size() > 2000) continue;
                read_faults(*o, r.bytes, false, false); read_faults(*o, len(r.bytes), false, true);
                if (r.bytes.size() > 1) { auto cut = r.bytes.substr(0, r.bytes.size() - 1); read_faults(*o, cut, false, false); read_faults(*o, len(r.bytes).substr(0, r.bytes.size()), false, true); }
            }
            auto styles = js::styles(1); size_t k = 0;
            for (auto &f : d.fields) for (auto &v : field_values(f, T ? 1 : 0, a, 1)) {
                MsgVal m; assign(d, m, f, v); auto t = js::emit(d, m, styles[k++ % styles.size()]); if (t.size() > 1500) continue;
                read_faults(*o, t, true, false); read_faults(*o, t.substr(0, t.size() - 1), true, false);
            }
            for (size_t i = 0; i < 6; i++) {
                auto m = full_msg(d, i, i < 3 ? 0 : 1, a, 2);
                auto b = ref_encode(d, m); read_faults(*o, b, false, false); read_faults(*o, len(b), false, true);
                read_faults(*o, js::emit(d, m, styles[i * 3]), true, false);
                auto bad = b; if (!bad.empty()) { bad[bad.size() / 2] = char(bad[bad.size() / 2] ^ 0x40); read_faults(*o, bad, false, false); }
            }
            explore(run, d, a, {.full_lv = T ? 2 : 1, .depth2_lv = 0, .depth3_lv = -1, .nest = 1, .cap = T ? 1e6 : 5000}, [&](const MsgVal &m, uint64_t) { write_faults(*o, m); });
        }
    };
    return run_check(argc, argv, c);
}
