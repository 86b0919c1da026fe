// C17: operations on different objects (and reading operations on one object) do not influence each other, however they
// are interleaved. Every operation runs in a thread; a scheduler decides at every call of a reader or writer which thread
// runs. The code under test is built with ThreadSanitizer, which does not see the scheduler: conflicting accesses to
// shared memory are found in every execution, whichever of the threads comes first.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_records.hpp"
#include <set>
using namespace vt;
#include <linux/futex.h>
#include <pthread.h>
#include <sys/syscall.h>
extern "C" {
void __tsan_acquire(void *); void __tsan_release(void *);
const char *__tsan_default_options() { return "halt_on_error=1:exitcode=66:report_signal_unsafe=0:die_after_fork=0:history_size=2:abort_on_error=0"; }
}
static Registry R;
// the baton is passed by raw futex calls, which ThreadSanitizer does not see as synchronization (this file is not instrumented)
struct Slot { int word; char pad[60]; };
static Slot slots[4]; // the last one: the main thread
static const int MAIN = 3;
static void pass(int to) { __atomic_store_n(&slots[to].word, 1, __ATOMIC_SEQ_CST); syscall(SYS_futex, &slots[to].word, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0); }
static void wait_for(int me) { while (!__atomic_exchange_n(&slots[me].word, 0, __ATOMIC_SEQ_CST)) syscall(SYS_futex, &slots[me].word, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0); }
struct Point { signed char running, n, chosen, enabled[3]; };
static Point points[1 << 16]; static size_t n_points;
static const int *prefix; static size_t n_prefix;
static bool done[3], diverged; static int n_ops;
using OpFn = std::function<std::string(const std::function<void()> &)>;
static const OpFn *bodies[3]; static std::string *results[3];
static char begin_edge, end_edge[3];
// who runs next; -1: nobody
static int choose(int running)
{
    auto &p = points[n_points]; p.running = (signed char)running; p.n = 0;
    if (running >= 0 && !done[running]) p.enabled[p.n++] = (signed char)running;
    for (int i = 0; i < n_ops; i++) if (i != running && !done[i]) p.enabled[p.n++] = (signed char)i;
    if (!p.n) return -1;
    int k = n_points < n_prefix ? prefix[n_points] : 0; if (k >= p.n) { diverged = true; k = 0; }
    p.chosen = (signed char)k; if (n_points + 1 < sizeof(points) / sizeof(*points)) ++n_points; else diverged = true;
    return p.enabled[k];
}
static void *thread_main(void *arg)
{
    const int me = int(intptr_t(arg));
    for (;;) {
        wait_for(me); __tsan_acquire(&begin_edge);
        std::function<void()> yield = [me] { int next = choose(me); if (next != me) { pass(next); wait_for(me); } };
        *results[me] = (*bodies[me])(yield);
        done[me] = true; __tsan_release(&end_edge[me]);
        int next = choose(me); pass(next < 0 ? MAIN : next);
    }
    return nullptr;
}
// runs the operations with the choices of a prefix, then without preemptions
static std::vector<std::string> execute(const std::vector<OpFn> &ops, const std::vector<int> &pre)
{
    static bool started; if (!started) { started = true; for (int i = 0; i < 3; i++) { pthread_t t; pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 1 << 20); if (pthread_create(&t, &at, thread_main, (void *)intptr_t(i))) throw HarnessError("no thread"); } }
    std::vector<std::string> out(ops.size()); n_ops = int(ops.size()); n_points = 0; prefix = pre.data(); n_prefix = pre.size(); diverged = false;
    for (size_t i = 0; i < ops.size(); i++) { done[i] = false; bodies[i] = &ops[i]; results[i] = &out[i]; }
    __tsan_release(&begin_edge); pass(choose(-1)); wait_for(MAIN);
    for (size_t i = 0; i < ops.size(); i++) __tsan_acquire(&end_edge[i]);
    if (diverged) throw HarnessError("the schedule diverges");
    return out;
}
int main(int argc, char **argv)
{
    Check c{.prop = "C17"};
    c.rule = "all interleavings of two (three) operations up to a bound of preemptions, at every call of a reader or writer, of every pair of operations (protobuf and JSON, both directions, valid and malformed, on separate objects, and several serializations of one object); every execution under a happens-before race detector; model: the result of each operation alone. A state is (operations, schedule)";
    c.assumptions = {"data races of the executed paths are seen by ThreadSanitizer"};
    c.case_limit = 60; c.mem_limit_mb = 0;
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough;
        struct NamedOp { std::string name; OpFn fn; };
        auto cls = [](const std::function<std::string()> &f) -> std::string { try { return f(); } catch (const Endless &) { return "endless"; } catch (const std::exception &e) { return std::string("error ") + e.what(); } };
        auto shared = [&](const Ops *o, const MsgVal &m) { std::shared_ptr<Obj> p = o->build(m); return p; };
        auto ops_of = [&](const Ops *o, const MsgVal &m, std::shared_ptr<Obj> obj, bool all) {
            std::vector<NamedOp> v; auto n = std::string(o->desc().name) + "#" + std::to_string(hash64(canon(o->desc(), m, false)) % 1000);
            auto wire = ref_encode(o->desc(), m), text = js::emit(o->desc(), m); js::Style st; st.v[js::S_ESC] = 1; st.v[js::S_UNKNOWN] = 4; auto text2 = js::emit(o->desc(), m, st);
            v.push_back({n + " pb write", [=](auto &y) { return cls([&] { std::string s; o->pb_ser_writer(*obj, [&](const void *p, size_t k) { y(); s.append((const char *)p, k); }); return s; }); }});
            v.push_back({n + " json write", [=](auto &y) { return cls([&] { std::string s; o->js_ser_writer(*obj, [&](const void *p, size_t k) { y(); s.append((const char *)p, k); }); return s; }); }});
            auto rd = [=](std::string in, bool json, size_t chunk) -> OpFn { return [=](auto &y) { return cls([&] { auto x = o->make(); ChunkReader r{in, chunk}; Reader f = [&](void *p, size_t k) { y(); auto got = r(p, k); y(); return got; }; auto used = json ? o->js_de_reader(*x, f) : o->pb_de_reader(*x, f); return std::to_string(used) + canon(o->desc(), o->read(*x), false); }); }; };
            v.push_back({n + " pb read", rd(wire, false, 5)}); v.push_back({n + " json read", rd(text, true, 20)});
            if (all) {
                v.push_back({n + " json read escaped", rd(text2, true, 40)});
                if (!wire.empty()) v.push_back({n + " pb read cut", rd(wire.substr(0, wire.size() - 1), false, 64)}); v.push_back({n + " json read cut", rd(text.substr(0, text.size() - 1), true, 64)});
                v.push_back({n + " buffers", [=](auto &y) { y(); return cls([&] { auto s = o->pb_ser(*obj), t = o->js_ser(*obj); y(); auto x = o->make(); o->pb_de(*x, s.data(), s.size()); auto z = o->make(); o->js_de(*z, t.data(), t.size()); return s + t + canon(o->desc(), o->read(*x), false) + canon(o->desc(), o->read(*z), false) + std::to_string(o->pb_size(*obj) + o->js_size(*obj)); }); }});
            }
            return v;
        };
        auto run_pair = [&](const std::vector<const NamedOp *> &ops, int bound, size_t limit) {
            run.test([&] { std::string s; for (auto *o : ops) s += (s.empty() ? "" : " || ") + o->name; return s; }, [&] {
                std::vector<OpFn> fns; std::vector<std::string> want; auto none = [] {}; for (auto *o : ops) { fns.push_back(o->fn); std::function<void()> f = none; want.push_back(o->fn(f)); }
                std::string names; for (auto *o : ops) names += o->name; const auto nh = hash64(names); size_t total = 0;
                std::function<void(std::vector<int>, int)> dfs = [&](std::vector<int> prefix, int used) {
                    auto got = execute(fns, prefix); std::vector<Point> pts(points, points + n_points); ++total; run.transitions += pts.size(); ++run.validated;
                    uint64_t h = nh; for (auto &p : pts) h = h * 31 + uint64_t(p.enabled[size_t(p.chosen)] + 1); run.state(h);
                    for (size_t i = 0; i < got.size(); i++) { run.outcome(got[i]); if (got[i] != want[i]) { std::string sch; for (auto &p : pts) sch += std::to_string(p.enabled[size_t(p.chosen)]); run.fail("schedule " + sch + ": " + ops[i]->name + " gives " + quoted(got[i], 300) + " instead of " + quoted(want[i], 300)); } }
                    for (size_t i = prefix.size(); i < pts.size(); i++) {
                        const bool still = pts[i].enabled[0] == pts[i].running; if (used + still > bound) continue;
                        for (int alt = 1; alt < pts[i].n; alt++) { std::vector<int> p2; for (size_t k = 0; k < i; k++) p2.push_back(pts[k].chosen); p2.push_back(alt); if (total < limit) dfs(p2, used + still); else run.count("schedules_above_the_limit"); }
                    }
                };
                dfs({}, 0);
            });
        };
        std::vector<NamedOp> big, small;
        auto add = [](std::vector<NamedOp> &to, std::vector<NamedOp> v) { for (auto &x : v) to.push_back(x); };
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true); a.big = false; if (std::string_view(d.name).starts_with("Vt.Static")) continue;
            // one field of every kind of label
            std::set<std::pair<int, int>> kinds; MsgVal few; size_t n = 0;
            for (auto &f : d.fields) if (f.fixed_sz < 0 && f.fixed_n < 0 && kinds.insert({int(f.label), int(f.kind)}).second) { auto vs = field_values(f, 0, a, 1); if (vs.empty()) continue; auto m = few; assign(d, m, f, vs[0]); if (ref_encode(d, m).size() < 60) { few = m; ++n; } if (n >= 6) break; }
            norm(d, few); add(small, ops_of(o, few, shared(o, few), false));
            auto m = full_msg(d, 0, 0, a, 1); if (ref_encode(d, m).size() < 1500) { norm(d, m); add(big, ops_of(o, m, shared(o, m), true)); }
        }
        // one operation inside of a callback of another one, at every callback
        auto nested = [&](const NamedOp &out, const NamedOp &in) {
            run.test([&] { return in.name + " inside of " + out.name; }, [&] {
                size_t calls = 0; std::function<void()> count = [&] { ++calls; }, none = [] {}; auto want_out = out.fn(count), want_in = in.fn(none);
                for (size_t at = 1; at <= calls; at++) {
                    size_t k = 0; std::string got_in; std::function<void()> cb = [&] { if (++k == at) got_in = in.fn(none); }; auto got = out.fn(cb); ++run.transitions; ++run.validated; run.state(hash64(out.name + in.name, at));
                    if (got != want_out || got_in != want_in) run.fail("in callback " + std::to_string(at) + ": the outer operation gives " + quoted(got, 300) + ", the inner one " + quoted(got_in, 300) + " instead of " + quoted(want_out, 300) + " and " + quoted(want_in, 300));
                }
            });
        };
        for (auto &x : small) for (auto &y : small) nested(x, y);
        for (size_t i = 0; i < big.size(); i++) for (size_t j = 0; j < big.size(); j++) if (T || i / 8 == j / 8 || i % 8 == j % 8) nested(big[i], big[j]);
        // the same with a document at every place of the read buffer, so that each of its bytes is the last one of a block
        for (auto *o : R.all) {
            auto &d = o->desc(); auto al = alpha_for(d, true); al.big = false; if (std::string_view(d.name).starts_with("Vt.Static")) continue;
            for (auto &f : d.fields) {
                auto vs = field_values(f, 0, al, 1); if (vs.size() < 2) continue;
                MsgVal m1, m2; assign(d, m1, f, vs[vs.size() > 2 ? 1 : 0]); assign(d, m2, f, vs.back()); norm(d, m1); norm(d, m2); js::Style st; st.v[js::S_QUOTE] = 1; auto t1 = js::emit(d, m1, st), t2 = js::emit(d, m2, st); if (t1.size() > 200 || t2.size() > 200 || t1 == t2) continue;
                auto rd = [o](const std::string &in, const std::function<void()> &y) { try { auto x = o->make(); ChunkReader r{in, 0}; Reader g = [&](void *p, size_t k) { auto got = r(p, k); y(); return got; }; o->js_de_reader(*x, g); return canon(o->desc(), o->read(*x), false); } catch (const std::exception &e) { return std::string("error ") + e.what(); } };
                for (bool swap : {false, true}) {
                    auto &outer = swap ? t2 : t1, &inner = swap ? t1 : t2;
                    run.test([&] { return std::string(d.name) + " " + quoted(inner) + " inside of " + quoted(outer) + " at every place of the buffer"; }, [&] {
                        std::function<void()> none = [] {}; auto want_out = rd(outer, none), want_in = rd(inner, none);
                        for (size_t pad = 256 - std::min<size_t>(outer.size(), 255); pad < 256; pad++) {
                            std::string got_in = want_in; std::function<void()> cb = [&] { auto g = rd(inner, none); if (g != want_in) got_in = g; }; auto got = rd(std::string(pad, ' ') + outer + "  ", cb); ++run.transitions; ++run.validated; run.state(hash64(outer + inner, pad));
                            if (got != want_out || got_in != want_in) run.fail("behind " + std::to_string(pad) + " spaces: the outer operation gives " + quoted(got, 300) + ", the inner one " + quoted(got_in, 300) + " instead of " + quoted(want_out, 300) + " and " + quoted(want_in, 300));
                        }
                    });
                }
            }
        }
        run.count("operations", run.worker == 0 ? small.size() + big.size() : 0);
        // every operation with itself (the same object for the writing ones) and with all the others
        for (size_t i = 0; i < small.size(); i++) for (size_t j = i; j < small.size(); j++) run_pair({&small[i], &small[j]}, j - i < (T ? 8u : 4u) ? (T ? 3 : 2) : 1, T ? 400000 : 20000);
        for (size_t i = 0; i < big.size(); i++) for (size_t j = i; j < big.size(); j++) if (T || j - i < 8 || (i % 8) == (j % 8)) run_pair({&big[i], &big[j]}, j - i < 8 && T ? 1 : 0, T ? 400000 : 20000);
        for (size_t i = 0; i + 2 < small.size(); i += T ? 1 : 4) run_pair({&small[i], &small[i + 1], &small[i + 2]}, 1, T ? 400000 : 20000);
    };
    return run_check(argc, argv, c);
}
