// C01: decoding an encoded message yields the same message, presence included.
#include "vt_values.hpp"
#include "vt_iface.hpp"
using namespace vt;
static Registry R;
int main(int argc, char **argv)
{
    Check c{.prop = "C01"};
    c.rule = "explicit-state search over message values: start states empty / every field set (6 value choices) / all but one field; transitions assign one field (all boundary values at depth 1, reduced alphabet at depth 2, minimal one at depth 3)";
    c.assumptions = {"values outside of the alphabet behave as the boundary values next to them"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, false);
            explore(run, d, a, bounds(run.thorough), [&](const MsgVal &m, uint64_t h) {
                run.test([&] { return std::string(d.name) + " " + show(d, m); }, [&] {
                    run.state(h);
                    auto want = normed(d, m);
                    auto obj = o->build(m);
                    auto built = canon(d, o->read(*obj), false);
                    if (built != canon(d, want, false)) throw HarnessError("binding does not represent " + show(d, want) + " got " + show(d, o->read(*obj)));
                    auto bytes = o->pb_ser(*obj);
                    run.outcome(bytes);
                    auto got = o->make();
                    try { o->pb_de(*got, bytes.data(), bytes.size()); }
                    catch (const std::exception &e) { run.fail("own encoding " + hex(bytes) + " was rejected: " + e.what()); }
                    auto g = o->read(*got);
                    if (canon(d, g, false) != canon(d, want, false)) run.fail("decoded " + show(d, g) + " from " + hex(bytes));
                    ++run.validated;
                });
            });
        }
    };
    return run_check(argc, argv, c);
}
