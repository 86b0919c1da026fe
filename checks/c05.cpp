// C05: JSON round trip, presence included.
#include "vt_values.hpp"
#include "vt_iface.hpp"
using namespace vt;
static Registry R;
int main(int argc, char **argv)
{
    Check c{.prop = "C05"};
    c.rule = "explicit-state search over message values (see C01, enum values limited to the defined ones)";
    c.assumptions = {"values outside of the alphabet behave as the boundary values next to them"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true); auto b = bounds(run.thorough); if (!run.thorough) b.cap = 1.5e5;
            explore(run, d, a, b, [&](const MsgVal &m, uint64_t h) {
                run.test([&] { return std::string(d.name) + " " + show(d, m); }, [&] {
                    run.state(h);
                    auto want = normed(d, m);
                    auto obj = o->build(m);
                    auto text = o->js_ser(*obj);
                    run.outcome(text);
                    auto got = o->make(); size_t used = 0;
                    try { used = o->js_de(*got, text.data(), text.size()); }
                    catch (const std::exception &e) { run.fail("own JSON " + quoted(text) + " was rejected: " + e.what()); }
                    auto g = o->read(*got);
                    if (canon(d, g, false) != canon(d, want, false)) run.fail("decoded " + show(d, g) + " from " + quoted(text));
                    if (used != text.size()) run.fail("consumed " + std::to_string(used) + " of " + std::to_string(text.size()) + " bytes of " + quoted(text));
                    ++run.validated;
                });
            });
        }
    };
    return run_check(argc, argv, c);
}
