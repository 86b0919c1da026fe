// C02: the encoded bytes are what the protobuf wire format prescribes.
#include "vt_values.hpp"
#include "vt_iface.hpp"
using namespace vt;
static Registry R;
int main(int argc, char **argv)
{
    Check c{.prop = "C02"};
    c.rule = "explicit-state search over message values (see C01); an independent strict wire decoder reads the bytes of every state";
    c.assumptions = {"values outside of the alphabet behave as the boundary values next to them"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, false);
            explore(run, d, a, bounds(run.thorough), [&](const MsgVal &m, uint64_t h) {
                run.test([&] { return std::string(d.name) + " " + show(d, m); }, [&] {
                    run.state(h);
                    auto want = normed(d, m);
                    auto obj = o->build(m);
                    auto bytes = o->pb_ser(*obj);
                    run.outcome(bytes);
                    MsgVal g; std::string why;
                    if (ref_try(d, bytes, g, &why, {.canonical = true, .max_depth_ok = 10000}) != Verdict::Ok) run.fail("the encoding " + hex(bytes) + " is not canonical: " + why);
                    if (canon(d, g, false) != canon(d, want, false)) run.fail("the encoding " + hex(bytes) + " means " + show(d, g));
                    auto sz = o->pb_size(*obj);
                    if (sz != bytes.size()) run.fail("serialize_size is " + std::to_string(sz) + " but " + std::to_string(bytes.size()) + " bytes were written");
                    ++run.validated;
                });
            });
        }
    };
    return run_check(argc, argv, c);
}
