// C03: every valid encoding is accepted with protobuf semantics.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_records.hpp"
using namespace vt;
static Registry R;
static void decode(Run &run, const Ops &o, const std::string &bytes)
{
    auto &d = o.desc(); MsgVal want; std::string why;
    auto v = ref_try(d, bytes, want, &why);
    if (v == Verdict::Unspecified) { run.count("skipped_unspecified"); return; }
    if (v == Verdict::Reject) { run.count("skipped_invalid"); return; }
    run.state(hash64(canon(d, want, false), hash64(d.name)));
    auto got = o.make(); size_t used = 0;
    try { used = o.pb_de(*got, bytes.data(), bytes.size()); }
    catch (const std::exception &e) { run.fail("valid encoding " + hex(bytes) + " of " + show(d, want) + " was rejected: " + e.what()); }
    auto g = o.read(*got);
    if (canon(d, g, false) != canon(d, want, false)) run.fail("encoding " + hex(bytes) + " means " + show(d, want) + " but was decoded as " + show(d, g));
    if (used != bytes.size()) run.fail("consumed " + std::to_string(used) + " of " + std::to_string(bytes.size()) + " bytes");
    got = o.make(); ChunkReader r{bytes};
    try { used = o.pb_de_reader(*got, std::ref(r)); }
    catch (const std::exception &e) { run.fail("valid encoding " + hex(bytes) + " of " + show(d, want) + " was rejected via a reader: " + e.what()); }
    g = o.read(*got);
    if (canon(d, g, false) != canon(d, want, false)) run.fail("encoding " + hex(bytes) + " means " + show(d, want) + " but was decoded via a reader as " + show(d, g));
    if (used != bytes.size()) run.fail("reader: consumed " + std::to_string(used) + " of " + std::to_string(bytes.size()) + " bytes");
    ++run.validated; run.outcome(canon(d, want, false));
}
int main(int argc, char **argv)
{
    Check c{.prop = "C03"};
    c.rule = "search over sequences of wire records: every legal record shape of every field (all boundary values, padded varints, packed/unpacked, partial and reordered map entries, nested records) and unknown fields of every wire type; all sequences up to the depth bound, compared with a reference decoder after every sequence";
    c.assumptions = {"record shapes outside of the alphabet behave as those inside"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        uint64_t trans = 0;
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, false);
            auto go = [&](const std::vector<const Record *> &seq) {
                ++trans;
                run.test([&] { std::string s = d.name; for (auto *r : seq) s += " [" + r->what + " " + short_hex(r->bytes) + "]"; return s; },
                         [&] { std::string b; for (auto *r : seq) b += r->bytes; decode(run, *o, b); });
            };
            go({});
            auto r2 = records(d, 2, a, 2), r1 = records(d, 1, a, 1), r0 = records(d, 0, a, 1);
            for (auto &r : r2) go({&r});
            // pairs: same field pairs with the whole alphabet are covered by r1; all fields mixed
            const auto *p2 = &r1; if (double(r1.size()) * double(r1.size()) > (run.thorough ? 4e6 : 2.5e5)) p2 = run.thorough ? &r1 : &r0;
            for (auto &x : *p2) for (auto &y : *p2) go({&x, &y});
            if (p2 == &r0) for (size_t i = 0; i < r1.size(); i++) for (size_t j = 0; j < r0.size(); j++) { go({&r1[i], &r0[j]}); go({&r0[j], &r1[i]}); }
            if (p2 == &r0) // pairs within one field
                for (auto &x : r1) for (auto &y : r1) if (x.what.substr(0, x.what.find(':')) == y.what.substr(0, y.what.find(':'))) go({&x, &y});
            double n = double(r0.size());
            if (n * n * n <= (run.thorough ? 2e7 : 1.2e6)) for (auto &x : r0) for (auto &y : r0) for (auto &z : r0) go({&x, &y, &z});
            else if (run.worker == 0) run.count("triple_spaces_above_the_cap");
        }
        // nested messages up to 100 levels, in every recursive position
        auto &n = R.get("Vt.Comp.Node");
        for (int field : {2, 3}) for (int depth = 1; depth <= 100; depth++) for (bool tail : {false, true}) {
            std::string b = tag(1, VARINT) + varint(7);
            for (int i = 0; i < depth; i++) b = tag(uint32_t(field), LEN) + len(b) + (tail ? tag(4, LEN) + len("t") : "");
            ++trans;
            run.test([&] { return "Vt.Comp.Node nested " + std::to_string(depth) + " levels via field " + std::to_string(field); }, [&] { decode(run, n, b); });
        }
        if (run.worker == 0) run.transitions += trans;
    };
    return run_check(argc, argv, c);
}
