// C06: the JSON output is valid and is what Google's JSON mapping prescribes.
#include "vt_iface.hpp"
#include "vt_json.hpp"
#include "vt_values.hpp"
using namespace vt;
static Registry R;
// member names, no duplicates, only names which the mapping knows
static void shape(const MsgDesc &d, const js::JV &j)
{
    if (j.t != js::JV::Obj) Run::fail("not an object");
    std::vector<std::string> seen;
    for (auto &[k, v] : j.o) {
        const FieldDesc *f = nullptr; for (auto &g : d.fields) if (k.s == g.json || k.s == g.name) f = &g; else for (auto *a : g.accept) if (k.s == a) f = &g;
        if (!f) Run::fail("unknown member " + quoted(k.s));
        if (std::find(seen.begin(), seen.end(), k.s) != seen.end()) Run::fail("member " + quoted(k.s) + " occurs twice");
        seen.push_back(k.s);
        if (f->label == L::Map) { if (v.t != js::JV::Obj) Run::fail("map is not an object"); if (f->msg->fields[1].kind == K::Message) for (auto &[mk, mv] : v.o) shape(*f->msg->fields[1].msg, mv); }
        else if (f->label == L::Rep) { if (v.t != js::JV::Arr) Run::fail("repeated field is not an array"); if (f->kind == K::Message) for (auto &x : v.a) shape(*f->msg, x); }
        else if (f->kind == K::Message) shape(*f->msg, v);
        else if (f->kind == K::Enum && v.t != js::JV::Str) Run::fail("a defined enum value is not written as its name");
    }
}
int main(int argc, char **argv)
{
    Check c{.prop = "C06"};
    c.rule = "explicit-state search over message values (see C05); a strict RFC 8259 parser and a reader for Google's JSON mapping read the text of every state";
    c.assumptions = {"values outside of the alphabet behave as the boundary values next to them"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true); auto b = bounds(run.thorough); if (!run.thorough) b.cap = 1.5e5;
            explore(run, d, a, b, [&](const MsgVal &m, uint64_t h) {
                run.test([&] { return std::string(d.name) + " " + show(d, m); }, [&] {
                    run.state(h);
                    auto want = normed(d, m);
                    auto obj = o->build(m);
                    auto text = o->js_ser(*obj);
                    run.outcome(text);
                    if (!utf8_ok(text)) run.fail("the output is not UTF-8: " + quoted(text));
                    MsgVal g; std::string why;
                    auto v = js::ref_json(d, text, g, &why);
                    if (v != Verdict::Ok) run.fail("the output " + quoted(text) + " is not valid: " + why);
                    js::Parser p{text}; shape(d, p.document());
                    if (canon(d, g, false) != canon(d, want, false)) run.fail("the output " + quoted(text) + " means " + show(d, g));
                    auto sz = o->js_size(*obj);
                    if (sz != text.size()) run.fail("serialize_size is " + std::to_string(sz) + " but " + std::to_string(text.size()) + " bytes were written");
                    ++run.validated;
                });
            });
        }
    };
    return run_check(argc, argv, c);
}
