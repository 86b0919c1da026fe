// C13: bytes fields are base64 in JSON: every byte string survives, its text is RFC 4648, and no other text is accepted.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_values.hpp"
using namespace vt;
static Registry R;
int main(int argc, char **argv)
{
    Check c{.prop = "C13"};
    c.rule = "every byte string up to a length, every length up to several buffers; every text up to a length over one character of every class, every character at every place of a group; decoded from buffers and readers with small chunks; in every kind of bytes field; the model is RFC 4648 section 4";
    c.assumptions = {"texts without padding, of the URL alphabet, with escapes or non-zero pad bits are not judged"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough;
        struct Carrier { const Ops *o; const FieldDesc *f; std::string head, tail; };
        std::vector<Carrier> cs;
        for (auto *o : R.all) for (auto &f : o->desc().fields) {
            std::string h = std::string("{\"") + f.json + "\":";
            if (f.label == L::Map) { if (f.msg->fields[1].kind == K::Bytes) cs.push_back({o, &f, h + (f.msg->fields[0].kind == K::Bool ? "{\"true\":\"" : "{\"1\":\""), "\"}}"}); }
            else if (f.kind == K::Bytes) cs.push_back({o, &f, h + (f.label == L::Rep ? "[\"" : "\""), f.label == L::Rep ? "\"]}" : "\"}"});
        }
        auto fits = [](const FieldDesc &f, size_t n) { return f.label == L::Map || !((f.max_size && n > f.max_size) || (f.fixed_sz >= 0 && n != size_t(f.fixed_sz))); };
        auto value = [](const Carrier &k, const std::string &s) {
            MsgVal m; if (k.f->label == L::Map) { MsgVal e; e.f[1] = {k.f->msg->fields[0].kind == K::String ? Val("1") : Val(1)}; e.f[2] = {Val(s)}; m.f[k.f->num] = {Val(e)}; } else m.f[k.f->num] = {Val(s)}; return m;
        };
        auto enc = [&](const Carrier &k, const std::string &s) {
            if (!fits(*k.f, s.size()) || (k.f->label == L::Req && s.empty())) return;
            auto &d = k.o->desc(); auto m = value(k, s); auto obj = k.o->build(m);
            ++run.transitions; ++run.validated; run.state(hash64(s, hash64(d.name) + uint64_t(k.f->num)));
            auto want = "\"" + js::b64_encode(s) + "\""; auto text = k.o->js_ser(*obj);
            if (text.find(want) == text.npos) run.fail(std::string(d.name) + "." + k.f->name + " " + hex(s) + " is written as " + quoted(text) + " instead of " + want);
            auto x = k.o->make(); k.o->js_de(*x, text.data(), text.size());
            if (canon(d, k.o->read(*x), false) != canon(d, normed(d, m), false)) run.fail(quoted(text) + " is read as " + show(d, k.o->read(*x)));
            x = k.o->make(); ChunkReader r{text, s.size() % 3}; k.o->js_de_reader(*x, std::ref(r));
            if (canon(d, k.o->read(*x), false) != canon(d, normed(d, m), false)) run.fail(quoted(text) + " is read via a reader as " + show(d, k.o->read(*x)));
        };
        auto dec = [&](const Carrier &k, const std::string &t) {
            auto &d = k.o->desc(); auto doc = k.head + t + k.tail; MsgVal want; std::string why;
            auto v = js::ref_json(d, doc, want, &why); if (v == Verdict::Unspecified) { run.count("unspecified"); return; }
            ++run.transitions; ++run.validated; run.state(hash64(t, hash64(d.name) + uint64_t(k.f->num) + 1)); run.outcome(why);
            for (int how = 0; how < 3; how++) {
                auto x = k.o->make(); bool ok = true; ChunkReader r{doc, size_t(how - 1)};
                try { if (how) k.o->js_de_reader(*x, std::ref(r)); else k.o->js_de(*x, doc.data(), doc.size()); } catch (const std::exception &) { ok = false; }
                if (ok != (v == Verdict::Ok)) run.fail(quoted(doc) + (ok ? " is accepted as " + show(d, k.o->read(*x)) : " is rejected") + (how ? " via a reader" : "") + " " + why);
                if (ok && canon(d, k.o->read(*x), false) != canon(d, want, false)) run.fail(quoted(doc) + " is read as " + show(d, k.o->read(*x)));
            }
        };
        std::vector<std::function<void()>> batch; std::string first, last;
        auto flush = [&] { if (batch.empty()) return; auto b = std::move(batch); batch.clear(); run.test([&] { return "bytes " + quoted(first) + " .. " + quoted(last); }, [&] { for (auto &f : b) f(); run.evaluations += b.size() - 1; }); };
        auto add = [&](const std::string &s, std::function<void()> f) { if (batch.empty()) first = s; last = s; batch.push_back(std::move(f)); if (batch.size() >= 128) flush(); };
        auto E = [&](const Carrier &k, const std::string &s) { add(s, [&, k, s] { enc(k, s); }); };
        auto D = [&](const Carrier &k, const std::string &s) { add(s, [&, k, s] { dec(k, s); }); };
        const Carrier *mc = nullptr; for (auto &k : cs) if (std::string_view(k.o->desc().name) == "Vt.Scalar.Opt") mc = &k;
        const std::string cl = "AQ/+z9=-_ *\x7f\xff";
        for (auto &k : cs) {
            const bool big = std::string_view(k.o->desc().name).starts_with("Vt.Static");
            E(k, ""); for (int x = 0; x < 256; x++) E(k, {char(x)}); for (int x = 0; x < 256; x++) { E(k, {char(x), char(~x)}); E(k, {char(x), char(x * 7), char(255 - x)}); }
            for (size_t n = 0; n < (big ? 300u : 600u); n += big ? 7 : 1) E(k, bin_pattern(n, 91, 3));
            std::function<void(std::string)> rec = [&](std::string s) { D(k, s); if (s.size() == (big ? 4u : 5u)) return; for (char x : big ? std::string("AQ=*") : std::string("AQ/=-*")) rec(s + x); }; rec("");
            for (size_t g : {0, 4}) for (size_t p = 0; p < 4; p++) for (int x = 32; x < 256; x++) if (x != '"' && x != '\\') { auto t = std::string(g, 'A') + "QUJD"; t[g + p] = char(x); D(k, t); if (p < 2) { t = std::string(g, 'A') + "QQ=="; t[g + p] = char(x); D(k, t); } if (p < 3) { t = std::string(g, 'A') + "QUI="; t[g + p] = char(x); D(k, t); } D(k, t + "QUJD"); }
            if (k.f->fixed_sz >= 0 || k.f->max_size) for (size_t n = 0; n < 14; n++) D(k, js::b64_encode(bin_pattern(n)));
        }
        for (int x = 0; x < 256; x++) for (int y = 0; y < 256; y++) { E(*mc, {char(x), char(y)}); E(*mc, {char(y), char(x), char(x ^ y)}); if (T) for (int z = 0; z < 256; z++) E(*mc, {char(x), char(y), char(z)}); }
        for (size_t n = 0; n < (T ? 3000u : 1200u); n++) { E(*mc, bin_pattern(n)); E(*mc, std::string(n, '\xff')); E(*mc, std::string(n, '\0')); }
        std::function<void(std::string)> rec = [&](std::string s) { D(*mc, s); if (s.size() == (T ? 6u : 5u)) return; for (char x : cl) rec(s + x); }; rec("");
        std::function<void(std::string)> rec8 = [&](std::string s) { if (s.size() > 5) D(*mc, s); if (s.size() == 8) return; for (char x : T ? std::string("AQ/=") : std::string("AQ=")) rec8(s + x); }; rec8("");
        // padding and odd characters at every place of the buffer of a reader
        for (size_t n = 150; n < 230; n++) for (auto *tail : {"", "=", "==", "===", "A", "AA", "AAA", "A=", "AA=", "AA==", "AAA=", "A===", "*AAA", "A*AA", "AA*A", "AAA*", "==AA", "AA==AAAA", "AAA=AAAA"}) D(*mc, js::b64_encode(bin_pattern(n * 3 / 3 / 3 * 3)) + tail);
        flush();
    };
    return run_check(argc, argv, c);
}
