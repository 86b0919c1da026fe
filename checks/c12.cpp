// C12: strings are UTF-8: exactly the well-formed ones pass in either direction of either format.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_values.hpp"
using namespace vt;
static Registry R;
struct Carrier { const Ops *o; const FieldDesc *f; int role; }; // role 0: plain, 1: map key, 2: map value
static MsgVal wrap(const Carrier &c, const std::string &s)
{
    MsgVal m;
    if (c.role == 0) { m.f[c.f->num] = {Val(s)}; return m; }
    MsgVal e; e.f[1] = {c.role == 1 ? Val(s) : c.f->msg->fields[0].kind == K::String ? Val("k") : Val(1)};
    e.f[2] = {c.role == 2 ? Val(s) : c.f->msg->fields[1].kind == K::Message ? Val(MsgVal{}) : c.f->msg->fields[1].kind == K::String || c.f->msg->fields[1].kind == K::Bytes ? Val("") : Val(0)};
    m.f[c.f->num] = {Val(e)}; return m;
}
int main(int argc, char **argv)
{
    Check c{.prop = "C12"};
    c.rule = "every byte string up to a length over all bytes, longer ones over one byte of every class of the UTF-8 grammar, every code point, at every alignment and every place of the reader's buffer, in every kind of field; every \\u escape; the model is table 3-7 of the Unicode standard";
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough;
        std::vector<Carrier> carriers;
        for (auto *o : R.all) for (auto &f : o->desc().fields) {
            if (f.label == L::Map) { if (f.msg->fields[0].kind == K::String) carriers.push_back({o, &f, 1}); if (f.msg->fields[1].kind == K::String) carriers.push_back({o, &f, 2}); }
            else if (f.kind == K::String) carriers.push_back({o, &f, 0});
        }
        auto one = [&](const Carrier &c, const std::string &s, bool readers) {
            auto &o = *c.o; auto &d = o.desc();
            if (c.f->label != L::Map && ((c.f->max_size && s.size() > c.f->max_size) || (c.f->fixed_sz >= 0 && s.size() != size_t(c.f->fixed_sz)))) return;
            if (c.f->label != L::Map && c.f->label == L::Req && s.empty()) return;
            const bool ok = utf8_ok(s); auto m = wrap(c, s); auto where = std::string(d.name) + "." + c.f->name + " " + hex(s) + (ok ? " (valid)" : " (invalid)");
            ++run.transitions; ++run.validated;
            auto attempt = [&](auto &&f) { try { f(); return true; } catch (const std::exception &) { return false; } };
            auto obj = o.build(m); std::string out;
            if (attempt([&] { out = o.pb_ser(*obj); }) != ok) run.fail(std::string("protobuf serialization ") + (ok ? "rejects " : "accepts ") + where);
            if (ok) { auto x = o.make(); o.pb_de(*x, out.data(), out.size()); if (canon(d, o.read(*x), false) != canon(d, normed(d, m), false)) run.fail("protobuf round-trip changes " + where); }
            if (attempt([&] { std::string w; o.pb_ser_writer(*obj, [&](const void *p, size_t n) { w.append((const char *)p, n); }); }) != ok) run.fail(std::string("protobuf serialization to a writer ") + (ok ? "rejects " : "accepts ") + where);
            auto wire = ref_encode(d, m);
            { auto x = o.make(); if (attempt([&] { o.pb_de(*x, wire.data(), wire.size()); }) != ok) run.fail(std::string("protobuf deserialization ") + (ok ? "rejects " : "accepts ") + where); }
            if (readers) for (size_t k : {0, 1}) { auto x = o.make(); ChunkReader r{wire, k}; if (attempt([&] { o.pb_de_reader(*x, std::ref(r)); }) != ok) run.fail(std::string("protobuf deserialization via a reader ") + (ok ? "rejects " : "accepts ") + where); }
            std::string js; if (attempt([&] { js = o.js_ser(*obj); }) != ok) run.fail(std::string("JSON serialization ") + (ok ? "rejects " : "accepts ") + where);
            if (ok) { auto x = o.make(); o.js_de(*x, js.data(), js.size()); if (canon(d, o.read(*x), false) != canon(d, normed(d, m), false)) run.fail("JSON round-trip changes " + where); }
            for (unsigned char ch : s) if (ch < 32) return; // raw control characters in JSON are not judged
            auto text = js::emit(d, m);
            { auto x = o.make(); if (attempt([&] { o.js_de(*x, text.data(), text.size()); }) != ok) run.fail(std::string("JSON deserialization ") + (ok ? "rejects " : "accepts ") + where); if (ok && canon(d, o.read(*x), false) != canon(d, normed(d, m), false)) run.fail("JSON deserialization changes " + where); }
            if (readers) for (size_t k : {0, 1}) { auto x = o.make(); ChunkReader r{text, k}; if (attempt([&] { o.js_de_reader(*x, std::ref(r)); }) != ok) run.fail(std::string("JSON deserialization via a reader ") + (ok ? "rejects " : "accepts ") + where); }
        };
        std::vector<std::pair<Carrier, std::string>> batch; bool batch_readers = true;
        auto flush = [&] {
            if (batch.empty()) return;
            auto b = std::move(batch); batch.clear(); auto rd = batch_readers;
            run.test([&] { return "strings " + hex(b.front().second) + " .. " + hex(b.back().second); }, [&] { for (auto &[k, s] : b) { run.state(hash64(s, hash64(k.o->desc().name) + uint64_t(k.f->num) + uint64_t(k.role) * 77)); run.outcome(utf8_ok(s) ? "valid" : "invalid"); one(k, s, rd); } run.evaluations += b.size() - 1; });
        };
        auto put = [&](const Carrier &k, const std::string &s, bool readers) { if (readers != batch_readers) flush(); batch_readers = readers; batch.push_back({k, s}); if (batch.size() >= 256) flush(); };
        const Carrier main_c{&R.get("Vt.Scalar.Opt"), R.get("Vt.Scalar.Opt").desc().by_num(0), 0};
        Carrier mc = main_c; for (auto &f : mc.o->desc().fields) if (f.kind == K::String) mc.f = &f;
        const std::vector<unsigned char> cls{0x00, 0x1f, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf8, 0xff};
        std::function<void(std::string, size_t, const std::function<void(const std::string &)> &, bool)> words = [&](std::string s, size_t n, auto &&f, bool all) { f(s); if (s.size() == n) return; if (all) for (int x = 0; x < 256; x++) words(s + char(x), n, f, all); else for (auto x : cls) words(s + char(x), n, f, all); };
        // every field, short strings
        for (auto &k : carriers) {
            const bool big = std::string_view(k.o->desc().name).starts_with("Vt.Static");
            if (k.f->label != L::Map && k.f->fixed_sz > 0) { words("", size_t(k.f->fixed_sz), [&](const std::string &s) { if (s.size() == size_t(k.f->fixed_sz)) put(k, s, false); }, false); continue; }
            words("", big ? 2 : 3, [&](const std::string &s) { put(k, s, s.size() < 3); }, false);
            for (auto &s : {utf8(0x1f600), utf8(0x10ffff), std::string("\xf4\x90\x80\x80"), std::string("\xf0\x9f\x98"), std::string("\xf0\x80\x80\x80")}) put(k, s, true);
        }
        // every short string; every word over the classes
        words("", T ? 3 : 2, [&](const std::string &s) { put(mc, s, s.size() < 3); }, true);
        words("", T ? 5 : 4, [&](const std::string &s) { if (s.size() > 3) put(mc, s, false); }, false);
        if (!T) for (int x : {0xe0, 0xe1, 0xed, 0xef}) for (int y = 0; y < 256; y++) for (int z : {0x7f, 0x80, 0xbf, 0xc0}) put(mc, {char(x), char(y), char(z)}, false);
        if (!T) for (int x : {0xe0, 0xed}) for (int y : {0x80, 0x9f, 0xa0, 0xbf}) for (int z = 0; z < 256; z++) put(mc, {char(x), char(y), char(z)}, false);
        for (int x = 0xf0; x < 0x100; x++) for (int y = 0; y < 256; y++) for (int z : {0x7f, 0x80, 0xbf, 0xc0}) for (int w : {0x7f, 0x80, 0xbf, 0xc0}) put(mc, {char(x), char(y), char(z), char(w)}, false);
        // every code point (and the surrogates, encoded as if they were characters)
        for (uint32_t cp = 0; cp < 0x110800; cp += T || cp < 0x3000 || (cp > 0xd700 && cp < 0xe100) || cp > 0xff00 ? (T || cp < 0x11000 || cp > 0x10ff00 ? 1 : 61) : 7) put(mc, utf8(cp), false);
        // alignments: a sequence at every offset of a string of every length up to 24
        std::vector<std::string> seqs; for (auto *s : {"\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\x80", "\xc3", "\xe2\x82", "\xf0\x9f\x98", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xff", "\xc3\xa9\xc3\xa9", "\xe2\x82\xac\xe2\x82\xac", "\xf0\x9f\x98\x80\xf0\x9f\x98\x80", "\xe0\x80\x80", "\xf0\x80\x80\x80"}) seqs.push_back(s);
        for (auto &s : seqs) for (size_t n = 0; n <= (T ? 40u : 26u); n++) for (size_t at = 0; at <= n; at++) { std::string x(n, 'x'); x.insert(at, s); put(mc, x, false); for (auto &u : seqs) if (T || n < 12) for (size_t b : {at + s.size(), x.size()}) { auto y = x; y.insert(b, u); put(mc, y, false); } }
        // every place of the reader's buffer
        for (auto &s : seqs) for (size_t n = 225; n < 275; n++) for (size_t tail : {0, 1, 5, 300}) put(mc, std::string(n, 'x') + s + std::string(tail, 'y'), true);
        for (auto &k : carriers) if (k.role == 1 && !std::string_view(k.o->desc().name).starts_with("Vt.Static")) for (auto &s : seqs) for (size_t n = 225; n < 275; n += T ? 1 : 5) put(k, std::string(n, 'x') + s, true);
        flush();
        // escapes
        auto esc = [&](const std::string &body) {
            MsgVal want; std::string text = std::string("{\"") + mc.f->json + "\":\"" + body + "\"}"; auto &d = mc.o->desc(); std::string why;
            auto v = js::ref_json(d, text, want, &why); if (v == Verdict::Unspecified) return;
            ++run.transitions; ++run.validated; auto x = mc.o->make(); bool ok = true; try { mc.o->js_de(*x, text.data(), text.size()); } catch (const std::exception &) { ok = false; }
            run.state(hash64(text));
            if (ok != (v == Verdict::Ok)) run.fail(std::string("JSON deserialization ") + (ok ? "accepts " : "rejects ") + quoted(text) + " " + why);
            if (ok && canon(d, mc.o->read(*x), false) != canon(d, want, false)) run.fail("JSON deserialization reads " + quoted(text) + " as " + show(d, mc.o->read(*x)));
        };
        char b[64];
        for (uint32_t hi = 0; hi < 0x10000; hi += 64) run.test([&] { return "escapes from " + std::to_string(hi); }, [&] {
            for (uint32_t x = hi; x < hi + 64; x++) { snprintf(b, 64, "\\u%04x", x); esc(b); snprintf(b, 64, "a\\u%04Xz", x); esc(b); run.evaluations += 2; }
            if (hi >= 0xd800 && hi < 0xdc00) for (uint32_t x = hi; x < hi + 64; x++) for (uint32_t lo = 0xdbff; lo <= 0xe000; lo += T || lo < 0xdc02 || lo > 0xdffd ? 1 : 37) { snprintf(b, 64, "\\u%04x\\u%04x", x, lo); esc(b); ++run.evaluations; if (T && lo % 16 == 0) { snprintf(b, 64, "\\u%04x\\u%04xx", x, lo); esc(b); } }
            if (hi == 0) for (uint32_t x : {0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0x41u, 0xe9u}) for (uint32_t y : {0xd800u, 0xdbffu, 0xdc00u, 0xdfffu, 0x41u}) for (auto *mid : {"", "x", "\\n", "\\"}) for (auto *tail : {"", "x", "\\udc00", "\\ud800"}) { snprintf(b, 64, "\\u%04x%s\\u%04x%s", x, mid, y, tail); esc(b); }
        });
    };
    return run_check(argc, argv, c);
}
