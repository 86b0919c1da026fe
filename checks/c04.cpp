// C04: malformed encodings are rejected with an exception.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_records.hpp"
using namespace vt;
static Registry R;
static void decode(Run &run, const Ops &o, const std::string &bytes)
{
    auto &d = o.desc(); MsgVal want; std::string why;
    auto v = ref_try(d, bytes, want, &why);
    if (v == Verdict::Unspecified) { run.count("unspecified"); return; }
    ++run.validated; run.outcome(std::string(d.name) + why); run.state(hash64(bytes, hash64(d.name)));
    if (v == Verdict::Ok) {
        run.count("still_valid");
        return; // C03
    }
    run.count("malformed");
    bool threw = false; auto got = o.make();
    try { o.pb_de(*got, bytes.data(), bytes.size()); } catch (const std::exception &) { threw = true; }
    if (!threw) run.fail("malformed encoding " + hex(bytes) + " (" + why + ") was accepted as " + show(d, o.read(*got)));
    threw = false; got = o.make(); ChunkReader r{bytes};
    try { o.pb_de_reader(*got, std::ref(r)); } catch (const Endless &) { run.fail("malformed encoding " + hex(bytes) + ": reader is called forever"); } catch (const std::exception &) { threw = true; }
    if (!threw) run.fail("malformed encoding " + hex(bytes) + " (" + why + ") was accepted via a reader as " + show(d, o.read(*got)));
}
int main(int argc, char **argv)
{
    Check c{.prop = "C04"};
    c.rule = "every byte string up to the length bound; every truncation, byte replacement, insertion, deletion of valid encodings (every record alone, whole messages); malformed records of every kind at every position of a message; a strict reference decoder decides what is malformed";
    c.assumptions = {"encodings on which the protobuf specification leaves freedom (bool varints above 1, out of range 32-bit varints, groups, more than 64 bits) are not judged"};
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        uint64_t trans = 0;
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, false); a.big = false;
            auto go = [&](const char *what, const std::string &b) {
                ++trans;
                run.test([&] { return std::string(d.name) + " " + what + " " + hex(b, 200); }, [&] { decode(run, *o, b); });
            };
            // every short byte string
            for (int x = 0; x < 256; x++) { go("bytes", std::string(1, char(x))); for (int y = 0; y < 256; y++) go("bytes", {char(x), char(y)}); }
            std::string alpha; for (int x : {0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff, 0xc3, 0xf0}) alpha += char(x);
            for (auto &f : d.fields) for (int wt = 0; wt < 8; wt++) {
                auto t = varint(uint64_t(f.num) << 3 | unsigned(wt));
                go("tag", t);
                for (int x = 0; x < 256; x++) { go("tag+1", t + char(x)); if (run.thorough) for (int y = 0; y < 256; y++) go("tag+2", t + char(x) + char(y)); }
                std::function<void(std::string, int)> rec = [&](std::string s, int left) { for (char x : alpha) { go("tag+n", t + s + x); if (left > 1) rec(s + x, left - 1); } };
                rec("", run.thorough ? 5 : 3);
            }
            // malformed pieces at every position
            std::vector<std::pair<std::string, std::string>> bad;
            auto add = [&](const char *w, std::string b) { bad.push_back({w, b}); };
            int u = 1; while (d.by_num(u)) ++u; auto U = uint32_t(u);
            add("field number 0, varint", std::string("\x00\x01", 2)); add("field number 0, len", std::string("\x02\x00", 2)); add("field number 0, i32", std::string("\x05\0\0\0\0", 5)); add("field number 0, i64", std::string("\x01\0\0\0\0\0\0\0\0", 9));
            for (int wt : {6, 7}) { add("wire type 6/7, unknown field", varint(uint64_t(U) << 3 | unsigned(wt)) + "\x01"); for (auto &f : d.fields) add("wire type 6/7", varint(uint64_t(f.num) << 3 | unsigned(wt)) + "\x01"); }
            for (auto &f : d.fields) {
                auto T = [&](int wt) { return varint(uint64_t(f.num) << 3 | unsigned(wt)); };
                for (int wt : {VARINT, I64, LEN, I32}) {
                    std::string p = wt == VARINT ? std::string(1, '\x01') : wt == I64 ? le(1, 8) : wt == I32 ? le(1, 4) : len("ab");
                    add("another wire type", T(wt) + p);
                }
                if (wire_type(f.kind) == VARINT) {
                    for (int n = 9; n < 20; n++) add("long varint", T(VARINT) + std::string(size_t(n), '\x80') + '\x01');
                    for (int n = 1; n < 11; n++) add("endless varint", T(VARINT) + std::string(size_t(n), '\xff'));
                    if (f.is_int() && f.kind != K::Bool) for (uint64_t x : std::initializer_list<uint64_t>{uint64_t(f.min) - 1, f.max + 1, uint64_t(f.min) - 128, f.max + 128, (f.max + 1) * 2, uint64_t(INT32_MIN), uint64_t(INT64_MIN), uint64_t(INT64_MAX), 0x7fffffffull, 0xffull, 0xffffull})
                        for (auto b : {varint(x), varint(zigzag(int64_t(x)))}) { add("out of range", T(VARINT) + b); if (f.label == L::Rep) { add("out of range, packed", T(LEN) + len(b)); add("out of range, packed second", T(LEN) + len("\x01" + b)); } }
                }
                if (wire_type(f.kind) == I32 && f.bits + (f.max < 0x7fffffff)) for (uint64_t x : std::initializer_list<uint64_t>{uint64_t(f.min) - 1, f.max + 1, f.max + 128, (f.max + 1) * 2, 0x80000000ull, 0x7fffffffull, 0x100ull, 0x10000ull}) { add("out of range", T(I32) + le(x, 4)); if (f.label == L::Rep) add("out of range, packed", T(LEN) + len(le(1, 4) + le(x, 4))); }
                if (wire_type(f.kind) == I64 && f.max < INT64_MAX) for (uint64_t x : std::initializer_list<uint64_t>{uint64_t(f.min) - 1, f.max + 1, f.max + 128, (f.max + 1) * 2, 0x8000000000000000ull, 0x100000000ull, 0x1000000000000ull, 0x80000000ull}) add("out of range", T(I64) + le(x, 8));
                if (f.label == L::Rep && wire_type(f.kind) != LEN) {
                    if (wire_type(f.kind) != VARINT) for (size_t k = 1; k < 18; k++) add("packed length is no multiple", T(LEN) + len(std::string(k, '\x01')));
                    else for (auto &b : {std::string("\x80"), std::string("\x01\x80"), std::string("\xff\xff"), std::string(11, '\x80') + "\x01"}) { add("packed varint cut", T(LEN) + len(b)); add("packed varint continues after the field", T(LEN) + len(b) + "\x01"); }
                    for (uint64_t n : {1ull, 5ull, 127ull, 128ull, 0x7fffull}) add("packed length beyond the end", T(LEN) + varint(n));
                }
                if (wire_type(f.kind) == LEN || f.label == L::Rep) {
                    for (uint64_t n : {1ull, 2ull, 127ull, 128ull, 1000ull}) { add("length beyond the end", T(LEN) + varint(n)); if (n > 1) add("length beyond the end", T(LEN) + varint(n) + "a"); }
                    add("truncated length", T(LEN) + "\x80"); add("long length", T(LEN) + std::string(11, '\x80') + '\x01');
                }
                if (f.kind == K::String && f.label != L::Map) for (auto &s : {"\x80", "\xc3", "\xc0\x80", "\xe0\x80\x80", "\xed\xa0\x80", "\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xff", "a\xf0\x9f\x98", "\xe2\x82", "\xc3\x28"}) { std::string x = s; if (f.fixed_sz >= 0) x = x.size() > size_t(f.fixed_sz) ? x : std::string(size_t(f.fixed_sz) - x.size(), 'x') + x; add("invalid utf-8", T(LEN) + len(x)); }
                if (f.kind == K::Message) {
                    for (auto &b : {std::string("\x80"), std::string("\x00\x00", 2), std::string("\x07"), std::string("\x0a\x05"), std::string("\x08"), tag(9000, LEN) + "\x7f"}) add("malformed message inside", T(LEN) + len(b));
                    // a field of the nested message that ends behind the nested message
                    for (auto &g : f.msg->fields) if (wire_type(g.kind) != LEN) add("nested field crosses the end", T(LEN) + len(tag(uint32_t(g.num), wire_type(g.kind))) + "\x01\x01\x01\x01\x01\x01\x01\x01");
                        else add("nested length crosses the end", T(LEN) + len(tag(uint32_t(g.num), LEN) + "\x02" "a") + "b");
                }
            }
            add("unknown varint cut", tag(U, VARINT)); add("unknown varint cut", tag(U, VARINT) + "\x80"); add("unknown long varint", tag(U, VARINT) + std::string(10, '\x80') + "\x01");
            add("unknown i32 cut", tag(U, I32) + "abc"); add("unknown i64 cut", tag(U, I64) + "abcdefg"); add("unknown len cut", tag(U, LEN)); add("unknown len cut", tag(U, LEN) + "\x02" "a"); add("unknown len cut", tag(U, LEN) + "\xff\x01" "a");
            for (int n = 1; n < 12; n++) add("tag is endless", std::string(size_t(n), '\x80'));
            for (auto &f : d.fields) if (wire_type(f.kind) == VARINT) for (int n = 6; n < 14; n++) { auto t = varint(uint64_t(f.num) << 3); add("tag is longer than 5 bytes", varint(uint64_t(f.num) << 3, n - int(t.size())) + "\x01"); }
            for (int n = 6; n < 14; n++) { auto t = varint(uint64_t(U) << 3); add("tag of an unknown field is longer than 5 bytes", varint(uint64_t(U) << 3, n - int(t.size())) + "\x01"); }
            add("tag has 11 bytes", std::string(10, '\x88') + '\x01');
            std::vector<std::string> ctx{""};
            for (size_t k = 0; k < 2; k++) ctx.push_back(ref_encode(d, full_msg(d, k, 0, a, 1)));
            for (auto &[w, b] : bad) for (auto &x : ctx) { go(w.c_str(), x + b); if (!x.empty()) go(w.c_str(), b + x); }
            // mutations of valid encodings
            std::vector<std::string> base;
            for (auto &r : records(d, 1, a, 1)) if (r.bytes.size() < 300) base.push_back(r.bytes);
            const size_t singles = base.size();
            for (size_t k = 0; k < 4; k++) base.push_back(ref_encode(d, full_msg(d, k, k < 2 ? 0 : 1, a, 2)));
            size_t bi = 0; std::unordered_set<uint64_t> seen;
            for (auto &b : base) {
                const bool whole = bi++ >= singles;
                if (!seen.insert(hash64(b)).second) continue;
                const bool small = b.size() <= (run.thorough ? 400u : 24u);
                for (size_t i = 0; i < b.size(); i++) {
                    if (b.size() > 6000) break;
                    go("truncated", b.substr(0, i));
                    go("byte deleted", b.substr(0, i) + b.substr(i + 1));
                    if (small || (whole && b.size() < 1500)) {
                        std::string m = b;
                        if (small) for (int x = 0; x < 256; x++) { m[i] = char(x); go("byte replaced", m); }
                        else for (int x = 0; x < 8; x++) { m[i] = char(b[i] ^ (1 << x)); go("bit flipped", m); }
                        for (char x : alpha) go("byte inserted", b.substr(0, i) + x + b.substr(i));
                    }
                }
            }
        }
        auto &n = R.get("Vt.Comp.Node");
        for (int field : {2, 3}) for (int depth : {2001, 2500, 5000, 20000}) {
            std::string rev, b = "\x08\x07"; size_t l = b.size();
            for (int i = 0; i < depth; i++) { auto h = tag(uint32_t(field), LEN) + varint(l); l += h.size(); rev.append(h.rbegin(), h.rend()); }
            std::string all(rev.rbegin(), rev.rend()); all += b; ++trans;
            run.test([&] { return "Vt.Comp.Node nested " + std::to_string(depth) + " levels"; }, [&] { decode(run, n, all); });
        }
        if (run.worker == 0) run.transitions += trans;
    };
    return run_check(argc, argv, c);
}
