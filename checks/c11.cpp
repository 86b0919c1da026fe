// C11: no input, however malformed, leads to undefined behaviour, an endless run or memory which the input does not pay for.
// Built with AddressSanitizer and UndefinedBehaviorSanitizer; inputs lie in heap blocks of exactly their size.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_json.hpp"
#include "vt_records.hpp"
#include <malloc.h>
using namespace vt;
static Registry R;
static size_t live, peak;
void *operator new(size_t n) { auto *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live += n; if (live > peak) peak = live; return p; }
void operator delete(void *p) noexcept { if (p) { auto n = malloc_usable_size(p); live -= n < live ? n : live; free(p); } }
void operator delete(void *p, size_t) noexcept { operator delete(p); }
int main(int argc, char **argv)
{
    Check c{.prop = "C11"};
    c.rule = "every byte string up to a length, behind every tag and as every JSON value; every truncation, byte replacement and length distortion of valid inputs; decoded from exact heap buffers and through readers under address and undefined behaviour sanitizers with a limit on the memory in use; an accepted value is read completely and encoded again";
    c.assumptions = {"the sanitizers see every memory error of the executed path", "memory bound: 256 KiB + 4 KiB per input byte"};
    c.mem_limit_mb = 0;
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough; uint64_t trans = 0;
        auto go = [&](const Ops &o, bool json, std::string_view in, bool delim = false) {
            ++trans;
            run.test([&] { return std::string(o.desc().name) + (json ? " json " + quoted(in, 300) : std::string(delim ? " delimited " : " ") + hex(in, 200)); }, [&] {
                run.state(hash64(in, hash64(o.desc().name) + json)); ++run.validated;
                std::unique_ptr<char[]> exact(new char[in.size()]); memcpy(exact.get(), in.data(), in.size());
                int results[2];
                for (int how = 0; how < 2; how++) {
                    auto x = o.make(); bool ok = false; ChunkReader r{{exact.get(), in.size()}, how ? size_t(0) : size_t(0)};
                    const auto base = live; peak = live;
                    try {
                        if (how == 0) { json ? o.js_de(*x, exact.get(), in.size()) : o.pb_de(*x, exact.get(), in.size(), delim); }
                        else { Reader f = std::ref(r); json ? o.js_de_reader(*x, f) : o.pb_de_reader(*x, f, delim); }
                        ok = true;
                    } catch (const Endless &) { run.fail("the reader is called forever"); } catch (const std::exception &) {}
                    if (peak > base + 262144 + in.size() * 4096) run.fail("decoding " + std::to_string(in.size()) + " bytes took " + std::to_string(peak - base) + " bytes of memory");
                    results[how] = ok;
                    auto v = o.read(*x); // also after a failure: the object stays usable
                    for (auto &f : o.desc().fields) if (f.kind == K::Bool) if (auto it = v.f.find(f.num); it != v.f.end()) for (auto &b : it->second) if (f.label != L::Map && b.u > 1) run.fail("a bool has the representation " + std::to_string(b.u));
                    if (how == 0) {
                        try { auto s = o.pb_ser(*x); run.outcome(s); } catch (const std::exception &) { if (ok && !json) run.fail("a decoded message cannot be encoded"); }
                        try { o.js_ser(*x); } catch (const std::exception &) {}
                        if (!ok && in.size() < 40) { static std::map<const Ops *, std::string> full; auto &again = full[&o]; if (again.empty()) again = ref_encode(o.desc(), full_msg(o.desc(), 0, 0, alpha_for(o.desc(), true), 0)); try { o.pb_de(*x, again.data(), again.size()); } catch (const std::exception &) {} }
                    }
                }
                (void)results;
            });
        };
        std::string few; for (int x : {0, 1, 2, 8, 10, 0x7f, 0x80, 0x81, 0xff, 0xc3, 0xf0, 0xed}) few += char(x);
        const std::string chars = "{}[]:,\"01-.eEn\\u\x80\xff ";
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, true); a.big = false;
            if (!T && std::string_view(d.name).starts_with("Vt.Static")) continue; // megabytes per object
            go(*o, false, ""); go(*o, true, ""); go(*o, false, "", true);
            for (int x = 0; x < 256; x++) { std::string s(1, char(x)); go(*o, false, s); go(*o, true, s); go(*o, false, s, true); for (int y = 0; y < 256; y += 1) { std::string t{char(x), char(y)}; if (T || y < 32 || y > 250 || (y & 15) == 0) go(*o, false, t); if (T) { go(*o, true, t); go(*o, false, t, true); } } }
            for (auto &f : d.fields) {
                for (int wt = 0; wt < 8; wt++) { auto t = varint(uint64_t(f.num) << 3 | unsigned(wt)); go(*o, false, t); for (int x = 0; x < 256; x += T ? 1 : (wt == wire_type(f.kind) || wt == LEN ? 1 : 37)) { go(*o, false, t + char(x)); if (T || wt == LEN) for (char y : few) { go(*o, false, t + char(x) + y); } } for (char x : few) for (char y : few) { go(*o, false, t + x + y); if (T || (wt == wire_type(f.kind) && x != '\x01' && x != '\x02') || (wt == LEN && x < 8 && x > 0)) for (char z : few) go(*o, false, t + x + y + z); } }
                auto t = tag(uint32_t(f.num), LEN);
                for (uint64_t n : {0x7full, 0xffull, 0x7fffull, 0xffffull, 0xffffffull, 0x7ffffffull, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 0x7fffffffffffffffull, 0x8000000000000000ull, 0xffffffffffffffffull, 0xfffffffffffffffeull, 0xfffffffffffffff0ull})
                    for (auto tail : {"", "a", "\x08\x01", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa"}) { go(*o, false, t + varint(n) + tail); go(*o, false, varint(n) + t + varint(n) + tail, true); go(*o, false, t + varint(std::string(tail).size() + varint(n).size() + 1) + "\x0a" + varint(n) + tail); }
                std::string head = std::string("{\"") + f.json + "\":";
                for (char x : chars) for (char y : chars) { go(*o, true, head + x + y); go(*o, true, head + x + y + "}"); go(*o, true, head + "\"" + x + y + "\"}"); if (T) for (char z : chars) { go(*o, true, head + x + y + z); go(*o, true, head + "\"" + x + y + z + "\"}"); go(*o, true, head + "[" + x + y + z + "]}"); } }
                for (auto *s : {"\"\\u", "\"\\u1", "\"\\u12", "\"\\u123", "\"\\ud83d", "\"\\ud83d\\", "\"\\ud83d\\u", "\"\\ud83d\\ude0", "\"\\", "\"A", "\"AA", "\"AAA", "\"AAAA", "\"=", "\"A=", "\"AA=", "\"AA==", "-", "1e", "1e+", "1.", "n", "nu", "nul", "t", "tr", "tru", "f", "fals", "[", "[[", "[1,", "{", "{\"", "{\"a", "{\"a\"", "{\"a\":", "{\"1\":", "{\"\\", "\"\xf0", "\"\xf0\x9f", "\"\xf0\x9f\x98"}) for (auto tail : {"", "\"", "}", "\"}"}) { go(*o, true, head + s + tail); go(*o, true, head + "[" + s + tail); go(*o, true, "{\"" + std::string(s) + tail); }
                if (f.is_int()) for (auto *s : {"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "4294967295", "4294967296", "-2147483649", "2147483648", "1e400", "-1e400", "1e-400", "340282366920938463463374607431768211456"}) { go(*o, true, head + s + "}"); go(*o, true, head + "\"" + s + "\"}"); go(*o, true, head + "[" + s + "]}"); }
                if (f.is_int()) for (int k = 0; k < 64; k++) for (uint64_t x : {1ull << k, (1ull << k) - 1, ~(1ull << k), ~0ull << k}) { go(*o, false, tag(uint32_t(f.num), VARINT) + varint(x)); go(*o, false, tag(uint32_t(f.num), LEN) + len(varint(x))); go(*o, true, head + std::to_string(int64_t(x)) + "}"); }
            }
            // distorted valid inputs
            std::vector<std::string> base; for (auto &r : records(d, 1, a, 1)) if (r.bytes.size() < 300) base.push_back(r.bytes);
            const size_t single = base.size();
            for (size_t k = 0; k < 4; k++) { auto b = ref_encode(d, full_msg(d, k, 0, a, 2)); if (b.size() < 3000) base.push_back(b); }
            std::unordered_set<uint64_t> seen; size_t bi = 0;
            for (auto &b : base) {
                const bool whole = bi++ >= single; if (!seen.insert(hash64(b)).second) continue;
                for (size_t i = 0; i < b.size(); i++) {
                    go(*o, false, b.substr(0, i)); go(*o, false, varint(b.size()) + b.substr(0, i), true); go(*o, false, varint(i) + b, true);
                    if (!whole && b.size() > 40 && i > 8 && !T) continue;
                    auto m = b; for (int x : {0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0a, 0x12, 0x7f, 0x80, 0x81, 0xc0, 0xe0, 0xf4, 0xff}) { m[i] = char(x); go(*o, false, m); }
                    if (T && b.size() < 60) for (int x = 0; x < 256; x++) { m[i] = char(x); go(*o, false, m); }
                    for (int x = 0; x < 8; x++) { m[i] = char(b[i] ^ (1 << x)); go(*o, false, m); }
                }
            }
            std::vector<std::string> docs; auto st = js::styles(1); size_t si = 0;
            for (auto &f : d.fields) { size_t k = 0; for (auto &v : field_values(f, 1, a, 1)) { if (++k > 8) break; MsgVal m; assign(d, m, f, v); docs.push_back(js::emit(d, m, st[si++ % st.size()])); } }
            for (auto &s : st) docs.push_back(js::emit(d, full_msg(d, si++ % 4, 0, a, 1), s));
            seen.clear();
            for (auto &b : docs) {
                if (!seen.insert(hash64(b)).second || b.size() > 1500) continue;
                for (size_t i = 0; i < b.size(); i++) { go(*o, true, b.substr(0, i)); if (b.size() > 200 && !T) continue; auto m = b; for (char x : std::string("\"\\{}[],:0\xff\0", 11)) { m[i] = x; go(*o, true, m); } }
            }
            // long texts in every place: lengths around the sizes of buffers on the stack
            for (auto &f : d.fields) for (size_t n = 1; n < 1100; n++) {
                if (!T && !(n < 24 || (n > 28 && n < 36) || (n > 60 && n < 68) || (n > 92 && n < 98) || (n > 123 && n < 132) || (n > 252 && n < 262) || (n > 508 && n < 516) || (n > 1020 && n < 1028))) continue;
                if (T && n > 600 && n < 1020) continue;
                for (auto *fill : {"0", "7", "a", "\\u0031", "\xc3\xa9"}) {
                    std::string l; for (size_t i = 0; i < n; i++) l += fill;
                    const auto head = std::string("{\"") + f.json + "\":";
                    go(*o, true, head + "\"" + l + "\"}");
                    if (fill[0] < 'a' && fill[0] != '\\') { go(*o, true, head + l + "}"); go(*o, true, head + "-" + l + "." + l + "e-" + l + "}"); }
                    if (f.label == L::Map) { go(*o, true, head + "{\"" + l + "\":1}}"); go(*o, true, head + "{\"1\":\"" + l + "\"}}"); go(*o, true, head + "{\"-" + l + "1\":\"a\"}}"); go(*o, true, head + "{\"" + l); }
                    else if (f.label == L::Rep) { go(*o, true, head + "[\"" + l + "\"]}"); go(*o, true, head + "[" + l + "]}"); }
                    if (&f == &d.fields.front() || T) { go(*o, true, "{\"" + l + "\":1}"); go(*o, true, "{\"" + l); go(*o, true, std::string("{\"") + f.json + l + "\":\"" + l + "\"}"); go(*o, true, std::string("{\"") + f.json + l); }
                }
            }
            // a position of the reader's buffer
            auto t = js::emit(d, full_msg(d, 1, 0, a, 1), st[1]); if (t.size() < 1200) for (size_t pad = 0; pad < 258; pad += T || t.size() < 300 ? 1 : 5) { go(*o, true, std::string(pad, ' ') + t); go(*o, true, std::string(pad, ' ') + t.substr(0, 257 > pad ? std::min(t.size(), 257 - pad) : 0)); }
        }
        // lengths around the block size of a reader
        auto &op = R.get("Vt.Scalar.Opt"); auto &rp = R.get("Vt.Scalar.Pak");
        for (auto *o : {&op, &rp}) for (auto &f : o->desc().fields) if (wire_type(f.kind) == LEN || f.label == L::Rep) for (size_t n : {65535u, 65536u, 65537u, 131072u, 131073u, 200000u}) { auto t = tag(uint32_t(f.num), LEN); for (size_t have : {size_t(0), size_t(1), size_t(65535), size_t(65536), size_t(65537), n - 1, n}) if (have <= n) go(*o, false, t + varint(n) + std::string(have, 'a')); }
        // nesting
        auto &n = R.get("Vt.Comp.Node");
        for (int depth : {100, 255, 256, 257, 300, 1000, 3000, 30000}) {
            for (int field : {2, 3}) { std::string rev, b = "\x08\x07"; size_t l = b.size(); for (int i = 0; i < depth; i++) { auto h = tag(uint32_t(field), LEN) + varint(l); l += h.size(); rev.append(h.rbegin(), h.rend()); } std::string all(rev.rbegin(), rev.rend()); go(n, false, all + b); go(n, false, all); }
            for (int kind = 0; kind < 6; kind++) { static const char *open[] = {"{\"next\":", "{\"kids\":[", "[", "{\"q\":", "[{\"q\":", "{\"q\":["}; std::string t; for (int i = 0; i < depth; i++) t += open[kind]; if (kind > 1) t = "{\"no\":" + t; go(n, true, t); }
            std::string g; for (int i = 0; i < depth; i++) g += "\x0b"; go(n, false, g);
        }
        if (run.worker == 0) run.transitions += trans;
    };
    return run_check(argc, argv, c);
}
