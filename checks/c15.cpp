// C15: a stream of delimited messages: every frame is the length and the bytes of one message, and decoding a frame takes
// exactly that frame from the input, whatever lies behind it.
#include "vt_iface.hpp"
#include "vt_io.hpp"
#include "vt_records.hpp"
using namespace vt;
static Registry R;
struct Item { const Ops *o; MsgVal m; std::string body, frame; };
int main(int argc, char **argv)
{
    Check c{.prop = "C15"};
    c.rule = "streams: every sequence (up to a depth) of messages of several types, of sizes around the borders of the length prefix; a state is (stream, position); written by every overload, read one after another from a buffer and via readers with every chunking; every truncation, every wrong length, every padding of a length, garbage behind every frame. Model: frame = varint(length) + encoding, position advances by exactly one frame";
    c.prepare = [](Run &) { register_all(R); };
    c.enumerate = [](Run &run) {
        const bool T = run.thorough;
        auto item = [&](const Ops &o, MsgVal m) { norm(o.desc(), m); Item i{&o, m, {}, {}}; auto obj = o.build(m); i.body = o.pb_ser(*obj); i.frame = len(i.body); return i; };
        auto name = [](const Item &i) { return std::string(i.o->desc().name) + "[" + std::to_string(i.body.size()) + "]"; };
        auto value = [](const Ops &o, const Obj &x) { return canon(o.desc(), o.read(x), false); };
        // the result of decoding exactly these bytes as a whole message
        auto whole = [&](const Ops &o, std::string_view b) -> std::string { std::unique_ptr<char[]> exact(new char[b.size() + 1]); memcpy(exact.get(), b.data(), b.size()); auto x = o.make(); try { o.pb_de(*x, exact.get(), b.size()); } catch (const std::exception &) { return "error"; } return "value " + value(o, *x); };
        auto from_reader = [&](const Ops &o, const Reader &r, bool ret, size_t *n = nullptr) -> std::string { try { if (ret) { auto x = o.pb_de_reader_ret(r, true); return "value " + value(o, *x); } auto x = o.make(); auto k = o.pb_de_reader(*x, r, true); if (n) *n = k; return "value " + value(o, *x); } catch (const Endless &) { return "endless"; } catch (const std::exception &) { return "error"; } };
        auto from_buffer = [&](const Ops &o, const char *p, size_t n, size_t *used) -> std::string { auto x = o.make(); try { auto k = o.pb_de(*x, p, n, true); if (used) *used = k; } catch (const std::exception &) { return "error"; } return "value " + value(o, *x); };

        // --- one frame: every way of writing it
        auto one = [&](const Ops &o, const MsgVal &m) {
            run.test([&] { return std::string(o.desc().name) + " frame " + show(o.desc(), m).substr(0, 400); }, [&] {
                auto obj = o.build(m); auto body = o.pb_ser(*obj), frame = len(body); run.state(hash64(frame, hash64(o.desc().name))); ++run.transitions; ++run.validated; run.outcome(frame);
                auto eq = [&](std::string_view got, const char *how) { if (got != frame) run.fail(std::string(how) + " writes " + hex(std::string(got)) + " instead of " + hex(frame)); };
                if (auto s = o.pb_size(*obj, true); s != frame.size()) run.fail("predicted size " + std::to_string(s) + " instead of " + std::to_string(frame.size()));
                eq(o.pb_ser(*obj, true), "serialize to a string"); auto v = o.pb_ser_vec(*obj, true); eq({(char *)v.data(), v.size()}, "serialize to a vector");
                std::string s = "old"; if (o.pb_ser_to(*obj, s, true) != frame.size()) run.fail("size returned by serialize to a container"); eq(s, "serialize to a container");
                std::string b(frame.size() + 3, '\x5a'); if (o.pb_ser_buf(*obj, b.data(), true) != frame.size()) run.fail("size returned by serialize to a buffer"); eq({b.data(), frame.size()}, "serialize to a buffer"); if (b.substr(frame.size()) != "\x5a\x5a\x5a") run.fail("serialize to a buffer writes behind the frame");
                std::string w; if (o.pb_ser_writer(*obj, [&](const void *p, size_t n) { w.append((const char *)p, n); }, true) != frame.size()) run.fail("size returned by serialize to a writer"); eq(w, "serialize to a writer");
                auto want = "value " + canon(o.desc(), [&] { MsgVal x = m; norm(o.desc(), x); return x; }(), false);
                auto direct = whole(o, body); (void)want;
                size_t n = 0; if (auto got = from_buffer(o, frame.data(), frame.size(), &n); got != direct || n != frame.size()) run.fail("the frame is read from a buffer as " + got.substr(0, 300) + " (" + std::to_string(n) + " of " + std::to_string(frame.size()) + " bytes)");
                if (auto x = o.pb_de_ret(frame, true); "value " + value(o, *x) != direct) run.fail("the frame is read by the returning form as " + value(o, *x).substr(0, 300));
                for (size_t chunk : {0, 1, 7}) for (int tail = 0; tail < 2; tail++) for (int ret = 0; ret < 2; ret++) {
                    auto in = frame + (tail ? "\x7f\x08\x01" : ""); ChunkReader r{in, chunk}; Reader f = std::ref(r); size_t k = frame.size();
                    auto got = from_reader(o, f, ret, &k);
                    if (got != direct) run.fail("the frame is read via a reader as " + got.substr(0, 300));
                    if (r.pos != frame.size() || k != frame.size()) run.fail("decoding a frame of " + std::to_string(frame.size()) + " bytes took " + std::to_string(r.pos) + " bytes of the reader, returned " + std::to_string(k));
                }
            });
        };
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, false);
            explore(run, d, a, {.full_lv = T ? 2 : 1, .depth2_lv = T ? 1 : 0, .depth3_lv = T ? 0 : -1, .nest = 1, .cap = T ? 2e5 : 3000}, [&](const MsgVal &m, uint64_t) { one(*o, m); });
        }
        // --- alphabet of the streams
        std::vector<Item> items, few;
        auto &node = R.get("Vt.Comp.Node");
        {
            const FieldDesc *str = nullptr; for (auto &f : node.desc().fields) if (f.kind == K::String && f.label != L::Map && f.label != L::Rep) { str = &f; break; }
            items.push_back(item(node, {}));
            for (auto n : {size_t(1), size_t(124), size_t(125), size_t(126), size_t(127), size_t(16379), size_t(16380), size_t(16381)}) { MsgVal m; m.f[str->num] = {Val(pattern(n))}; items.push_back(item(node, m)); one(node, m); }
            size_t k = 0;
            for (auto *o : R.all) { auto a = alpha_for(o->desc(), false); a.big = false; if (std::string_view(o->desc().name).starts_with("Vt.Static")) continue; auto i = item(*o, full_msg(o->desc(), k++ % 3, 0, a, 1)); if (i.body.size() < 4000) items.push_back(i); }
            few.push_back(items[0]); few.push_back(items[1]); few.push_back(items[3]); few.push_back(items[4]);
            for (auto *o : R.all) if (few.size() < (T ? 12u : 7u)) { auto a = alpha_for(o->desc(), false); a.big = false; for (auto &r : records(o->desc(), 0, a, 1)) { MsgVal m; if (ref_try(o->desc(), r.bytes, m) == Verdict::Ok && !m.f.empty()) { few.push_back(item(*o, m)); break; } } }
        }
        // --- sequences of frames
        auto sequence = [&](const std::vector<const Item *> &seq) {
            run.test([&] { std::string s = "stream"; for (auto *i : seq) s += " " + name(*i); return s; }, [&] {
                std::string stream, written, tag; std::vector<size_t> ends;
                for (auto *i : seq) {
                    auto obj = i->o->build(i->m); i->o->pb_ser_writer(*obj, [&](const void *p, size_t n) { written.append((const char *)p, n); }, true);
                    stream += i->frame; ends.push_back(stream.size());
                }
                run.state(hash64(stream)); if (written != stream) run.fail("the writer got " + hex(written, 400) + " instead of " + hex(stream, 400));
                // from a buffer
                for (int exact = 0; exact < 2; exact++) {
                    size_t pos = 0, k = 0;
                    for (auto *i : seq) {
                        ++run.transitions; ++run.validated; size_t n = 0; auto end = exact ? ends[k] : stream.size();
                        auto got = from_buffer(*i->o, stream.data() + pos, end - pos, &n); run.outcome(got);
                        if (got != whole(*i->o, i->body)) run.fail("message " + std::to_string(k) + " is read from a buffer as " + got.substr(0, 300));
                        pos += n; if (pos != ends[k]) run.fail("the position behind message " + std::to_string(k) + " is " + std::to_string(pos) + " instead of " + std::to_string(ends[k]));
                        ++k;
                    }
                }
                // via one reader
                for (size_t chunk : {0, 1, 2, 3, 5, 64, 100}) {
                    ChunkReader r{stream, chunk}; Reader f = std::ref(r); size_t k = 0, before = 0;
                    for (auto *i : seq) {
                        ++run.transitions; ++run.validated; size_t n = 0; r.calls = 0;
                        auto got = from_reader(*i->o, f, false, &n);
                        if (got != whole(*i->o, i->body)) run.fail("message " + std::to_string(k) + " is read via a reader (chunks of " + std::to_string(chunk) + ") as " + got.substr(0, 300));
                        if (r.pos != ends[k] || n != ends[k] - before) run.fail("the reader is at " + std::to_string(r.pos) + " behind message " + std::to_string(k) + " which ends at " + std::to_string(ends[k]) + "; returned size " + std::to_string(n));
                        before = ends[k++];
                    }
                    r.calls = 0; if (auto got = from_reader(*seq.back()->o, f, false); got != "error") run.fail("a message behind the end of the stream: " + got.substr(0, 200));
                }
                // every truncation
                if (stream.size() < (T ? 700u : 140u)) for (size_t cut = 0; cut < stream.size(); cut++) for (size_t chunk : {0, 1}) {
                    auto part = stream.substr(0, cut); ChunkReader r{part, chunk}; Reader f = std::ref(r); size_t pos = 0, k = 0; ++run.transitions;
                    for (auto *i : seq) {
                        const bool complete = ends[k] <= cut; auto want = complete ? whole(*i->o, i->body) : std::string("error"); size_t n = 0; r.calls = 0;
                        if (auto got = from_reader(*i->o, f, chunk == 0, &n); got != want) run.fail("the stream is cut at " + std::to_string(cut) + ", message " + std::to_string(k) + " via a reader: " + got.substr(0, 300));
                        if (auto got = from_buffer(*i->o, part.data() + pos, part.size() - pos, &n); got != want) run.fail("the stream is cut at " + std::to_string(cut) + ", message " + std::to_string(k) + " from a buffer: " + got.substr(0, 300));
                        if (!complete) break;
                        pos += n; ++k;
                    }
                }
            });
        };
        for (auto &x : items) { sequence({&x}); for (auto &y : items) if (T || x.body.size() + y.body.size() < 6000) sequence({&x, &y}); }
        for (auto &x : few) for (auto &y : few) for (auto &z : few) { sequence({&x, &y, &z}); if (T) for (auto &w : few) sequence({&x, &y, &z, &w}); }
        // --- wrong and padded lengths: the frame is what the length says, the rest of the stream is not touched
        for (auto *o : R.all) {
            auto &d = o->desc(); auto a = alpha_for(d, false); a.big = false; if (!T && std::string_view(d.name).starts_with("Vt.Static")) continue;
            auto rs = records(d, T ? 2 : 1, a, 1);
            for (size_t i = 0; i < rs.size(); i++) {
                auto body = rs[i].bytes + (i % 2 ? rs[(i + 1) % rs.size()].bytes : ""); if (body.size() > 200) continue;
                run.test([&] { return std::string(d.name) + " lengths " + hex(body, 300); }, [&] {
                    const auto next = rs[0].bytes; std::vector<uint64_t> lens; for (size_t n = 0; n <= body.size() + next.size() + 2; n++) lens.push_back(n);
                    for (uint64_t n : {0x7full, 0x80ull, 0x3fffull, 0x7fffffffull, 0x80000000ull, 0xfffffffeull, 0xffffffffull, 0x100000000ull, 0x100000001ull, 0x100000000ull + body.size(), 0x7fffffffffffffffull, 0xffffffffffffffffull}) if (n > lens.back()) lens.push_back(n);
                    for (auto n : lens) for (size_t pad : {0, 1, 3}) {
                        if (pad && n > 300) continue;
                        auto prefix = varint(n, int(pad)); auto stream = prefix + body + next; const auto have = body.size() + next.size(); ++run.transitions; ++run.validated; run.state(hash64(stream, hash64(d.name)));
                        auto want = n > have ? std::string("error") : whole(*o, std::string_view(stream).substr(prefix.size(), n)); run.outcome(want);
                        size_t used = 0; std::unique_ptr<char[]> exact(new char[stream.size()]); memcpy(exact.get(), stream.data(), stream.size());
                        auto got = from_buffer(*o, exact.get(), stream.size(), &used);
                        if (got != want) run.fail("length " + std::to_string(n) + " in front of " + hex(body + next) + " is read from a buffer as " + got.substr(0, 300) + " instead of " + want.substr(0, 300));
                        if (want != "error" && used != prefix.size() + n) run.fail("a frame of " + std::to_string(prefix.size() + n) + " bytes took " + std::to_string(used));
                        for (size_t chunk : {0, 1, 2}) {
                            ChunkReader r{stream, chunk}; Reader f = std::ref(r);
                            got = from_reader(*o, f, false, &used);
                            if (got != want) run.fail("length " + std::to_string(n) + " in front of " + hex(body + next) + " is read via a reader as " + got.substr(0, 300) + " instead of " + want.substr(0, 300));
                            if (want != "error" && (used != prefix.size() + n || r.pos != used)) run.fail("a frame of " + std::to_string(prefix.size() + n) + " bytes took " + std::to_string(r.pos) + " bytes of the reader, returned " + std::to_string(used));
                            if (n <= have && r.pos > prefix.size() + n) run.fail("decoding a bad frame took " + std::to_string(r.pos - prefix.size() - n) + " bytes behind it");
                        }
                    }
                });
            }
        }
    };
    return run_check(argc, argv, c);
}
