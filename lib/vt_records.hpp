// Alphabet of wire records of one message type: every legal way of writing a field, and unknown fields.
#pragma once
#include "vt_values.hpp"

namespace vt {
struct Record { std::string bytes, what; };
inline std::string short_hex(const std::string &s) { return hex(s, 24); }

// lv 0: few records per field, 1: all shapes with a few values, 2: all shapes with every boundary value
inline std::vector<Record> records(const MsgDesc &d, int lv, const Alpha &a, int depth)
{
    std::vector<Record> o;
    auto put = [&](const FieldDesc &f, std::string bytes, const char *what) { o.push_back({std::move(bytes), std::string(f.name) + ":" + what}); };
    std::vector<int> unknown;
    for (auto &f : d.fields) {
        const int wt = wire_type(f.kind);
        auto t = tag(uint32_t(f.num), wt), tp = tag(uint32_t(f.num), LEN);
        auto t_long = varint(uint64_t(f.num) << 3 | unsigned(wt), 1);
        if (f.label == L::Map) {
            auto &e = *f.msg; auto &kf = e.fields[0]; auto &vf = e.fields[1];
            auto ks = scalar_values(kf, lv ? 1 : 0, a); auto vs = element_values(vf, lv ? 1 : 0, a, depth - 1);
            auto K = [&](size_t i) { return ref_field(kf, {ks[i % ks.size()]}); };
            auto V = [&](size_t i) { return ref_field(vf, {vs[i % vs.size()]}); };
            put(f, t + len(K(0) + V(0)), "key value");
            put(f, t + len(K(0) + V(1)), "same key, another value");
            put(f, t + len(V(0) + K(1)), "value before key");
            put(f, t + len(K(0)), "without value");
            put(f, t + len(V(0)), "without key");
            put(f, t + len(""), "empty entry");
            if (lv) {
                put(f, t + len(K(0) + K(1) + V(0)), "key twice");
                if (vf.kind != K::Message) put(f, t + len(K(0) + V(0) + V(1)), "value twice");
                put(f, t + len(K(0) + tag(3, VARINT) + varint(5) + V(0)), "unknown varint in the entry");
                put(f, t + len(tag(9, LEN) + len("xyz") + K(0) + V(0)), "unknown bytes in the entry");
                put(f, t + len(K(1) + V(1) + tag(3, I32) + le(1, 4)), "unknown i32 in the entry");
                put(f, t + len(K(1) + V(1) + tag(200, I64) + le(1, 8)), "unknown i64 in the entry");
                for (size_t i = 1; i < ks.size(); i++) put(f, t + len(K(i) + V(0)), "key alphabet");
                for (size_t i = 2; i < vs.size(); i++) put(f, t + len(K(0) + V(i)), "value alphabet");
            }
            continue;
        }
        auto vs = element_values(f, lv >= 2 ? 2 : lv, a, depth);
        auto body = [&](const Val &v, int pad = 0) { return ref_scalar(f, v, pad); };
        const bool scalar_rep = f.label == L::Rep && wt != LEN;
        const bool fixed = f.label == L::Rep && f.fixed_n >= 0;
        if (!fixed) for (size_t i = 0; i < vs.size(); i++) put(f, t + body(vs[i]), "value");
        if (fixed) {
            std::string p, q; for (int i = 0; i < f.fixed_n; i++) { p += body(vs[size_t(i) % vs.size()]); q += body(vs[0]); }
            put(f, tp + len(p), "fixed array"); put(f, tp + len(q), "fixed array, equal elements");
            if (lv) for (auto &v : vs) { std::string r = body(v); for (int i = 1; i < f.fixed_n; i++) r += body(vs[0]); put(f, tp + len(r), "fixed array, alphabet"); }
            continue;
        }
        if (lv) {
            if (!fixed) put(f, t_long + body(vs[0]), "long tag");
            if (wt == VARINT && f.kind != K::Bool) for (int pad : {1, 2, 4, 8}) for (size_t i = 0; i < 2 && i < vs.size(); i++) if (varint(f.kind == K::SInt64 || f.kind == K::SInt32 ? zigzag(int64_t(vs[i].u)) : vs[i].u).size() + size_t(pad) <= 10) put(f, t + body(vs[i], pad), "padded varint");
            if (f.kind == K::Int32 || f.kind == K::Enum) for (auto &v : vs) if (int64_t(v.u) < 0) { put(f, t + varint(uint32_t(v.u)), "negative in five bytes"); break; }
            if (wt == LEN && f.kind != K::Message) for (auto &v : vs) if (v.s.size() < 100) { put(f, t + varint(v.s.size(), 2) + v.s, "padded length"); break; }
            if (f.kind == K::Message && depth > 0) {
                auto e = ref_encode(*f.msg, *vs.back().m);
                put(f, t + varint(e.size(), 1) + e, "padded length");
                put(f, t + len(tag(60000, VARINT) + varint(7) + e), "unknown field inside");
                for (auto &r : records(*f.msg, 0, a, 0)) put(f, t + len(r.bytes), ("{" + r.what + "}").c_str());
            }
        }
        if (scalar_rep) {
            std::string all; size_t n = 0;
            for (auto &v : vs) { if (f.max_count && n >= f.max_count) break; all += body(v); ++n; }
            put(f, tp + len(body(vs[0])), "packed, one");
            put(f, tp + len(body(vs[0]) + body(vs[1 % vs.size()])), "packed, two");
            if (lv) {
                put(f, tp + len(""), "packed, empty");
                put(f, tp + len(all), "packed, all");
                put(f, tp + varint(all.size(), 1) + all, "packed, padded length");
                if (wt == VARINT && f.kind != K::Bool) put(f, tp + len(body(vs[0], 3) + body(vs[0], 1)), "packed, padded varints");
                if (!f.max_count && lv >= 2) for (size_t k : {127, 128, 300}) { std::string b; for (size_t i = 0; i < k; i++) b += body(vs[i % 2]); put(f, tp + len(b), "packed, many"); }
            }
        }
        for (int u : {f.num + 1, f.num - 1, f.num ^ 16, f.num + 128}) if (u > 0 && u <= 536870911 && !d.by_num(u) && std::find(unknown.begin(), unknown.end(), u) == unknown.end()) unknown.push_back(u);
    }
    for (int u : {1, 15, 16, 2047, 2048, 536870911}) if (!d.by_num(u) && std::find(unknown.begin(), unknown.end(), u) == unknown.end()) unknown.push_back(u);
    size_t shown = 0;
    for (int u : unknown) {
        if (++shown > (lv == 0 ? 1u : lv == 1 ? 6u : 1000u)) break;
        auto put_u = [&](std::string b, const char *w) { o.push_back({std::move(b), "unknown " + std::to_string(u) + ":" + w}); };
        auto n = uint32_t(u);
        put_u(tag(n, VARINT) + varint(1), "varint"); put_u(tag(n, LEN) + len("ab"), "len");
        put_u(tag(n, I32) + le(0x01020304, 4), "i32"); put_u(tag(n, I64) + le(~0ull, 8), "i64");
        if (lv) {
            put_u(tag(n, VARINT) + varint(~0ull), "varint, ten bytes"); put_u(tag(n, VARINT) + varint(0, 9), "varint, padded");
            put_u(tag(n, LEN) + len(""), "len, empty"); put_u(tag(n, LEN) + varint(3, 2) + "\xff\xfe\x80", "len, padded");
        }
        if (lv >= 2) for (size_t k : {127, 128, 255, 256, 257, 1000, 16384}) put_u(tag(n, LEN) + len(bin_pattern(k)), "len, long");
    }
    return o;
}
} // namespace vt
