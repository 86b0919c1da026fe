#pragma once
#include "vt_bind.hpp"
#include "vt_iface.hpp"
#include <spb/json.hpp>
#include <spb/pb.hpp>

namespace vt {
template <class T> struct ObjT : Obj { T v{}; };
template <class T> struct OpsT final : Ops {
    static const T &c(const Obj &o) { return static_cast<const ObjT<T> &>(o).v; }
    static T &w(Obj &o) { return static_cast<ObjT<T> &>(o).v; }
    const MsgDesc &desc() const override { return Bind<T>::desc(); }
    std::unique_ptr<Obj> make() const override { return std::make_unique<ObjT<T>>(); }
    std::unique_ptr<Obj> build(const MsgVal &m) const override { auto o = std::make_unique<ObjT<T>>(); build_msg(o->v, m); return o; }
    MsgVal read(const Obj &o) const override { MsgVal m; read_msg(c(o), m); norm(desc(), m); return m; }

    static spb::pb::serialize_options so(bool d) { return {.delimited = d}; }
    static spb::pb::deserialize_options dopt(bool d) { return {.delimited = d}; }
    size_t pb_size(const Obj &o, bool d) const override { return spb::pb::serialize_size(c(o), so(d)); }
    std::string pb_ser(const Obj &o, bool d) const override { return spb::pb::serialize<std::string>(c(o), so(d)); }
    std::vector<std::byte> pb_ser_vec(const Obj &o, bool d) const override { return spb::pb::serialize<std::vector<std::byte>>(c(o), so(d)); }
    size_t pb_ser_to(const Obj &o, std::string &s, bool d) const override { return spb::pb::serialize(c(o), s, so(d)); }
    size_t pb_ser_buf(const Obj &o, void *b, bool d) const override { return spb::pb::serialize(c(o), b, so(d)); }
    size_t pb_ser_writer(const Obj &o, const Writer &wr, bool d) const override { return spb::pb::serialize(c(o), spb::io::writer(wr), so(d)); }
    size_t pb_de(Obj &o, const void *p, size_t n, bool d) const override { return spb::pb::deserialize(w(o), p, n, dopt(d)); }
    size_t pb_de_str(Obj &o, const std::string &s, bool d) const override { return spb::pb::deserialize(w(o), s, dopt(d)); }
    std::unique_ptr<Obj> pb_de_ret(const std::string &s, bool d) const override { auto o = std::make_unique<ObjT<T>>(); o->v = spb::pb::deserialize<T>(s, dopt(d)); return o; }
    size_t pb_de_reader(Obj &o, const Reader &r, bool d) const override { return spb::pb::deserialize(w(o), spb::io::reader(r), dopt(d)); }
    std::unique_ptr<Obj> pb_de_reader_ret(const Reader &r, bool d) const override { auto o = std::make_unique<ObjT<T>>(); o->v = spb::pb::deserialize<T>(spb::io::reader(r), dopt(d)); return o; }
#ifndef VT_NO_JSON
    size_t js_size(const Obj &o) const override { return spb::json::serialize_size(c(o)); }
    std::string js_ser(const Obj &o) const override { return spb::json::serialize<std::string>(c(o)); }
    std::vector<std::byte> js_ser_vec(const Obj &o) const override { return spb::json::serialize<std::vector<std::byte>>(c(o)); }
    size_t js_ser_to(const Obj &o, std::string &s) const override { return spb::json::serialize(c(o), s); }
    size_t js_ser_buf(const Obj &o, void *b) const override { return spb::json::serialize(c(o), b); }
    size_t js_ser_writer(const Obj &o, const Writer &wr) const override { return spb::json::serialize(c(o), spb::io::writer(wr)); }
    size_t js_de(Obj &o, const void *p, size_t n) const override { return spb::json::deserialize(w(o), p, n); }
    size_t js_de_str(Obj &o, const std::string &s) const override { return spb::json::deserialize(w(o), s); }
    std::unique_ptr<Obj> js_de_ret(const std::string &s) const override { auto o = std::make_unique<ObjT<T>>(); o->v = spb::json::deserialize<T>(s); return o; }
    size_t js_de_reader(Obj &o, const Reader &r) const override { return spb::json::deserialize(w(o), spb::io::reader(r)); }
    std::unique_ptr<Obj> js_de_reader_ret(const Reader &r) const override { auto o = std::make_unique<ObjT<T>>(); o->v = spb::json::deserialize<T>(spb::io::reader(r)); return o; }
#endif
};
} // namespace vt
