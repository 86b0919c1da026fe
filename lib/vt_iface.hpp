// Type erased interface to one generated message type (so that checks compile without the generated code).
#pragma once
#include "vt_model.hpp"
#include <functional>
#include <map>

namespace vt {
using Writer = std::function<void(const void *, size_t)>;
using Reader = std::function<size_t(void *, size_t)>;
struct Obj { virtual ~Obj() = default; };
struct Ops {
    virtual ~Ops() = default;
    virtual const MsgDesc &desc() const = 0;
    virtual std::unique_ptr<Obj> make() const = 0;
    virtual std::unique_ptr<Obj> build(const MsgVal &) const = 0;
    virtual MsgVal read(const Obj &) const = 0;
    // protobuf
    virtual size_t pb_size(const Obj &, bool delim = false) const = 0;
    virtual std::string pb_ser(const Obj &, bool delim = false) const = 0;                       // returned std::string
    virtual std::vector<std::byte> pb_ser_vec(const Obj &, bool delim = false) const = 0;        // returned std::vector<std::byte>
    virtual size_t pb_ser_to(const Obj &, std::string &out, bool delim = false) const = 0;       // container out parameter
    virtual size_t pb_ser_buf(const Obj &, void *buf, bool delim = false) const = 0;             // raw buffer
    virtual size_t pb_ser_writer(const Obj &, const Writer &, bool delim = false) const = 0;
    virtual size_t pb_de(Obj &, const void *, size_t, bool delim = false) const = 0;
    virtual size_t pb_de_str(Obj &, const std::string &, bool delim = false) const = 0;
    virtual std::unique_ptr<Obj> pb_de_ret(const std::string &, bool delim = false) const = 0;
    virtual size_t pb_de_reader(Obj &, const Reader &, bool delim = false) const = 0;
    virtual std::unique_ptr<Obj> pb_de_reader_ret(const Reader &, bool delim = false) const = 0;
    // json
    virtual size_t js_size(const Obj &) const = 0;
    virtual std::string js_ser(const Obj &) const = 0;
    virtual std::vector<std::byte> js_ser_vec(const Obj &) const = 0;
    virtual size_t js_ser_to(const Obj &, std::string &out) const = 0;
    virtual size_t js_ser_buf(const Obj &, void *buf) const = 0;
    virtual size_t js_ser_writer(const Obj &, const Writer &) const = 0;
    virtual size_t js_de(Obj &, const void *, size_t) const = 0;
    virtual size_t js_de_str(Obj &, const std::string &) const = 0;
    virtual std::unique_ptr<Obj> js_de_ret(const std::string &) const = 0;
    virtual size_t js_de_reader(Obj &, const Reader &) const = 0;
    virtual std::unique_ptr<Obj> js_de_reader_ret(const Reader &) const = 0;
};
struct Registry {
    std::vector<const Ops *> all;
    std::map<std::string, const Ops *> by_name;
    void add(const Ops *o) { all.push_back(o); by_name[o->desc().name] = o; }
    const Ops &get(const std::string &n) const { auto it = by_name.find(n); if (it == by_name.end()) throw std::logic_error("no message " + n); return *it->second; }
};
void register_all(Registry &); // generated
} // namespace vt
