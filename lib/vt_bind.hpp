// Generic conversion between the generated structs (public members only) and the reference model.
#pragma once
#include "vt_model.hpp"
#include <array>
#include <map>
#include <memory>
#include <optional>
#include <string>
#include <type_traits>
#include <variant>
#include <vector>

namespace vt {
template <class T> struct Bind;
template <class T> concept Bound = requires { Bind<T>::desc(); };
template <class T> concept OptLike = requires(T t) { t.has_value(); t.reset(); *t; typename T::value_type; };
template <class T> struct is_uptr : std::false_type {};
template <class T> struct is_uptr<std::unique_ptr<T>> : std::true_type {};
template <class T> concept MapLike = requires { typename T::key_type; typename T::mapped_type; };
template <class T> concept StrLike = requires(T t) { t.data(); t.size(); typename T::value_type; } && (std::is_same_v<typename T::value_type, char> || std::is_same_v<typename T::value_type, std::byte>);
template <class T> concept FixedLike = requires { std::tuple_size<T>::value; };
template <class T> concept RepLike = !StrLike<T> && !MapLike<T> && !OptLike<T> && !FixedLike<T> && requires(T t) { t.emplace_back(); t.begin(); typename T::value_type; };

template <class T> void read_msg(const T &v, MsgVal &out);
template <class T> void build_msg(T &v, const MsgVal &in);

template <class T> Val get_one(const T &v)
{
    Val o;
    if constexpr (std::is_enum_v<T>) o.u = uint64_t(int64_t(std::underlying_type_t<T>(v)));
    else if constexpr (std::is_same_v<T, bool>) o.u = *reinterpret_cast<const unsigned char *>(&v); // reading an invalid bool must be visible
    else if constexpr (std::is_signed_v<T> && std::is_integral_v<T>) o.u = uint64_t(int64_t(v));
    else if constexpr (std::is_integral_v<T>) o.u = uint64_t(v);
    else if constexpr (std::is_floating_point_v<T>) o = Val(v);
    else if constexpr (StrLike<T>) o.s.assign(reinterpret_cast<const char *>(v.data()), v.size());
    else { MsgVal m; read_msg(v, m); o = Val(m); }
    return o;
}
template <class T> void set_one(T &v, const Val &o)
{
    if constexpr (std::is_enum_v<T>) v = T(std::underlying_type_t<T>(int64_t(o.u)));
    else if constexpr (std::is_same_v<T, bool>) v = o.u != 0;
    else if constexpr (std::is_integral_v<T>) v = T(o.u);
    else if constexpr (std::is_same_v<T, double>) v = as_double(o.u);
    else if constexpr (std::is_same_v<T, float>) v = as_float(o.u);
    else if constexpr (StrLike<T>) {
        if constexpr (FixedLike<T>) { for (size_t i = 0; i < v.size(); i++) v[i] = typename T::value_type(i < o.s.size() ? o.s[i] : 0); }
        else { v.resize(o.s.size()); if (!o.s.empty()) memcpy(const_cast<void *>(static_cast<const void *>(v.data())), o.s.data(), o.s.size()); }
    }
    else { v = T{}; build_msg(v, *o.m); }
}
struct ReadV {
    MsgVal &out;
    template <class T> void field(const T &v, const FieldDesc &d)
    {
        if constexpr (is_uptr<T>::value) { if (v) out.f[d.num].push_back(get_one(*v)); }
        else if constexpr (OptLike<T>) { if (v.has_value()) out.f[d.num].push_back(get_one<typename T::value_type>(*v)); }
        else if constexpr (MapLike<T>) {
            for (const auto &[k, x] : v) { MsgVal e; e.f[1].push_back(get_one(k)); e.f[2].push_back(get_one(x)); out.f[d.num].push_back(Val(e)); }
        }
        else if constexpr (!StrLike<T> && FixedLike<T>) { for (size_t i = 0; i < v.size(); i++) out.f[d.num].push_back(get_one<typename T::value_type>(v[i])); }
        else if constexpr (RepLike<T>) { for (const auto &x : v) out.f[d.num].push_back(get_one<typename T::value_type>(x)); }
        else out.f[d.num].push_back(get_one(v));
    }
    template <class G, class S> void bits(G g, S, const FieldDesc &d) { out.f[d.num].push_back(get_one(g())); }
    template <class T> void oneof(const T &v, const FieldDesc *ds, int n)
    {
        static_assert(std::variant_size_v<T> >= 2);
        if (int(std::variant_size_v<T>) != n + 1) throw std::logic_error("variant has a wrong number of alternatives");
        one<1>(v, ds);
    }
    template <size_t I, class T> void one(const T &v, const FieldDesc *ds)
    {
        if constexpr (I < std::variant_size_v<T>) {
            if (v.index() == I) out.f[ds[I - 1].num].push_back(get_one(std::get<I>(v)));
            else one<I + 1>(v, ds);
        }
    }
};
struct BuildV {
    const MsgVal &in;
    const std::vector<Val> *find(const FieldDesc &d) const { auto it = in.f.find(d.num); return it == in.f.end() ? nullptr : &it->second; }
    template <class T> void field(T &v, const FieldDesc &d)
    {
        auto *x = find(d);
        if constexpr (is_uptr<T>::value) { if (x && !x->empty()) { v = std::make_unique<typename T::element_type>(); set_one(*v, (*x)[0]); } else v.reset(); }
        else if constexpr (OptLike<T>) { if (x && !x->empty()) set_one(v.emplace(typename T::value_type()), (*x)[0]); else v.reset(); }
        else if constexpr (MapLike<T>) {
            v.clear();
            if (x) for (auto &e : *x) { typename T::key_type k{}; typename T::mapped_type y{}; set_one(k, e.m->f.at(1)[0]); set_one(y, e.m->f.at(2)[0]); v[std::move(k)] = std::move(y); }
        }
        else if constexpr (!StrLike<T> && FixedLike<T>) { for (size_t i = 0; i < v.size(); i++) { typename T::value_type y{}; if (x && i < x->size()) set_one(y, (*x)[i]); v[i] = y; } }
        else if constexpr (RepLike<T>) {
            v.clear();
            if (x) for (auto &e : *x) {
                if constexpr (std::is_same_v<typename T::value_type, bool>) v.emplace_back(e.u != 0);
                else set_one(v.emplace_back(), e);
            }
        }
        else { if (x && !x->empty()) set_one(v, (*x)[0]); }
    }
    template <class G, class S> void bits(G g, S s, const FieldDesc &d) { if (auto *x = find(d)) { auto t = g(); set_one(t, (*x)[0]); s(t); } }
    template <class T> void oneof(T &v, const FieldDesc *ds, int n)
    {
        v = T{};
        for (int i = 0; i < n; i++) if (auto *x = find(ds[i]); x && !x->empty()) { put<1>(v, i + 1, (*x)[0]); return; }
    }
    template <size_t I, class T> void put(T &v, int idx, const Val &x)
    {
        if constexpr (I < std::variant_size_v<T>) { if (int(I) == idx) set_one(v.template emplace<I>(), x); else put<I + 1>(v, idx, x); }
    }
};
template <class T> void read_msg(const T &v, MsgVal &out) { Bind<T>::visit(v, ReadV{out}); }
template <class T> void build_msg(T &v, const MsgVal &in) { Bind<T>::visit(v, BuildV{in}); }
} // namespace vt
