// Containers without dynamic memory (fixed capacity); an overflow throws.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <new>
#include <exception>
#include <stdexcept>
#include <string_view>
#include <utility>

namespace vts {
struct overflow : std::exception { const char *what() const noexcept override { return "static container is full"; } };
template <class T, size_t N> class vec {
    alignas(T) unsigned char mem[sizeof(T) * N];
    size_t n = 0;
  public:
    using value_type = T;
    using iterator = T *;
    using const_iterator = const T *;
    vec() = default;
    vec(const vec &o) { for (auto &x : o) emplace_back(x); }
    vec(vec &&o) { for (auto &x : o) emplace_back(std::move(x)); }
    vec &operator=(const vec &o) { if (this != &o) { clear(); for (auto &x : o) emplace_back(x); } return *this; }
    ~vec() { clear(); }
    T *data() { return reinterpret_cast<T *>(mem); }
    const T *data() const { return reinterpret_cast<const T *>(mem); }
    T *begin() { return data(); }
    T *end() { return data() + n; }
    const T *begin() const { return data(); }
    const T *end() const { return data() + n; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    void clear() { while (n) data()[--n].~T(); }
    template <class... A> T &emplace_back(A &&...a) { if (n >= N) throw overflow{}; T *p = new (data() + n) T(std::forward<A>(a)...); ++n; return *p; }
    void push_back(const T &v) { emplace_back(v); }
};
template <class C, size_t N> class buf {
    C mem[N] = {};
    size_t n = 0;
  public:
    using value_type = C;
    C *data() { return mem; }
    const C *data() const { return mem; }
    C *begin() { return mem; }
    C *end() { return mem + n; }
    const C *begin() const { return mem; }
    const C *end() const { return mem + n; }
    size_t size() const { return n; }
    bool empty() const { return n == 0; }
    void clear() { n = 0; }
    void resize(size_t k) { if (k > N) throw overflow{}; if (k > n) memset(static_cast<void *>(mem + n), 0, k - n); n = k; }
    buf &append(const C *p, size_t k) { if (k > N - n) throw overflow{}; memcpy(mem + n, p, k); n += k; return *this; }
    C &operator[](size_t i) { return mem[i]; }
    const C &operator[](size_t i) const { return mem[i]; }
    bool operator==(const buf &o) const { return n == o.n && memcmp(mem, o.mem, n) == 0; }
};
template <size_t N> using str = buf<char, N>;
template <size_t N> using bytes = buf<std::byte, N>;
template <class K, class V, size_t N> class map {
    std::pair<K, V> mem[N];
    size_t n = 0;
  public:
    using key_type = K;
    using mapped_type = V;
    using value_type = std::pair<K, V>;
    auto begin() { return mem; }
    auto end() { return mem + n; }
    auto begin() const { return mem; }
    auto end() const { return mem + n; }
    bool empty() const { return n == 0; }
    size_t size() const { return n; }
    void clear() { n = 0; }
    V &operator[](const K &k)
    {
        for (size_t i = 0; i < n; i++) if (mem[i].first == k) return mem[i].second;
        if (n >= N) throw overflow{};
        mem[n].first = k; mem[n].second = V{};
        return mem[n++].second;
    }
    template <class A, class B> auto emplace(A &&a, B &&b) { (*this)[a] = std::forward<B>(b); return std::pair<value_type *, bool>(mem, true); }
    template <class A, class B> auto insert_or_assign(A &&a, B &&b) { (*this)[a] = std::forward<B>(b); return std::pair<value_type *, bool>(mem, true); }
    template <class A, class B> auto try_emplace(A &&a, B &&b) { (*this)[a] = std::forward<B>(b); return std::pair<value_type *, bool>(mem, true); }
};
} // namespace vts
