// Readers and writers used as environment of the code under test.
#pragma once
#include "vt_iface.hpp"

namespace vt {
// hands out at most `chunk` bytes per call (0: as many as asked for)
struct Endless {};
struct ChunkReader {
    std::string_view s; size_t chunk = 0; size_t pos = 0; size_t calls = 0; bool bad_call = false;
    size_t operator()(void *p, size_t n)
    {
        ++calls; if (!p || !n) bad_call = true;
        if (calls > s.size() * 2 + 1000) throw Endless{};
        size_t k = std::min(n, s.size() - pos); if (chunk) k = std::min(k, chunk);
        memcpy(p, s.data() + pos, k); pos += k; return k;
    }
};
} // namespace vt
