// Helpers shared by the harnesses. Only the public API of Bomba is used.
#pragma once
#include "vf.hpp"
#include <string>
#include <string_view>
#include <vector>
#include <map>
#include <memory>
#include <span>
#include <new>
#include <cstring>
#include <charconv>
#include <stdexcept>

// An input placed in an allocation of exactly its size, so that reading one byte past it is a memory error
struct Exact {
	char* p; size_t n;
	explicit Exact(std::string_view s) : p((char*)operator new(s.size())), n(s.size()) { memcpy(p, s.data(), n); }
	Exact(const Exact&) = delete;
	~Exact() { operator delete(p); }
	operator std::string_view() const { return {p, n}; }
	std::span<char> span() const { return {p, n}; }
};
// n symbolic bytes
inline std::string symStr(size_t n, const char* name) { std::string s(n, '\0'); if (n) sym_bytes(s.data(), n, name); return s; }
// 0..max symbolic bytes (the length is forked)
inline std::string symStrUpTo(size_t max, const char* name) { return symStr(sym_choice(max + 1, name), name); }
inline unsigned choice(unsigned n, const char* name) { return (unsigned)sym_choice(n, name); }
inline bool flag(const char* name) { return sym_choice(2, name); }
// equality without forking per byte
inline bool eqBytes(std::string_view a, std::string_view b) { if (a.size() != b.size()) return false; unsigned char d = 0; for (size_t i = 0; i < a.size(); i++) d |= (unsigned char)(a[i] ^ b[i]); return d == 0; }
// decimal text of an integer, written independently of the code under test
inline std::string decimal(int64_t v) { bool neg = v < 0; uint64_t u = neg ? 0 - (uint64_t)v : (uint64_t)v; char b[24]; int k = 24; do { b[--k] = '0' + u % 10; u /= 10; } while (u); if (neg) b[--k] = '-'; return std::string(b + k, 24 - k); }
// An integer of at most 64 bits: a window of 2^w values around one of several anchors (the full 64-bit range is beyond what bit-blasting of
// decimal conversion can decide; the windows cover every digit count and the extremes)
inline int64_t symWindow64(const char* name, int w = 4) {
	static constexpr int64_t anchors[] = {0, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000, 10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000,
		INT64_MAX - 7, 2147483648, 4294967296, 32768, 65536};
	constexpr unsigned N = sizeof(anchors) / sizeof(anchors[0]);
	static constexpr unsigned coarse[] = {0, 1, 3, 9, 10, 16, 18, 19, 20, 21}; // fewer anchors for quick runs
	unsigned k = sym_param("coarse", 0) ? coarse[choice(10, name)] : choice(N, name); bool neg = flag(name);
	uint64_t off = sym_int(w, name);
	// off - 2^(w-1) around the anchor; around INT64_MAX and INT64_MIN the window ends at the extreme
	uint64_t v = (uint64_t)anchors[k] + off - (k == 19 ? (1u << w) - 8 : (1u << (w - 1)));
	if (neg) v = ~v; // -v - 1: reaches INT64_MIN
	return (int64_t)v;
}
inline int32_t symWindow32(const char* name, int w = 4) { // the same for at most 32 bits
	static constexpr int64_t anchors[] = {0, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, INT32_MAX - 7, 32768, 65536, 256, 128};
	unsigned k = choice(15, name); bool neg = flag(name); uint64_t v = (uint64_t)anchors[k] + sym_int(w, name) - (k == 10 ? (1u << w) - 8 : (1u << (w - 1))); if (neg) v = ~v; return (int32_t)v;
}
