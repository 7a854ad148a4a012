// Output buffers
#include "util.hpp"
#include "bomba_core.hpp"
using namespace Bomba;

static const int PIECES[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 25, 33};
// appends something of a chosen kind and length, returns what was appended
template <typename B> static std::string append(B& b, int big) {
	int kind = choice(4, "kind");
	if (kind == 0) { char c = (char)sym_int(8, "c"); b += c; return std::string(1, c); }
	int n = PIECES[choice(big, "length")]; std::string s(n, '.'); for (int i = 0; i < n; i++) s[i] = char('a' + i); if (n) s[0] = (char)sym_int(8, "first"); if (n > 1) s[n - 1] = (char)sym_int(8, "last");
	if (kind == 1) { Exact e(s); b += std::string_view(e.p, e.n); } else if (kind == 2) { Exact e(s); b += std::span<const char>(e.p, e.n); } else { if (n) sym_assume(s[0] != 0 && s[n - 1] != 0); b += s.c_str(); }
	return s;
}
template <typename B> static std::string content(const B& b) { return std::string(std::string_view(b)); }
template <typename B> static void expanding(int stat) {
	B b; std::string want; int steps = sym_param("steps", 3), big = sym_param("big", 13); bool cleared = flag("cleared");
	for (int i = 0; i < steps; i++) { if (cleared && i == steps - 1) { b.clear(); want.clear(); sym_check(b.size() == 0 && content(b).empty(), "a cleared buffer is empty"); } want += append(b, big); sym_check(b.size() == (int)want.size(), "the size is what was appended"); }
	sym_check(eqBytes(content(b), want), "the content is what was appended"); std::span<char> s = b; sym_check(eqBytes(std::string_view(s.data(), s.size()), want), "the content as a span too"); sym_cover((int)want.size() > 6 * stat ? "long" : (int)want.size() > stat ? "expanded" : "short");
	// it can be used after reading
	b += std::string_view("tail"); want += "tail"; sym_check(eqBytes(content(b), want), "appending continues after reading");
}
extern "C" void h_buf_expanding() { switch (choice(6, "size")) { case 0: expanding<ExpandingBuffer<4>>(4); break; case 1: expanding<ExpandingBuffer<1>>(1); break; case 2: expanding<ExpandingBuffer<2>>(2); break; case 3: expanding<ExpandingBuffer<3>>(3); break; case 4: expanding<ExpandingBuffer<5, std::vector<char>>>(5); break; case 5: expanding<ExpandingBuffer<7>>(7); break; } }
extern "C" void h_buf_default() { // the size that is used everywhere, lengths around the sizes it grows to
	static const int L[] = {0, 1, 1000, 1023, 1024, 1025, 2048, 3071, 3072, 3073, 6143, 6144, 6145, 12288, 12289, 30000}; ExpandingBuffer<> b; std::string want; for (int i = 0; i < 2; i++) { int n = L[choice(16, "length")]; std::string s(n, '.'); for (int k = 0; k < n; k++) s[k] = char(k * 11 + k / 256 + i); if (n) { s[0] = (char)sym_int(8, "first"); s[n - 1] = (char)sym_int(8, "last"); } Exact e(s); b += std::string_view(e.p, e.n); want += s; if (flag("char")) { char c = (char)sym_int(8, "c"); b += c; want += c; } sym_check(b.size() == (int)want.size() && eqBytes(content(b), want), "the content is what was appended"); } sym_cover("default");
}
template <typename B, int MAX> static void nonexpanding() {
	B b; std::string want; int steps = sym_param("steps", 3), big = sym_param("big", 13); bool cleared = flag("cleared");
	for (int i = 0; i < steps; i++) { if (cleared && i == steps - 1) { b.clear(); want.clear(); sym_check(b.size() == 0 && content(b).empty(), "a cleared buffer is empty"); } want += append(b, big); if (want.size() > MAX) want.resize(MAX); sym_check(b.size() == (int)want.size(), "the size is what fitted"); }
	sym_check(eqBytes(content(b), want), "the content is the part of what was appended that fits"); std::span<char> s = b; sym_check(eqBytes(std::string_view(s.data(), s.size()), want), "the content as a span too"); sym_cover(want.size() == MAX ? "full" : "short");
}
extern "C" void h_buf_nonexpanding() { switch (choice(3, "size")) { case 0: nonexpanding<NonExpandingBuffer<8>, 8>(); break; case 1: nonexpanding<NonExpandingBuffer<1>, 1>(); break; case 2: nonexpanding<NonExpandingBuffer<13>, 13>(); break; } }
template <int N> struct Streaming : StreamingBuffer<N> { using StreamingBuffer<N>::_basic; using StreamingBuffer<N>::_sizeAtLastFlush; using StreamingBuffer<N>::size; std::string out; void flush() override { out.append(_basic.data(), size() - _sizeAtLastFlush); } void end() { flush(); } };
template <int N> static void streaming() {
	std::string want, own; int steps = sym_param("steps", 3), big = sym_param("big", 13);
	auto flushed = [&](std::span<const char> o) { sym_check(o.size() <= N, "no more than the buffer is flushed at once"); own.append(o.data(), o.size()); };
	{ NonOwningStreamingBuffer<N> b(flushed); for (int i = 0; i < steps; i++) { want += append(b, big); sym_check(b.size() == (int)want.size(), "the size is what was appended"); sym_check(own.size() <= want.size() && want.size() - own.size() < N + (N == 1) && eqBytes(own, want.substr(0, own.size())), "what was flushed is the beginning of what was appended"); } }
	sym_check(eqBytes(own, want), "what is flushed is what was appended"); Streaming<N> s; s += std::string_view(want); s.end(); sym_check(eqBytes(s.out, want), "flushed the same when appended at once"); sym_cover(want.size() > N ? "flushed" : "short");
}
extern "C" void h_buf_streaming() { switch (choice(3, "size")) { case 0: streaming<4>(); break; case 1: streaming<2>(); break; case 2: streaming<9>(); break; } }
