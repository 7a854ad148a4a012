// Binary format and protocol (bomba_binary_protocol.hpp)
#include "util.hpp"
#include "bomba_core.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_object.hpp"
using namespace Bomba;
using F = SerialisationFlags::Flags;
static constexpr F NF = SerialisationFlags::NONE;
template <typename Size> using Bin = BinaryFormat<std::string, Size>;

// ------------------------------------------------------------------ scalars: full width, exact little-endian bytes
template <typename T> static void scalar(T v) {
	std::string out; { Bin<uint16_t>::Output o(out); TypedSerialiser<T>::serialiseMember(o, v, NF); o.writeInt(F(SerialisationFlags::UINT_8), 0x5a); }
	sym_check(out.size() == sizeof(T) + 1, "a number takes exactly the size of its type");
	unsigned char d = 0; for (size_t i = 0; i < sizeof(T); i++) d |= (unsigned char)out[i] ^ (unsigned char)((uint64_t)v >> 8 * i);
	sym_check(d == 0, "a number is written in little-endian order");
	Exact in(out); Bin<uint16_t>::Input r(in); T got = T(~v); TypedSerialiser<T>::deserialiseMember(r, got, NF);
	sym_check(got == v, "a number is read back as it was written"); sym_check(r.readInt(F(SerialisationFlags::UINT_8)) == 0x5a && r.position() == (int)out.size(), "a number is consumed exactly"); sym_cover("number");
}
extern "C" void h_bin_scalars() {
	switch (choice(8, "type")) {
	case 0: scalar((int8_t)sym_int(8, "v")); break; case 1: scalar((uint8_t)sym_int(8, "v")); break; case 2: scalar((int16_t)sym_int(16, "v")); break; case 3: scalar((uint16_t)sym_int(16, "v")); break;
	case 4: scalar((int32_t)sym_int(32, "v")); break; case 5: scalar((uint32_t)sym_int(32, "v")); break; case 6: scalar((int64_t)sym_int(64, "v")); break; case 7: scalar((uint64_t)sym_int(64, "v")); break;
	}
}
extern "C" void h_bin_flagged() { // the flags say in which type to write a number
	static const struct { F f; int size; bool sgn; } T[] = {{SerialisationFlags::INT_8, 1, true}, {SerialisationFlags::UINT_8, 1, false}, {SerialisationFlags::INT_16, 2, true}, {SerialisationFlags::UINT_16, 2, false}, {SerialisationFlags::INT_32, 4, true}, {SerialisationFlags::UINT_32, 4, false}, {SerialisationFlags::INT_64, 8, true}, {NF, 4, true}};
	auto& t = T[choice(8, "type")]; int64_t v = (int64_t)sym_int(64, "v"); if (t.size < 8) { int b = 8 * t.size; sym_assume(t.sgn ? v >= -(1LL << (b - 1)) && v < (1LL << (b - 1)) : v >= 0 && v < (1LL << b)); }
	std::string out; { Bin<uint16_t>::Output o(out); o.writeInt(t.f, v); } sym_check((int)out.size() == t.size, "size given by the flags");
	Exact in(out); Bin<uint16_t>::Input r(in); sym_check(r.readInt(t.f) == v && r.position() == t.size, "value in the type given by the flags"); sym_cover("flagged");
}
extern "C" void h_bin_floats() { // fixed list of values, every floating-point type
	static const double L[] = {0, 1, -1, 0.5, -2.75, 1e10, -3.5e-5, 65504, 1.0 / 3}; double v = L[choice(9, "v")];
	bool dbl = flag("double"); std::string out; { Bin<uint16_t>::Output o(out); if (dbl) TypedSerialiser<double>::serialiseMember(o, v, NF); else TypedSerialiser<float>::serialiseMember(o, (float)v, NF); }
	sym_check(out.size() == (dbl ? 8 : 4), "size of a floating-point number"); Exact in(out); Bin<uint16_t>::Input r(in);
	if (dbl) { double g = 5; TypedSerialiser<double>::deserialiseMember(r, g, NF); sym_check(g == v, "double read back"); } else { float g = 5; TypedSerialiser<float>::deserialiseMember(r, g, NF); sym_check(g == (float)v, "float read back"); } sym_cover("float");
}
extern "C" void h_bin_float_bits() { // any value of any floating-point type but NaN; half precision is rounded towards zero
	int kind = choice(3, "kind"); std::string out; Bin<uint16_t>::Output o(out); auto half = [](uint16_t b) { return (float)std::bit_cast<_Float16>(b); };
	if (kind == 0) { uint64_t b = sym_int(64, "bits"); sym_assume((b << 1) <= 0xffe0000000000000u); double v = std::bit_cast<double>(b), g = 5; TypedSerialiser<double>::serialiseMember(o, v, NF); sym_check(out.size() == 8, "size of a double"); Exact in(out); Bin<uint16_t>::Input r(in); TypedSerialiser<double>::deserialiseMember(r, g, NF); sym_check(std::bit_cast<uint64_t>(g) == b, "any double is read back"); }
	else if (kind == 1) { uint32_t b = (uint32_t)sym_int(32, "bits"); sym_assume((uint32_t)(b << 1) <= 0xff000000u); float v = std::bit_cast<float>(b), g = 5; TypedSerialiser<float>::serialiseMember(o, v, NF); sym_check(out.size() == 4, "size of a float"); Exact in(out); Bin<uint16_t>::Input r(in); TypedSerialiser<float>::deserialiseMember(r, g, NF); sym_check(std::bit_cast<uint32_t>(g) == b, "any float is read back"); }
	else if (flag("encode")) { uint32_t b = (uint32_t)sym_int(32, "bits"); sym_assume((uint32_t)(b << 1) <= 0xff000000u); float v = std::bit_cast<float>(b); o.writeFloat(SerialisationFlags::FLOAT_16, v); sym_check(out.size() == 2, "size of a half precision number"); uint16_t h = (unsigned char)out[0] | (unsigned char)out[1] << 8; sym_check((h >> 15) == (b >> 31), "the sign is kept"); float m = std::bit_cast<float>(b & 0x7fffffff); uint16_t a = h & 0x7fff; if (a == 0x7c00) sym_check(m >= 65536, "only what is too large becomes infinite"); else { sym_check(a < 0x7c00, "a number stays a number"); sym_check(half(a) <= m, "rounded towards zero"); sym_check(a == 0x7bff ? m < 65536 : half(a + 1) > m, "rounded to the nearest below"); } }
	else { uint16_t h = (uint16_t)sym_int(16, "bits"); sym_assume((h & 0x7fff) <= 0x7c00); std::string t; t += (char)h; t += (char)(h >> 8); Exact in(t); Bin<uint16_t>::Input r(in); double g = r.readFloat(SerialisationFlags::FLOAT_16); sym_check(std::bit_cast<uint64_t>(g) == std::bit_cast<uint64_t>((double)half(h)), "a half precision number is read as its value"); sym_check(r.position() == 2, "consumed exactly"); o.writeFloat(SerialisationFlags::FLOAT_16, g); sym_check(eqBytes(out, t), "and written the same"); }
	sym_cover("bits");
}
extern "C" void h_bin_nan() { // what is not a number stays so, whatever its bits are
	int kind = choice(4, "kind"); std::string out; Bin<uint16_t>::Output o(out); double g = 5; float f = 5;
	if (kind == 0) { uint64_t b = sym_int(64, "bits"); sym_assume((b << 1) > 0xffe0000000000000u); double v = std::bit_cast<double>(b); TypedSerialiser<double>::serialiseMember(o, v, NF); Exact in(out); Bin<uint16_t>::Input r(in); TypedSerialiser<double>::deserialiseMember(r, g, NF); sym_check(g != g, "a double that is not a number stays so"); }
	else if (kind == 1) { uint32_t b = (uint32_t)sym_int(32, "bits"); sym_assume((uint32_t)(b << 1) > 0xff000000u); float v = std::bit_cast<float>(b); TypedSerialiser<float>::serialiseMember(o, v, NF); Exact in(out); Bin<uint16_t>::Input r(in); TypedSerialiser<float>::deserialiseMember(r, f, NF); sym_check(f != f, "a float that is not a number stays so"); }
	else if (kind == 2) { uint32_t b = (uint32_t)sym_int(32, "bits"); sym_assume((uint32_t)(b << 1) > 0xff000000u); o.writeFloat(SerialisationFlags::FLOAT_16, std::bit_cast<float>(b)); sym_check(out.size() == 2, "size of a half precision number"); uint16_t h = (unsigned char)out[0] | (unsigned char)out[1] << 8; sym_check((h & 0x7fff) > 0x7c00, "what is not a number stays so in half precision"); }
	else { uint16_t h = (uint16_t)sym_int(16, "bits"); sym_assume((h & 0x7fff) > 0x7c00); std::string t; t += (char)h; t += (char)(h >> 8); Exact in(t); Bin<uint16_t>::Input r(in); g = r.readFloat(SerialisationFlags::FLOAT_16); sym_check(g != g, "a half precision number that is not a number is read as such"); }
	sym_cover("nan");
}
template <typename S> static void strings() {
	std::string a = symStrUpTo(sym_param("n", 3), "a"), b = symStrUpTo(1, "b"); bool bo = sym_int(1, "bo"); std::string out; { typename Bin<S>::Output o(out); o.writeString(NF, a); o.writeBool(NF, bo); o.writeNull(NF); o.writeString(NF, b); }
	sym_check(out.size() == a.size() + b.size() + 2 * sizeof(S) + 1 && (unsigned char)out[0] == a.size(), "a string is its size and its bytes");
	Exact in(out); typename Bin<S>::Input r(in); sym_check(eqBytes(std::string(r.readString(NF)), a), "string read back"); sym_check(r.readBool(NF) == bo, "boolean read back"); r.readNull(NF); sym_check(eqBytes(r.readString(NF), b), "next string read back"); sym_check(r.good && r.position() == (int)out.size(), "consumed exactly"); sym_cover("string");
}
extern "C" void h_bin_strings() { switch (choice(4, "size")) { case 0: strings<uint8_t>(); break; case 1: strings<uint16_t>(); break; case 2: strings<int32_t>(); break; default: strings<int64_t>(); } }

// ------------------------------------------------------------------ objects and containers
struct BInner : Serialisable<BInner> { int16_t num = key<"num">; std::string text = key<"text">; };
struct BNums : Serialisable<BNums> { bool on = key<"on">; std::vector<int32_t> list = key<"list">; Optional<int16_t> maybe = key<"maybe">; std::array<uint8_t, 3> arr = key<"arr">; std::vector<std::vector<int8_t>> nested = key<"nested">; int8_t last = key<"last">; };
struct BTexts : Serialisable<BTexts> { std::string first = key<"first">; BInner inner = key<"inner">; std::vector<std::string> strs = key<"strs">; Optional<std::string> maybe = key<"maybe">; std::vector<BInner> objs = key<"objs">; std::string last = key<"last">; };
struct BMap : Serialisable<BMap> { int8_t before = key<"before">; std::map<std::string, int8_t> dict = key<"dict">; std::map<std::string, BInner> objs = key<"objs">; int8_t after = key<"after">; };
template <typename T> static void there(const T& x, T& y, F f) {
	std::string out; { Bin<uint16_t>::Output o(out); TypedSerialiser<T>::serialiseMember(o, x, f); o.writeInt(F(SerialisationFlags::UINT_8), 0x5a); }
	Exact in(out); Bin<uint16_t>::Input r(in); TypedSerialiser<T>::deserialiseMember(r, y, f); sym_check(r.readInt(F(SerialisationFlags::UINT_8)) == 0x5a && r.good && r.position() == (int)out.size(), "an object is consumed exactly");
}
static F layout() { return flag("known") ? F(SerialisationFlags::OBJECT_LAYOUT_KNOWN) : NF; }
extern "C" void h_bin_nums() {
	F f = layout(); BNums x; x.on = sym_int(1, "on"); x.last = (int8_t)sym_int(8, "last"); for (auto& a : x.arr) a = (uint8_t)sym_int(8, "arr");
	unsigned n = choice(5, "n"); if (n == 4) n = 20; for (unsigned i = n; i > 0; i--) x.list.push_back((int32_t)sym_int(32, "el")); if (flag("has")) x.maybe = (int16_t)sym_int(16, "maybe");
	for (unsigned i = choice(3, "nn"); i > 0; i--) { x.nested.emplace_back(); for (unsigned k = choice(3, "m"); k > 0; k--) x.nested.back().push_back((int8_t)sym_int(8, "nel")); }
	BNums y; y.arr = {7, 7, 7}; if (unsigned before = choice(3, "dirty")) { y.on = true; y.list.assign(before == 1 ? 5 : 1, 9); y.maybe = int16_t(4); y.nested = {{1, 2, 3}, {}, {4}}; }
	there(x, y, f); sym_check(x.on == y.on && x.last == y.last, "boolean and last member"); sym_check(x.arr == y.arr, "array member"); sym_check(x.list == y.list, "vector member"); sym_check(bool(x.maybe) == bool(y.maybe) && (!x.maybe || *x.maybe == *y.maybe), "optional member"); sym_check(x.nested == y.nested, "nested vectors"); sym_cover(f ? "known layout" : "default");
}
extern "C" void h_bin_texts() {
	F f = layout(); BTexts x; x.first = symStrUpTo(1, "first"); x.inner.num = (int16_t)sym_int(16, "num"); x.inner.text = symStrUpTo(1, "text"); for (unsigned i = choice(3, "n"); i > 0; i--) x.strs.push_back(symStrUpTo(1, "s"));
	if (flag("has")) x.maybe = symStr(1, "maybe"); for (unsigned i = choice(3, "no"); i > 0; i--) { x.objs.emplace_back(); x.objs.back().num = (int16_t)sym_int(16, "onum"); x.objs.back().text = symStr(1, "otext"); } x.last = symStr(2, "last");
	BTexts y; if (unsigned before = choice(3, "dirty")) { y.first = "old"; y.inner.text = "old"; y.inner.num = 3; y.strs.assign(before == 1 ? 3 : 1, "p"); y.maybe = std::string("old"); y.objs.emplace_back(); y.last = "previous"; }
	there(x, y, f); sym_check(eqBytes(x.first, y.first) && eqBytes(x.last, y.last), "first and last member"); sym_check(x.inner.num == y.inner.num && eqBytes(x.inner.text, y.inner.text), "nested object"); sym_check(x.strs == y.strs, "vector of strings"); sym_check(bool(x.maybe) == bool(y.maybe) && (!x.maybe || eqBytes(*x.maybe, *y.maybe)), "optional member");
	bool same = x.objs.size() == y.objs.size(); for (size_t i = 0; same && i < x.objs.size(); i++) same = x.objs[i].num == y.objs[i].num && eqBytes(x.objs[i].text, y.objs[i].text); sym_check(same, "vector of objects"); sym_cover(f ? "known layout" : "default");
}
extern "C" void h_bin_map() {
	F f = layout(); BMap x; x.before = (int8_t)sym_int(8, "before"); x.after = (int8_t)sym_int(8, "after"); static const char* K[] = {"a", "k2", "", "zz"};
	if (flag("many")) for (int i = 0; i < 9; i++) x.dict[std::string(1 + i % 3, char('a' + i))] = (int8_t)sym_int(8, "val");
	else for (unsigned i = choice(3, "n"); i > 0; i--) { std::string k = K[choice(4, "k")]; if (flag("symkey")) { k = symStr(1, "key"); sym_assume(x.dict.empty()); } int8_t v = (int8_t)sym_int(8, "val"); x.dict[k] = v; }
	for (unsigned i = choice(2, "no"); i > 0; i--) { auto& o = x.objs[K[choice(4, "ok")]]; o.num = (int16_t)sym_int(16, "onum"); o.text = symStrUpTo(1, "otext"); }
	BMap y; if (int before = choice(3, "dirty")) { y.dict["stale"] = 3; if (before == 2) y.dict["a"] = 1; y.objs["k2"].num = 5; if (before == 2) y.objs["old"].num = 7; }
	there(x, y, f); sym_check(x.before == y.before && x.after == y.after, "members around maps"); sym_check(x.dict == y.dict, "map member"); bool same = x.objs.size() == y.objs.size(); for (auto& [k, o] : x.objs) same = same && y.objs.count(k) && y.objs[k].num == o.num && eqBytes(y.objs[k].text, o.text); sym_check(same, "map of objects"); sym_cover(f ? "known layout" : "default");
}
extern "C" void h_bin_truncated() { // no strict prefix of a message is accepted
	bool known = flag("known"); F f = known ? F(SerialisationFlags::OBJECT_LAYOUT_KNOWN) : NF; BInner x; x.num = (int16_t)sym_int(16, "num"); x.text = symStrUpTo(2, "text"); std::string out; { Bin<uint16_t>::Output o(out); TypedSerialiser<BInner>::serialiseMember(o, x, f); }
	size_t cut = sym_choice(out.size(), "cut"); Exact in(std::string_view(out).substr(0, cut)); Bin<uint16_t>::Input r(in); BInner y; bool thrown = false; try { TypedSerialiser<BInner>::deserialiseMember(r, y, f); } catch (const ParseError&) { thrown = true; } sym_check(thrown, "a truncated message is refused"); sym_cover("truncated");
}
extern "C" void h_bin_sizes() { // sizes around what the size type can hold are either kept or refused
	unsigned n = 250 + choice(12, "n"); bool vec = flag("vec"); std::string s(n, 'x'); s[n / 2] = (char)sym_int(8, "c"); std::vector<int8_t> v(s.begin(), s.end()); std::string out; bool refused = false;
	try { Bin<uint8_t>::Output o(out); if (vec) TypedSerialiser<std::vector<int8_t>>::serialiseMember(o, v, NF); else o.writeString(NF, s); } catch (const std::logic_error&) { refused = true; }
	if (refused) { sym_check(n > 255, "representable sizes are not refused"); sym_cover("refused"); return; }
	Exact in(out); Bin<uint8_t>::Input r(in); if (vec) { std::vector<int8_t> g; TypedSerialiser<std::vector<int8_t>>::deserialiseMember(r, g, NF); sym_check(g == v, "vector of any size is read back"); } else sym_check(eqBytes(r.readString(NF), s), "string of any size is read back");
	sym_check(r.position() == (int)out.size(), "consumed exactly"); sym_cover("kept");
}
extern "C" void h_bin_long() { // long strings and arrays, with sizes at the boundaries of types
	static const unsigned N[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 70000}; unsigned n = N[choice(9, "n")]; int type = choice(4, "type"); bool vec = flag("vec"); sym_assume(n < 1000 || !vec); std::string s(n, 'x'); s[0] = (char)sym_int(8, "first"); s[n - 1] = (char)sym_int(8, "last"); std::vector<int8_t> v; if (vec) v.assign(s.begin(), s.end()); std::string out; bool refused = false;
	auto run = [&](auto size) { using B = Bin<decltype(size)>; try { typename B::Output o(out); if (vec) TypedSerialiser<std::vector<int8_t>>::serialiseMember(o, v, NF); else o.writeString(NF, s); o.writeInt(F(SerialisationFlags::UINT_8), 0x5a); } catch (const std::logic_error&) { refused = true; } sym_check(refused == (n > (uint64_t)std::numeric_limits<decltype(size)>::max()), "exactly what the size type cannot hold is refused"); if (refused) return;
		sym_check(out.size() == sizeof(size) + n + 1, "size and contents"); Exact in(out); typename B::Input r(in); if (vec) { std::vector<int8_t> g; TypedSerialiser<std::vector<int8_t>>::deserialiseMember(r, g, NF); sym_check(g == v, "a long vector is read back"); } else sym_check(eqBytes(r.readString(NF), s), "a long string is read back"); sym_check(r.readInt(F(SerialisationFlags::UINT_8)) == 0x5a && r.position() == (int)out.size(), "consumed exactly"); };
	if (type == 0) run(uint16_t()); else if (type == 1) run(int16_t()); else if (type == 2) run(int32_t()); else run(uint64_t()); sym_cover(refused ? "refused" : "long");
}
extern "C" void h_bin_depth() { // nesting up to the maximal depth works, beyond it is an error
	unsigned d = 1 + choice(5, "d"); int8_t v = (int8_t)sym_int(8, "v"); std::string out; { Bin<uint16_t>::Output o(out); for (unsigned i = 0; i < d; i++) { o.startWritingArray(NF, 1); o.introduceArrayElement(NF, 0); } o.writeInt(F(SerialisationFlags::INT_8), v); }
	Exact in(out); Bin<uint16_t>::Input r(in); bool refused = false; try { for (unsigned i = 0; i < d; i++) { r.startReadingArray(NF); sym_check(r.nextArrayElement(NF), "has an element"); } sym_check(r.readInt(F(SerialisationFlags::INT_8)) == v, "innermost value"); for (unsigned i = 0; i < d; i++) { sym_check(!r.nextArrayElement(NF), "only one element"); r.endReadingArray(NF); } } catch (const std::logic_error&) { refused = true; }
	sym_check(refused == (d > 3), "exactly nesting deeper than the limit is refused"); sym_cover(refused ? "too deep" : "nested");
}
extern "C" void h_bin_reposition() {
	int16_t a = (int16_t)sym_int(16, "a"); std::string s = symStrUpTo(2, "s"); std::string out; { Bin<uint16_t>::Output o(out); o.writeInt(F(SerialisationFlags::INT_16), a); o.writeString(NF, s); o.writeBool(NF, true); }
	Exact in(out); Bin<uint16_t>::Input r(in); r.readInt(F(SerialisationFlags::INT_16)); auto l = r.storePosition(NF); std::string s1(r.readString(NF)); r.restorePosition(NF, l); std::string s2(r.readString(NF)); sym_check(eqBytes(s1, s) && eqBytes(s2, s) && r.readBool(NF), "reading again from a stored position gives the same"); sym_cover("re");
}
// ------------------------------------------------------------------ arbitrary bytes
template <typename Fn> static void guarded(Fn fn) { try { fn(); sym_cover("accepted"); } catch (const ParseError&) { sym_cover("ParseError"); } }
struct BSmall : Serialisable<BSmall> { std::vector<int16_t> list = key<"l">; std::string text = key<"t">; Optional<int8_t> opt = key<"o">; bool b = key<"b">; };
template <typename S> static void hostile(int n) {
	std::string t = symStrUpTo(n, "b"); int call = choice(7, "call");
	guarded([&] { Exact in(t); typename Bin<S>::Input r(in);
		switch (call) {
		case 0: r.readInt(F(choice(2, "w") ? SerialisationFlags::INT_64 : SerialisationFlags::UINT_16)); r.readString(NF); break;
		case 1: r.readString(NF); r.readString(NF); break;
		case 2: { std::vector<int8_t> v; TypedSerialiser<std::vector<int8_t>>::deserialiseMember(r, v, NF); sym_check(v.size() <= t.size(), "no more elements than bytes"); break; }
		case 3: { std::map<std::string, bool> m; TypedSerialiser<std::map<std::string, bool>>::deserialiseMember(r, m, NF); break; }
		case 4: { BSmall s; TypedSerialiser<BSmall>::deserialiseMember(r, s, F(SerialisationFlags::OBJECT_LAYOUT_KNOWN)); break; }
		case 5: { std::array<uint8_t, 2> a; TypedSerialiser<std::array<uint8_t, 2>>::deserialiseMember(r, a, NF); r.readBool(NF); break; }
		case 6: { std::vector<std::string> v; TypedSerialiser<std::vector<std::string>>::deserialiseMember(r, v, NF); break; }
		} });
}
extern "C" void h_bin_hostile() { switch (choice(4, "size")) { case 0: hostile<uint8_t>(sym_param("n", 5)); break; case 1: hostile<uint16_t>(sym_param("n", 5)); break; case 2: hostile<int32_t>(sym_param("n", 5) + 3); break; default: hostile<int64_t>(9); } }
// ------------------------------------------------------------------ many elements
struct Piece : Serialisable<Piece> { int16_t num = key<"num"> = 5; std::string text = key<"text">; };
struct Crowd : Serialisable<Crowd> { std::vector<int32_t> nums = key<"nums">; std::map<std::string, int16_t> dict = key<"dict">; std::vector<Piece> pieces = key<"pieces">; std::vector<std::vector<std::string>> texts = key<"texts">; Optional<std::vector<uint8_t>> bytes = key<"bytes">; int16_t end = key<"end"> = 7; };
extern "C" void h_bin_many() {
	static const size_t N[] = {3, 4, 7, 8, 16, 17, 100, 127, 128, 255, 256, 257, 1000}; size_t n = N[choice(13, "n")]; int what = choice(5, "what"); int type = choice(3, "type"); sym_assume(n < 256 || type != 0); Crowd x; x.end = (int16_t)sym_int(16, "end"); int16_t sym = (int16_t)sym_int(16, "v"); size_t at = choice(2, "at") ? n - 1 : n / 2; size_t expect = 0;
	std::string out; auto run = [&](auto size) { using B = BinaryFormat<std::string, decltype(size)>; const size_t S = sizeof(size);
		for (size_t i = 0; i < n; i++) { int v = i == at ? sym : int(i * 5) - 99; if (what == 0) { x.nums.push_back(v); expect += 4; } if (what == 1) { std::string k = "k" + decimal((int)i); x.dict[k] = (int16_t)v; expect += S + k.size() + 2; } if (what == 2) { x.pieces.emplace_back(); x.pieces.back().num = (int16_t)v; x.pieces.back().text = std::string(i % 20, 'y'); expect += 2 + S + i % 20; } if (what == 3) { if (i % 10 == 0) { x.texts.emplace_back(); expect += S; } x.texts.back().push_back(std::string(i % 3, 'z')); expect += S + i % 3; } if (what == 4) { if (!x.bytes) { x.bytes = std::vector<uint8_t>(); expect += S; } x.bytes->push_back((uint8_t)v); expect++; } }
		x.template serialise<B>().swap(out); sym_check(out.size() == expect + 4 * S + 1 + 2, "size of the encoding"); Crowd y; if (flag("dirty")) { y.nums.assign(n + 1, 3); y.dict["k1"] = 9; y.dict["other"] = 8; y.pieces.resize(n / 2); y.texts.resize(3); y.texts[0] = {"old", "older"}; y.bytes = std::vector<uint8_t>(5, 1); } Exact in(out); sym_check(y.template deserialise<B>(std::string_view(in)), "reading succeeds");
		sym_check(x.nums == y.nums, "numbers"); sym_check(x.dict == y.dict, "map"); bool same = x.pieces.size() == y.pieces.size(); for (size_t i = 0; same && i < x.pieces.size(); i++) same = x.pieces[i].num == y.pieces[i].num && x.pieces[i].text == y.pieces[i].text; sym_check(same, "objects"); sym_check(x.texts == y.texts, "texts"); sym_check(bool(x.bytes) == bool(y.bytes) && (!x.bytes || *x.bytes == *y.bytes), "bytes"); sym_check(x.end == y.end, "the last member"); };
	if (type == 0) run(uint8_t()); else if (type == 1) run(uint16_t()); else run(int32_t()); sym_cover("many");
}
