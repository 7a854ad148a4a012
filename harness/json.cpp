#include "util.hpp"
#include "jsonref.hpp"
#include <array>
#include <optional>
#include <cmath>
#include <bit>
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "bomba_object.hpp"
using namespace Bomba;
using Json = BasicJson<std::string>;
using F = SerialisationFlags::Flags;
static constexpr F NF = SerialisationFlags::NONE;

// ------------------------------------------------------------------ P01 strings
extern "C" void h_json_string() {
	std::string s = symStrUpTo(sym_param("n", 3), "s");
	int place = choice(3, "place"); // alone, array element, member name and value
	std::string out;
	{
		Json::Output o(out);
		if (place == 0) o.writeString(NF, s);
		else if (place == 1) { auto a = o.writeArray(2); a.writeString(s); a.writeInt(7); }
		else { auto a = o.writeObject(2); a.writeString(s, s); a.writeInt("k", 7); }
	}
	JVal v; sym_check(JRef::parse(out, v), "string is written as valid JSON");
	if (place == 0) sym_check(v.k == JVal::STR && eqBytes(v.s, s), "another reader decodes the string to the original bytes");
	else if (place == 1) sym_check(v.k == JVal::ARR && v.a.size() == 2 && eqBytes(v.a[0].s, s) && v.a[1].s == "7", "another reader decodes the array");
	else sym_check(v.k == JVal::OBJ && v.n.size() == 2 && eqBytes(v.n[0], s) && eqBytes(v.a[0].s, s) && v.a[1].s == "7", "another reader decodes the object");
	Exact in(out); Json::Input r(in);
	if (place == 0) { auto g = r.readString(NF); sym_check(eqBytes(g, s), "string read back is the string written"); sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INVALID, "the string is consumed exactly"); sym_cover("alone"); }
	else if (place == 1) {
		r.startReadingArray(NF); sym_check(r.nextArrayElement(NF), "next"); sym_check(eqBytes(r.readString(NF), s), "array element read back"); sym_check(r.nextArrayElement(NF), "next2"); sym_check(r.readInt(NF) == 7, "following element intact"); sym_check(!r.nextArrayElement(NF), "end"); r.endReadingArray(NF); sym_cover("array");
	} else {
		int seen = 0;
		r.readObject(NF, [&](std::optional<std::string_view> n, int i) { if (i == 0) { sym_check(n && eqBytes(*n, s), "member name read back"); sym_check(eqBytes(r.readString(NF), s), "member value read back"); } else { sym_check(n && *n == "k" && r.readInt(NF) == 7, "following member intact"); } seen++; return true; });
		sym_check(seen == 2, "exactly the written members are read"); sym_cover("object");
	}
	sym_check(r.good, "no error");
}

// ------------------------------------------------------------------ P02 numbers, booleans, null
template <typename T> static void roundInt(T v, bool textExact) {
	std::string out; { Json::Output o(out); TypedSerialiser<T>::serialiseMember(o, v, NF); }
	if (textExact) sym_check(eqBytes(out, decimal((int64_t)v)), "an integer is written as its decimal digits");
	int after = choice(4, "after"); std::string text = out + (after == 0 ? "" : after == 1 ? "," : after == 2 ? "]" : " \n");
	Exact in(text); Json::Input r(in);
	sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INTEGER, "an integer is identified as one");
	T got = T(~v); TypedSerialiser<T>::deserialiseMember(r, got, NF);
	sym_check(got == v, "integer read back is the integer written");
	sym_check(r.good, "no error");
	if (after == 2) { sym_check(!r.nextArrayElement(NF), "nothing after the number is consumed"); }
	sym_cover("int");
}
extern "C" void h_json_int8() { roundInt<int8_t>((int8_t)sym_int(8, "v"), true); }
extern "C" void h_json_uint8() { roundInt<uint8_t>((uint8_t)sym_int(8, "v"), true); }
extern "C" void h_json_int16() { roundInt<int16_t>((int16_t)sym_int(16, "v"), true); }
extern "C" void h_json_uint16() { roundInt<uint16_t>((uint16_t)sym_int(16, "v"), true); }
extern "C" void h_json_int32() { roundInt<int32_t>((int32_t)symWindow32("v", sym_param("w", 4)), true); }
extern "C" void h_json_uint32() { roundInt<uint32_t>((uint32_t)symWindow32("v", sym_param("w", 4)), true); }
extern "C" void h_json_int64() { roundInt<int64_t>(symWindow64("v", sym_param("w", 4)), true); }
extern "C" void h_json_uint64() { roundInt<uint64_t>((uint64_t)symWindow64("v", sym_param("w", 4)), false); }
extern "C" void h_json_bool() {
	bool v = sym_int(1, "v"); int shape = choice(3, "shape"); std::string out;
	{ Json::Output o(out); if (shape == 0) o.writeBool(NF, v); else if (shape == 1) o.writeNull(NF); else { auto a = o.writeArray(3); a.writeBool(v); a.writeNull(); a.writeBool(!v); } }
	if (shape == 0) sym_check(eqBytes(out, v ? "true" : "false"), "boolean text"); if (shape == 1) sym_check(out == "null", "null text");
	Exact in(out); Json::Input r(in);
	if (shape == 0) { sym_check(r.identifyType(NF) == IStructuredInput::TYPE_BOOLEAN, "boolean identified"); sym_check(r.readBool(NF) == v, "boolean read back"); }
	else if (shape == 1) { sym_check(r.identifyType(NF) == IStructuredInput::TYPE_NULL, "null identified"); r.readNull(NF); sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INVALID, "null consumed exactly"); }
	else { r.startReadingArray(NF); bool ok = r.nextArrayElement(NF) && r.readBool(NF) == v && r.nextArrayElement(NF); r.readNull(NF); ok = ok && r.nextArrayElement(NF) && r.readBool(NF) == !v && !r.nextArrayElement(NF); r.endReadingArray(NF); sym_check(ok, "booleans and nulls in an array read back"); }
	sym_check(r.good, "no error"); sym_cover("bool");
}
extern "C" void h_json_float() { // text conversion of floating point runs natively: this is a fixed list, not a solver-decided range
	static const double vals[] = {0.0, -0.0, 0.5, -1.25, 1e300, -1.7976931348623157e308, 5e-324, -2.2250738585072014e-308, 123456789.123456789, -1.2345678901234567e-100, 3.0, 1e21, -4503599627370497.5, 1e15, 9.999999e22};
	double v = vals[choice(sizeof vals / sizeof *vals, "v")]; bool isF = flag("f"); int shape = choice(2, "shape");
	if (isF && std::fabs(v) > 3e38) return; float f = (float)v;
	std::string out; { Json::Output o(out); auto a = o.writeArray(2); if (isF) TypedSerialiser<float>::serialiseMember(a.introduceMember(), f, NF); else if (shape) a.writeFloat(v); else TypedSerialiser<double>::serialiseMember(a.introduceMember(), v, NF); a.writeInt(3); }
	JVal t; sym_check(JRef::parse(out, t) && t.a.size() == 2, "a float is written as valid JSON");
	Exact in(out); Json::Input r(in); r.startReadingArray(NF); r.nextArrayElement(NF);
	if (isF) { float g = 1; TypedSerialiser<float>::deserialiseMember(r, g, NF); sym_check(g == f, "float read back"); } else { double g = 1; TypedSerialiser<double>::deserialiseMember(r, g, NF); sym_check(g == v, "double read back"); }
	sym_check(r.nextArrayElement(NF) && r.readInt(NF) == 3 && !r.nextArrayElement(NF), "following element intact"); sym_cover("float");
}

// ------------------------------------------------------------------ P03 composite values
struct Inner : Serialisable<Inner> {
	int16_t num = key<"num"> = 5;
	std::string text = key<"text"> = "dflt";
};
struct Outer : Serialisable<Outer> {
	bool on = key<"on"> = true;
	std::vector<int16_t> list = key<"list">;
	Optional<int16_t> maybe = key<"maybe"> = std::nullopt;
	Inner inner = key<"inner">;
	std::map<std::string, int16_t> dict = key<"dict">;
	std::string last = key<"last"> = "x";
};
struct Containers : Serialisable<Containers> {
	std::array<int16_t, 2> pair = key<"pair">;
	std::vector<Inner> inners = key<"inners">;
	std::unique_ptr<Inner> ptr = key<"ptr">;
	std::vector<std::string> strs = key<"strs">;
};
static bool same(const Inner& a, const Inner& b) { return a.num == b.num && eqBytes(a.text, b.text); }
static void fill(Inner& i) { i.num = (int16_t)(int8_t)sym_int(8, "num"); sym_assume(i.num > -12 && i.num < 12); i.text = symStrUpTo(1, "text"); }
static void dirty(Inner& i) { i.num = 77; i.text = "old text"; }
extern "C" void h_json_object() {
	Outer x; x.on = sym_int(1, "on"); int what = choice(5, "what");
	if (what == 0) { for (unsigned i = choice(3, "n"); i > 0; i--) x.list.push_back((int16_t)sym_int(4, "el") - 5); }
	if (what == 1) { if (flag("has")) x.maybe = (int16_t)sym_int(16, "maybe"); }
	if (what == 2) fill(x.inner);
	if (what == 3) { for (unsigned i = choice(3, "n"); i > 0; i--) x.dict[symStr(1, "key")] = (int16_t)sym_int(3, "val"); }
	if (what == 4) { for (int i = 0; i < 18; i++) x.list.push_back(int16_t(i * i * 100 - 5)); for (int i = 0; i < 9; i++) x.dict[std::string(1 + i % 3, char('a' + i))] = int16_t(-i); x.maybe = int16_t(-1); fill(x.inner); }
	x.last = symStrUpTo(1, "last");
	std::string out = x.serialise<Json>();
	JVal v; sym_check(JRef::parse(out, v) && v.k == JVal::OBJ && v.n.size() == 6, "an object is written as valid JSON with all its members");
	auto m = member(v, "last"); sym_check(m && m->k == JVal::STR && eqBytes(m->s, x.last), "a member is written with its name and value");
	m = member(v, "dict"); sym_check(m && m->k == JVal::OBJ && m->n.size() == x.dict.size(), "a map is written with all its elements");
	m = member(v, "list"); sym_check(m && m->k == JVal::ARR && m->a.size() == x.list.size(), "a list is written with all its elements");
	Outer y; unsigned before = choice(4, "dirty"); bool wasDirty = before;
	if (wasDirty) { y.on = !x.on; y.list.assign(before == 3 ? 40 : before, int16_t(9)); y.maybe = int16_t(4); dirty(y.inner); y.dict["zz"] = 3; if (before > 1) y.dict["a"] = 1; if (before > 2) y.dict[""] = 2; y.last = "previous"; }
	Exact in(out); sym_check(y.deserialise<Json>(std::string_view(in)), "reading succeeds");
	sym_check(y.on == x.on, "bool member"); sym_check(y.list == x.list, "list member"); sym_check(bool(y.maybe) == bool(x.maybe), "optional presence"); if (x.maybe) sym_check(*y.maybe == *x.maybe, "optional value");
	sym_check(same(x.inner, y.inner), "nested object"); sym_check(x.dict == y.dict, "map"); sym_check(eqBytes(x.last, y.last), "last member");
	sym_cover(wasDirty ? "into used object" : "into fresh object");
}
extern "C" void h_json_containers() {
	Containers x; x.pair = {(int16_t)sym_int(6, "p0"), (int16_t)-1};
	int what = choice(4, "what");
	if (what == 0) for (unsigned i = choice(3, "n"); i > 0; i--) { x.inners.emplace_back(); fill(x.inners.back()); }
	if (what == 1 && flag("has")) { x.ptr = std::make_unique<Inner>(); fill(*x.ptr); }
	if (what == 2) for (unsigned i = choice(3, "n"); i > 0; i--) x.strs.push_back(symStr(1, "s"));
	if (what == 3) { for (int i = 0; i < 6; i++) { x.inners.emplace_back(); x.strs.push_back(std::string(i * 9, char('a' + i)) + (i == 4 ? symStr(1, "s") : "")); } x.inners[4].num = 77; }
	std::string out = x.serialise<Json>();
	JVal v; sym_check(JRef::parse(out, v) && v.k == JVal::OBJ && v.n.size() == 4, "valid JSON");
	Containers y; unsigned before = choice(4, "dirty"); bool wasDirty = before; if (wasDirty) { y.pair = {4, 4}; y.inners.resize(before); dirty(y.inners[0]); y.ptr = std::make_unique<Inner>(); dirty(*y.ptr); y.strs.assign(before == 3 ? 4 : before, "a"); }
	Exact in(out); sym_check(y.deserialise<Json>(std::string_view(in)), "reading succeeds");
	sym_check(x.pair == y.pair, "array"); sym_check(x.inners.size() == y.inners.size(), "list of objects size"); for (size_t i = 0; i < x.inners.size(); i++) sym_check(same(x.inners[i], y.inners[i]), "list of objects");
	sym_check(bool(x.ptr) == bool(y.ptr), "pointer presence"); if (x.ptr) sym_check(same(*x.ptr, *y.ptr), "pointed object"); sym_check(x.strs.size() == y.strs.size(), "strings size"); for (size_t i = 0; i < x.strs.size(); i++) sym_check(eqBytes(x.strs[i], y.strs[i]), "strings");
	sym_cover("containers");
}

// ------------------------------------------------------------------ P04 any conforming text is read correctly
static std::string ws(const char* name) { std::string s = symStrUpTo(1, name); for (char c : s) sym_assume(c == ' ' || c == '\t' || c == '\n' || c == '\r'); return s; }
// one string token of k units, each a plain character, a short escape or a \u escape; `want` receives its value
static std::string strToken(int k, std::string& want, const char* name) {
	std::string t = "\"";
	for (int i = 0; i < k; i++) switch (choice(4, name)) {
	case 0: { std::string c = symStr(1, name); sym_assume((unsigned char)c[0] >= 0x20 && c[0] != '"' && c[0] != '\\'); t += c; want += c; break; }
	case 1: { static const char e[] = "\"\\/bfnrt", m[] = "\"\\/\b\f\n\r\t"; unsigned q = choice(8, name); t += '\\'; t += e[q]; want += m[q]; break; }
	case 2: { std::string h = symStr(4, name); unsigned v = 0; for (char c : h) { bool dg = c >= '0' && c <= '9', lo = c >= 'a' && c <= 'f', up = c >= 'A' && c <= 'F'; sym_assume(dg | lo | up); v = v * 16 + (dg ? c - '0' : lo ? c - 'a' + 10 : c - 'A' + 10); } sym_assume(v < 0xd800 || v > 0xdfff); t += "\\u" + h; JRef::utf8(want, v); break; }
	case 3: { uint32_t v = (uint32_t)sym_int(20, name); unsigned hi = 0xd800 + (v >> 10), lo = 0xdc00 + (v & 0x3ff); auto hx = [](unsigned u) { std::string r = "\\u"; for (int k = 12; k >= 0; k -= 4) { unsigned d = u >> k & 15; r += (char)(d < 10 ? '0' + d : 'a' + d - 10); } return r; }; t += hx(hi) + hx(lo); JRef::utf8(want, v + 0x10000); break; }
	}
	return t + '"';
}
extern "C" void h_json_decode_string() {
	std::string want; std::string t = ws("w0"); t += strToken(choice(sym_param("k", 1) + 1, "k"), want, "u"); t += ws("w1");
	Exact in(t); Json::Input r(in); sym_check(r.identifyType(NF) == IStructuredInput::TYPE_STRING, "string identified");
	sym_check(eqBytes(r.readString(NF), want), "every conforming string token is decoded to its value"); sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INVALID, "consumed exactly"); sym_cover("decoded");
}
extern "C" void h_json_decode_object() { // {"num":N,"text":"T","on":B} in any member order, any whitespace
	static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	unsigned pm = choice(6, "perm"); int8_t n = (int8_t)sym_int(8, "n"); sym_assume(n > -12 && n < 12); bool b = sym_int(1, "b"); std::string want, tok = sym_param("tok", 1) ? strToken(1, want, "u") : "\"\\n]\"";  if (want.empty()) want = "\n]";
	int wsAt = choice(9, "wsAt"); std::string w = ws("w"); int slot = 0; auto sp = [&] { return slot++ == wsAt ? w : std::string(); };
	std::string t = sp() + "{";
	for (int i = 0; i < 3; i++) { int m = perm[pm][i]; t += sp(); t += m == 0 ? "\"num\"" : m == 1 ? "\"text\"" : "\"on\""; t += i == 0 ? sp() : std::string(); t += ":"; t += i == 1 ? sp() : std::string(); t += m == 0 ? decimal(n) : m == 1 ? tok : std::string(b ? "true" : "false"); t += i == 2 ? sp() : std::string(); if (i < 2) t += ","; }
	t += "}" + sp();
	int gotN = -1000; std::string gotT; int gotB = -1, members = 0;
	Exact in(t); Json::Input r(in); sym_check(r.identifyType(NF) == IStructuredInput::TYPE_OBJECT, "object identified");
	r.readObject(NF, [&](std::optional<std::string_view> nm, int idx) { sym_check(nm.has_value() && idx == members, "names and indexes are reported"); members++; std::string name(nm.value_or("")); if (name == "num") { sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INTEGER, "integer identified"); gotN = (int)r.readInt(NF); } else if (name == "text") gotT = r.readString(NF); else if (name == "on") gotB = r.readBool(NF); else sym_fail("unexpected member"); return true; });
	sym_check(members == 3, "every member is reported once"); sym_check(gotN == n, "integer member"); sym_check(eqBytes(gotT, want), "string member"); sym_check(gotB == b, "boolean member"); sym_check(r.good, "no error"); sym_cover("object");
}
extern "C" void h_json_decode_array() {
	unsigned n = choice(4, "n"); std::string t = ws("w0") + "["; t += ws("w1"); std::vector<int16_t> want;
	for (unsigned i = 0; i < n; i++) { if (i) t += ws("w2") + "," ; int16_t v = (int16_t)sym_int(4, "v"); if (i == 0) v = -v; want.push_back(v); t += decimal(v); if (i == 0) t += ws("w3"); }
	t += "]" + ws("w4"); Exact in(t); Json::Input r(in); std::vector<int16_t> got = {1, 2}; TypedSerialiser<std::vector<int16_t>>::deserialiseMember(r, got, NF); sym_check(got == want, "array decoded"); sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INVALID, "consumed exactly"); sym_cover("array");
}
extern "C" void h_json_fixed_array() { // an input array shorter or longer than the std::array read into
	unsigned n = choice(5, "n"); std::string t = "[["; std::vector<int16_t> vals; for (unsigned i = 0; i < n; i++) { int16_t v = (int16_t)(int8_t)sym_int(8, "v"); vals.push_back(v); t += (i ? "," : "") + decimal(v); } t += "],5]";
	Exact in(t); Json::Input r(in); r.startReadingArray(NF); r.nextArrayElement(NF); std::array<int16_t, 2> a = {111, 112}; TypedSerialiser<std::array<int16_t, 2>>::deserialiseMember(r, a, NF);
	sym_check(a[0] == (n > 0 ? vals[0] : 111) && a[1] == (n > 1 ? vals[1] : 112), "the elements that fit are stored"); sym_check(r.nextArrayElement(NF) && r.readInt(NF) == 5 && !r.nextArrayElement(NF), "what follows the array is read correctly"); sym_cover(n > 2 ? "longer" : "short");
}
template <typename T> static void ranged(const std::string& t, int64_t v) { Exact in(t); Json::Input r(in); r.startReadingArray(NF); r.nextArrayElement(NF); T got = 5; bool refused = false; try { TypedSerialiser<T>::deserialiseMember(r, got, NF); } catch (const ParseError&) { refused = true; } catch (const RemoteError&) { refused = true; } bool fits = sizeof(T) == 8 || (v >= (int64_t)std::numeric_limits<T>::min() && v <= (int64_t)std::numeric_limits<T>::max()); sym_check(refused == !fits, "a number is refused if it does not fit"); if (!refused) { sym_check((int64_t)got == v, "a number that fits is read"); sym_check(r.nextArrayElement(NF) && r.readInt(NF) == 8 && !r.nextArrayElement(NF), "number consumed exactly"); } sym_cover(refused ? "refused" : "read"); }
extern "C" void h_json_ranges() { // numbers for variables of any type, also ones too small for them
	static const int64_t B[] = {0, 127, -128, 255, 32767, -32768, 65535, 2147483647, -2147483648ll, 4294967295ll, 1ll << 40, -(1ll << 40), 9007199254740993ll}; int k = choice(13, "base"); int64_t v = B[k] + (int64_t)sym_int(sym_param("w", 2), "low") - 1; std::string t; switch (choice(3, "form")) { case 0: t = decimal(v); break; case 1: t = decimal(v) + ".5"; break; default: v = B[k] / 10 * 10; t = decimal(v / 10) + "E1"; if (k == 12) sym_assume(false); } t = "[" + t + " ,8]";
	switch (choice(7, "type")) { case 0: ranged<int8_t>(t, v); break; case 1: ranged<uint8_t>(t, v); break; case 2: ranged<int16_t>(t, v); break; case 3: ranged<uint16_t>(t, v); break; case 4: ranged<int32_t>(t, v); break; case 5: ranged<uint32_t>(t, v); break; case 6: ranged<int64_t>(t, v); break; }
}
extern "C" void h_json_too_large() { // numbers no integer variable can hold
	static const char* T[] = {"9223372036854775808", "-9223372036854775809", "1e19", "-1e19", "9.3e18", "1e300", "1e999", "-1E+400", "99999999999999999999999"}; std::string t = T[choice(9, "text")]; t += flag("more") ? "1" : ""; t += choice(2, "end") ? "]" : " ,8]"; t = "[" + t; Exact in(t); Json::Input r(in); r.startReadingArray(NF); r.nextArrayElement(NF); bool refused = false; try { r.readInt(NF); } catch (const ParseError&) { refused = true; } catch (const RemoteError&) { refused = true; } sym_check(refused, "a number is refused if it does not fit"); sym_cover("refused");
}
extern "C" void h_json_float_texts() { // text forms of numbers (converted natively, a fixed list): identification, value, position
	static const struct { const char* t; double v; bool isInt; int64_t i; } L[] = {{"0", 0, true, 0}, {"-7", -7, true, -7}, {"-1.5", -1.5, false, -1}, {"2.75", 2.75, false, 2}, {"1e2", 100, false, 100}, {"-0.5e-3", -0.0005, false, 0}, {"6E+1", 60, false, 60}, {"12345678901", 12345678901., true, 12345678901}, {"-3.25E1", -32.5, false, -32}, {"1.999", 1.999, false, 1}, {"-1E18", -1e18, false, -1000000000000000000}, {"1250e-2", 12.5, false, 12}};
	auto& c = L[choice(12, "c")]; bool asInt = flag("asInt"); int after = choice(4, "after"); std::string t = std::string(c.t) + (after == 0 ? "" : after == 1 ? ",8]" : after == 2 ? " , 8]" : "\n,8 ]"); if (after) t = "[" + t;
	Exact in(t); Json::Input r(in); if (after) { r.startReadingArray(NF); r.nextArrayElement(NF); }
	sym_check(r.identifyType(NF) == (c.isInt ? IStructuredInput::TYPE_INTEGER : IStructuredInput::TYPE_FLOAT), "number type identified");
	if (asInt) { int64_t g = r.readInt(NF); sym_check(g == c.i, "integer value"); } else sym_check(r.readFloat(NF) == c.v, "float value");
	if (after) { sym_check(r.nextArrayElement(NF) && r.readInt(NF) == 8 && !r.nextArrayElement(NF), "number consumed exactly"); r.endReadingArray(NF); }
	sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INVALID, "end"); sym_cover("number");
}

// ------------------------------------------------------------------ P05 unknown content is skipped exactly
static std::string keyToken(const char* name) { switch (choice(3, name)) { case 0: { std::string c = symStr(1, name); sym_assume((unsigned char)c[0] >= 0x20 && c[0] != '"' && c[0] != '\\'); return "\"" + c + "\""; } case 1: return "\"\\\"}\""; default: return "\"\""; } }
static std::string anyValue(int depth, const char* name) { // any JSON value up to a depth, with symbolic strings
	switch (choice(depth > 0 ? 7 : 5, name)) {
	case 0: return "null"; case 1: return flag(name) ? "true" : "false"; case 2: return decimal((int)sym_int(4, name) - 11); case 3: return "-1.5e-3";
	case 4: { std::string w; return strToken(choice(sym_param("k", 1) + 1, name), w, name); }
	case 5: { unsigned n = choice(3, name); std::string t = "["; for (unsigned i = 0; i < n; i++) { if (i) t += ","; t += anyValue(i == 0 ? depth - 1 : 0, name); } return t + "]"; }
	default: { unsigned n = choice(3, name); std::string t = "{"; for (unsigned i = 0; i < n; i++) { if (i) t += ", "; std::string w; if (i == 0) { t += keyToken(name) + ":"; t += anyValue(depth - 1, name); } else t += "\"q\": 1"; } return t + "}"; }
	}
}
extern "C" void h_json_skip() {
	std::string v = anyValue(sym_param("depth", 1), "v"); int place = choice(4, "place"); std::string w = flag("ws") ? " " : "";
	std::string t = place == 0 ? v + w : place == 1 ? "[" + v + w + ",42]" : place == 2 ? "[" + v + w + "]" : "{\"a\":" + w + v + w + ",\"b\":42}";
	Exact in(t); Json::Input r(in);
	if (place == 0) { r.skipObjectElement(NF); sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INVALID, "a skipped value is consumed exactly (alone)"); sym_cover("alone"); }
	else if (place == 3) { int seen = 0; r.readObject(NF, [&](std::optional<std::string_view> n, int i) { if (i == 0) { sym_check(n && *n == "a", "first name"); r.skipObjectElement(NF); } else { sym_check(n && *n == "b", "the member after a skipped one is found"); sym_check(r.readInt(NF) == 42, "and its value read"); } seen++; return true; }); sym_check(seen == 2, "members seen"); sym_cover("member"); }
	else { r.startReadingArray(NF); sym_check(r.nextArrayElement(NF), "first"); r.skipObjectElement(NF); if (place == 1) { sym_check(r.nextArrayElement(NF) && r.readInt(NF) == 42, "the element after a skipped one is read"); } sym_check(!r.nextArrayElement(NF), "the array ends where it ends"); r.endReadingArray(NF); sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INVALID, "end"); sym_cover("element"); }
	sym_check(r.good, "no error");
}
extern "C" void h_json_skip_nested() { // nested values with whitespace around their tokens
	std::string w[4]; for (auto& x : w) x = ws("ws"); static const char* LEAF[] = {"1", "\"]}\\\"\"", "[]", "-2e5"}; std::string v = LEAF[choice(4, "leaf")]; unsigned depth = 1 + choice(sym_param("levels", 3), "levels");
	for (unsigned i = 0; i < depth; i++) { bool obj = flag("obj"); unsigned other = choice(3, "other"); std::string k1 = obj ? "\"k\"" + w[3] + ":" + w[0] : "", k2 = obj ? "\"]\":" : ""; v = (obj ? "{" : "[") + w[0] + (other == 1 ? k2 + "7" + w[2] + "," + w[3] : "") + k1 + v + w[1] + (other == 2 ? "," + w[3] + k2 + "\"x\"" + w[2] : "") + (obj ? "}" : "]"); }
	bool member = flag("member"); std::string t = member ? "{\"a\":" + v + w[2] + ",\"b\":42}" : "[" + v + w[2] + "," + w[3] + "42]"; Exact in(t); Json::Input r(in);
	if (member) { int seen = 0; r.readObject(NF, [&](std::optional<std::string_view> n, int i) { if (i == 0) r.skipObjectElement(NF); else sym_check(n && *n == "b" && r.readInt(NF) == 42, "the member after a skipped one is read"); seen++; return true; }); sym_check(seen == 2, "members around a skipped one"); }
	else { r.startReadingArray(NF); sym_check(r.nextArrayElement(NF), "first"); r.skipObjectElement(NF); sym_check(r.nextArrayElement(NF) && r.readInt(NF) == 42, "the element after a skipped one is read"); sym_check(!r.nextArrayElement(NF), "the array ends where it ends"); r.endReadingArray(NF); }
	sym_check(r.good && r.identifyType(NF) == IStructuredInput::TYPE_INVALID, "consumed exactly"); sym_cover("nested");
}
extern "C" void h_json_unknown_members() { // known members in any order with unknown ones anywhere; unmentioned ones keep their values
	int16_t n = (int16_t)sym_int(4, "n"); std::string text = symStr(1, "text"); sym_assume(text[0] >= 0x20 && text[0] != '"' && text[0] != '\\');
	std::string nm = "\"" + symStr(3, "name") + "\""; for (int i = 1; i < 4; i++) sym_assume(nm[i] >= 0x20 && nm[i] != '"' && nm[i] != '\\'); sym_assume(!eqBytes(nm, "\"num\""));
	std::string un = nm + ":" + anyValue(sym_param("depth", 1), "v"); bool hasNum = flag("hasNum"), hasText = flag("hasText"), swap = flag("swap"); int at = choice(3, "at"), more = at == 2 ? 0 : choice(2, "more");
	std::vector<std::string> ms; if (hasNum) ms.push_back("\"num\":" + decimal(n)); if (hasText) ms.push_back("\"text\":\"" + text + "\""); if (swap && ms.size() == 2) std::swap(ms[0], ms[1]);
	ms.insert(ms.begin() + std::min<size_t>(at, ms.size()), un); if (more) ms.insert(ms.begin() + (at == 0 ? 1 : 0), "\"zz\":[{\"num\":3},\"\\\"\"]");
	std::string t = "[{"; for (size_t i = 0; i < ms.size(); i++) t += (i ? "," : "") + ms[i]; t += "},9]";
	Exact in(t); Json::Input r(in); r.startReadingArray(NF); r.nextArrayElement(NF); Inner o; dirty(o); TypedSerialiser<Inner>::deserialiseMember(r, o, NF);
	sym_check(o.num == (hasNum ? n : 77), "a known member is stored, an unmentioned one kept (integer)"); sym_check(eqBytes(o.text, hasText ? std::string_view(text) : "old text"), "a known member is stored, an unmentioned one kept (string)");
	sym_check(r.nextArrayElement(NF) && r.readInt(NF) == 9 && !r.nextArrayElement(NF), "what follows the object is read correctly"); sym_cover("unknown");
}

// ------------------------------------------------------------------ P06 arbitrary bytes
static int visits;
static void visit(IStructuredInput& r, int depth) { // reads whatever is there, driven by what the reader says is there
	if (++visits > 40) sym_done();
	switch (r.identifyType(NF)) {
	case IStructuredInput::TYPE_INTEGER: r.readInt(NF); break; case IStructuredInput::TYPE_FLOAT: r.readFloat(NF); break; case IStructuredInput::TYPE_STRING: r.readString(NF); break; case IStructuredInput::TYPE_BOOLEAN: r.readBool(NF); break; case IStructuredInput::TYPE_NULL: r.readNull(NF); break;
	case IStructuredInput::TYPE_ARRAY: if (depth == 0) { r.skipObjectElement(NF); break; } r.startReadingArray(NF); while (r.nextArrayElement(NF)) visit(r, depth - 1); r.endReadingArray(NF); break;
	case IStructuredInput::TYPE_OBJECT: if (depth == 0) { r.skipObjectElement(NF); break; } r.readObject(NF, [&](std::optional<std::string_view>, int) { visit(r, depth - 1); return true; }); break;
	default: parseError("nothing readable"); }
}
template <typename Fn> static void guarded(Fn fn) { // malformed input may only be reported as ParseError or RemoteError
	try { fn(); sym_cover("accepted"); } catch (const ParseError&) { sym_cover("ParseError"); } catch (const RemoteError&) { sym_cover("RemoteError"); }
}
static const char* const prefixes[] = {"", "\"", "[", "{\"", "{\"num\":", "{\"text\":\"", "[1,", "\"\\u00", "{\"z\":[", "-", "{\"num\":1,\"text\":\"a\"", "tr"};
extern "C" void h_json_hostile_visit() { std::string t = prefixes[choice(12, "prefix")]; t += symStrUpTo(sym_param("n", 3), "b"); visits = 0; guarded([&] { Exact in(t); Json::Input r(in); visit(r, 2); }); }
extern "C" void h_json_hostile_object() { std::string t = prefixes[choice(12, "prefix")]; t += symStrUpTo(sym_param("n", 3), "b"); guarded([&] { Exact in(t); Inner o; o.deserialise<Json>(std::string_view(in)); }); }
extern "C" void h_json_hostile_calls() { // any single reading call on any bytes
	std::string t = symStrUpTo(sym_param("n", 3), "b"); int call = choice(9, "call");
	guarded([&] { Exact in(t); Json::Input r(in); switch (call) { case 0: r.readInt(NF); break; case 1: r.readFloat(NF); break; case 2: r.readString(NF); break; case 3: r.readBool(NF); break; case 4: r.readNull(NF); break; case 5: r.skipObjectElement(NF); break; case 6: r.readOptional(NF, [&] { r.readString(NF); }); break; case 7: r.startReadingArray(NF); while (r.nextArrayElement(NF)) r.readString(NF); r.endReadingArray(NF); break; case 8: r.readObject(NF, [&](std::optional<std::string_view>, int) { r.readInt(NF); return true; }); break; } });
}
// the position can be stored and restored
extern "C" void h_json_reposition() {
	std::string a = symStr(1, "a"); sym_assume(a[0] >= 0x20 && a[0] != '"' && a[0] != '\\'); int8_t n = (int8_t)sym_int(8, "n");
	std::string t = "[\"" + a + "\", " + decimal(n) + ", true]"; Exact in(t); Json::Input r(in); r.startReadingArray(NF); r.nextArrayElement(NF); auto l0 = r.storePosition(NF);
	std::string s1(r.readString(NF)); r.nextArrayElement(NF); auto l1 = r.storePosition(NF); int64_t n1 = r.readInt(NF); r.restorePosition(NF, l0); std::string s2(r.readString(NF)); r.restorePosition(NF, l1); int64_t n2 = r.readInt(NF);
	sym_check(eqBytes(s1, a) && eqBytes(s2, a) && n1 == n && n2 == n, "reading again from a stored position gives the same"); sym_check(r.nextArrayElement(NF) && r.readBool(NF) && !r.nextArrayElement(NF), "rest"); sym_cover("re");
}

// ------------------------------------------------------------------ long texts, large containers, deep nesting: the shape is from a list, single bytes and numbers are symbolic
static std::string longText(size_t n, size_t at, const std::string& c) { std::string s(n, ' '); for (size_t i = 0; i < n; i++) s[i] = char('a' + i % 23); if (at < n && !c.empty()) s[at] = c[0]; return s; }
static const size_t LONG[] = {15, 16, 17, 31, 32, 64, 127, 128, 255, 256, 257, 511, 1024, 2048, 4096, 10000, 32768, 65536, 70000};
extern "C" void h_json_long_string() {
	unsigned k = choice(19, "size"); size_t n = LONG[k]; size_t at = choice(3, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1; if (n > 5000) { sym_assume(at == n - 1); } std::string c = symStr(1, "c"); if (n > 300) sym_assume(c[0] == '"' || c[0] == 'x' || c[0] == '\n' || c[0] == '\x1f' || c[0] == '\xfe'); std::string s = longText(n, at, c), out;
	bool before = flag("before"); { Json::Output o(out); auto a = o.writeArray(3); if (before) a.writeString("q\n"); a.writeString(s); a.writeString("z\""); }
	JVal v; size_t i = before; sym_check(JRef::parse(out, v) && v.k == JVal::ARR && v.a.size() == i + 2 && eqBytes(v.a[i].s, s) && v.a[i + 1].s == "z\"", "another reader decodes the string");
	Exact in(out); Json::Input r(in); r.startReadingArray(NF); if (before) sym_check(r.nextArrayElement(NF) && r.readString(NF) == "q\n", "previous element"); sym_check(r.nextArrayElement(NF) && r.identifyType(NF) == IStructuredInput::TYPE_STRING, "next"); sym_check(eqBytes(r.readString(NF), s), "string read back is the string written"); sym_check(r.nextArrayElement(NF) && r.readString(NF) == "z\"" && !r.nextArrayElement(NF), "following element intact"); sym_check(r.good, "no error"); sym_cover("long");
}
struct Many : Serialisable<Many> { std::vector<int32_t> nums = key<"nums">; std::map<std::string, std::string> dict = key<"dict">; std::vector<Inner> inners = key<"inners">; std::vector<std::vector<std::vector<std::vector<int16_t>>>> deep = key<"deep">; Optional<std::vector<std::string>> strs = key<"strs">; int16_t end = key<"end"> = 7; };
static const size_t MANY[] = {3, 4, 5, 8, 9, 10, 16, 17, 33, 64, 100, 128, 129, 255, 256, 257, 300, 1000};
extern "C" void h_json_many() {
	unsigned k = choice(18, "size"); size_t n = MANY[k]; unsigned what = choice(5, "what"); if (what == 1 || what == 2) sym_assume(n <= 300); Many x; x.end = (int16_t)sym_int(4, "end") - 5; int16_t sym = (int16_t)sym_int(4, "num") - 5; size_t at = flag("at") ? n - 1 : n / 2;
	for (size_t i = 0; i < n; i++) { int v = i == at ? sym : int(i * 7) - 100; switch (what) { case 0: x.nums.push_back(v); break; case 1: x.dict["m" + decimal((int)i)] = decimal(v); break; case 2: x.inners.emplace_back(); x.inners.back().num = (int16_t)v; x.inners.back().text = decimal((int)i); break; case 3: x.deep.resize(2); x.deep[1].resize(i < 3 ? i + 1 : 3); x.deep[1].back().resize(2); x.deep[1].back()[i & 1].push_back((int16_t)v); break; case 4: if (!x.strs) x.strs = std::vector<std::string>(); x.strs->push_back(i == at ? symStr(1, "s") : decimal(v)); break; } }
	std::string out = x.serialise<Json>(); JVal v; sym_check(JRef::parse(out, v) && v.k == JVal::OBJ && v.n.size() == 6, "valid JSON with all members"); auto m = member(v, what == 0 ? "nums" : what == 1 ? "dict" : what == 2 ? "inners" : what == 3 ? "deep" : "strs"); sym_check(m && m->a.size() == (what == 3 ? 2 : n), "all elements are written");
	Many y; if (flag("dirty")) { y.nums.assign(n + 2, 5); y.dict["m1"] = "old"; y.dict["old"] = "x"; y.inners.resize(3); dirty(y.inners[1]); y.deep.resize(4); y.deep[0].resize(2); y.strs = std::vector<std::string>(n, "old"); y.end = 99; }
	Exact in(out); sym_check(y.deserialise<Json>(std::string_view(in)), "reading succeeds"); sym_check(x.nums == y.nums, "numbers"); sym_check(x.dict == y.dict, "map"); sym_check(x.inners.size() == y.inners.size(), "objects"); for (size_t i = 0; i < x.inners.size(); i++) sym_check(same(x.inners[i], y.inners[i]), "objects"); sym_check(x.deep == y.deep, "nested lists"); sym_check(bool(x.strs) == bool(y.strs) && (!x.strs || x.strs->size() == y.strs->size()), "optional list"); if (x.strs) for (size_t i = 0; i < x.strs->size(); i++) sym_check(eqBytes((*x.strs)[i], (*y.strs)[i]), "texts"); sym_check(x.end == y.end, "the last member"); sym_cover("many");
}
static std::string repeated(size_t n, const std::string& s) { std::string r; for (size_t i = 0; i < n; i++) r += s; return r; }
extern "C" void h_json_long_decode() { // long whitespace and long tokens
	static const size_t runs[] = {1, 2, 15, 16, 17, 64, 255, 256, 300, 1000}; static const char* blank[] = {" ", "\n", "\t", "\r\n", " \n\t"}; size_t run = runs[choice(10, "run")]; std::string w = repeated(run, blank[choice(5, "blank")]); int at = choice(7, "at"); int slot = 0; auto sp = [&] { return slot++ == at ? w : std::string(); }; int16_t v = (int16_t)sym_int(4, "v") - 5;
	static const char* units[] = {"\\u00e9", "\\ud83d\\ude00", "\\n", "q\\\"", "\\\\", "\xc3\xa9"}; static const char* means[] = {"\xc3\xa9", "\xf0\x9f\x98\x80", "\n", "q\"", "\\", "\xc3\xa9"}; unsigned u = at ? 0 : choice(6, "unit"); size_t n = runs[at ? 2 : choice(10, "units")];
	std::string t = sp(); t += "["; t += sp(); t += "\"" + repeated(n, units[u]) + "\""; t += sp(); t += ","; t += sp(); t += "{"; t += sp(); t += "\"k\""; t += sp(); t += ":" + decimal(v); t += sp(); t += "}]";
	Exact in(t); Json::Input r(in); r.startReadingArray(NF); sym_check(r.nextArrayElement(NF) && r.identifyType(NF) == IStructuredInput::TYPE_STRING, "string identified"); sym_check(r.readString(NF) == repeated(n, means[u]), "long strings are decoded"); sym_check(r.nextArrayElement(NF) && r.identifyType(NF) == IStructuredInput::TYPE_OBJECT, "object identified");
	int seen = 0; r.readObject(NF, [&](std::optional<std::string_view> nm, int) { seen++; sym_check(nm && *nm == "k" && r.readInt(NF) == v, "member"); return true; }); sym_check(seen == 1 && !r.nextArrayElement(NF) && r.good, "read to the end"); sym_cover("decoded");
}
extern "C" void h_json_skip_long() { // long and deep unknown values
	static const size_t runs[] = {3, 8, 16, 33, 64, 127, 128, 129, 255, 256, 257, 1000, 5000}; size_t n = runs[choice(13, "n")]; std::string c = symStr(1, "c"); sym_assume((unsigned char)c[0] >= 0x20 && c[0] != '"' && c[0] != '\\'); std::string x;
	switch (choice(7, "what")) { case 0: x = repeated(n, "[") + repeated(n, "]"); break; case 1: x = repeated(n, "{\"a\":") + "1" + repeated(n, "}"); break; case 2: x = "\"" + longText(n, n / 2, c) + "\""; break; case 3: x = "[" + repeated(n, "1,") + "2]"; break; case 4: x = "{" + repeated(n, "\"q}\":[],") + "\"" + c + "\":{}}"; break; case 5: x = "\"" + repeated(n, "\\\\\\\"") + "\""; break; case 6: x = "[" + repeated(n, "[\"]\"],\n ") + "{}]"; break; }
	std::string t = "{\"unknown\":" + x + ",\"num\":3, \"other\" : " + x + " ,\"text\":\"" + c + "\"}"; Inner i; dirty(i); Exact in(t); sym_check(i.deserialise<Json>(std::string_view(in)), "reading succeeds"); sym_check(i.num == 3 && eqBytes(i.text, c), "members around unknown ones are read"); sym_cover("skipped");
}
