// Reflection: objects of any layout have their members found where they are
#include "util.hpp"
#include <array>
#include <optional>
#include "bomba_core.hpp"
#include "bomba_json.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_object.hpp"
using namespace Bomba;
using Json = BasicJson<std::string>; using Bin = BinaryFormat<std::string, uint16_t>; static constexpr auto NF = SerialisationFlags::NONE;
// A member serialised alone: an independent account of what the object's serialisation consists of
template <typename T> static std::string bin(const T& v) { std::string b; Bin::Output o(b); TypedSerialiser<T>::serialiseMember(o, v, SerialisationFlags::OBJECT_LAYOUT_KNOWN); return b; }
static bool plain = false; // values whose decimal text takes few paths
template <typename T> static void randomise(T& v) {
	if constexpr (std::is_same_v<T, bool>) v = sym_int(1, "bool");
	else if constexpr (std::is_integral_v<T>) { if (plain) { int8_t x = (int8_t)sym_int(8, "int"); sym_assume(x > (std::is_signed_v<T> ? -12 : -1) && x < 12); v = (T)x; } else v = (T)sym_int(8 * sizeof(T), "int"); }
	else if constexpr (std::is_same_v<T, float>) { if (plain) v = 2.25f; else v = (float)(int8_t)sym_int(8, "float") / 4; }
	else if constexpr (std::is_same_v<T, double>) { if (plain) v = -1.5; else v = (double)(int8_t)sym_int(8, "double") / 4; }
	else if constexpr (std::is_same_v<T, std::string>) { v = symStr(plain ? 1 : 2, "string"); if (plain) sym_assume(v[0] > 0x1f && v[0] < 0x7f && v[0] != 0x22 && v[0] != 0x5c); }
	else if constexpr (requires { v.members([](auto&, const char*) {}); }) v.members([](auto& m, const char*) { randomise(m); });
	else if constexpr (requires { v.reset(); typename T::element_type; }) { v.reset(new typename T::element_type()); randomise(*v); }
	else if constexpr (requires { v.reset(); v.has_value(); }) { v.emplace(); randomise(*v); }
	else if constexpr (requires { v.resize(2); }) { v.resize(2); for (auto& m : v) randomise(m); }
	else if constexpr (requires { typename T::mapped_type; }) { randomise(v["k"]); }
	else if (v.size() > 4) { int i = 0; for (auto& m : v) { if constexpr (std::is_integral_v<std::decay_t<decltype(m)>>) m = (std::decay_t<decltype(m)>)(i + 3); i++; } randomise(v[v.size() / 2]); if (!plain) { randomise(v[0]); randomise(v[v.size() - 1]); } } // large ones: few symbolic elements
	else for (auto& m : v) randomise(m);
}
#define M(NAME) f(NAME, #NAME);
#define MEMBERS(...) template <typename F> void members(F f) { __VA_ARGS__ } template <typename F> void others(F) {}
#define OTHERS(...) template <typename F> void members(F f) { __VA_ARGS__ } template <typename F> void others(F f)
struct Padded : Serialisable<Padded> { bool a = key<"a">; int64_t b = key<"b">; int8_t c = key<"c">; double d = key<"d">; int16_t e = key<"e">; float g = key<"g">; uint8_t h = key<"h">; MEMBERS(M(a) M(b) M(c) M(d) M(e) M(g) M(h)) };
struct Small : Serialisable<Small> { int8_t a = key<"a">; MEMBERS(M(a)) };
struct Bytes : Serialisable<Bytes> { bool a = key<"a">; bool b = key<"b">; int8_t c = key<"c">; uint8_t d = key<"d">; bool e = key<"e">; int16_t g = key<"g">; bool h = key<"h">; MEMBERS(M(a) M(b) M(c) M(d) M(e) M(g) M(h)) };
// Default values equal to the values the reflection uses to find what is not initialised
struct Garbage : Serialisable<Garbage> { int8_t a = key<"a"> = 13; int8_t b = key<"b"> = -13; int8_t c = key<"c"> = 13; int16_t d = key<"d"> = 0x0d0d; int16_t e = key<"e"> = (int16_t)0xf3f3; int32_t g = key<"g"> = 0x0d0d0d0d; int32_t h = key<"h"> = (int32_t)0xf3f3f3f3; int64_t i = key<"i"> = 0x0d0d0d0d0d0d0d0d; int8_t j = key<"j"> = 13; int64_t k = key<"k"> = (int64_t)0xf3f3f3f3f3f3f3f3; int8_t l = key<"l"> = -13; MEMBERS(M(a) M(b) M(c) M(d) M(e) M(g) M(h) M(i) M(j) M(k) M(l)) };
// Members that aren't reflected, initialised or not
struct Mixed : Serialisable<Mixed> { int32_t x0 = 5; int8_t a = key<"a">; std::string x1 = "xxxxxxxxxxxxxxxxxxxxxxx"; int32_t b = key<"b"> = 3; char x2[16]; bool c = key<"c"> = true; double x3; int8_t x4 = 13; int8_t d = key<"d"> = -13; int8_t x5 = -13; std::string e = key<"e"> = "default"; int64_t x6; int16_t g = key<"g">; std::vector<int> x7 = {1, 2};
	OTHERS(M(a) M(b) M(c) M(d) M(e) M(g)) { f(x0, "x0"); f(x1, "x1"); f(x4, "x4"); f(x5, "x5"); f(x7, "x7"); } };
// Types with parts left uninitialised
struct Texts : Serialisable<Texts> { std::string a = key<"a">; std::string b = key<"b"> = "bb"; int8_t c = key<"c">; std::string d = key<"d"> = "a text that is too long to be kept inside"; std::array<int8_t, 3> e = key<"e">; std::string g = key<"g">; MEMBERS(M(a) M(b) M(c) M(d) M(e) M(g)) };
struct Inner : Serialisable<Inner> { int8_t p = key<"p"> = 13; int32_t q = key<"q"> = -13; MEMBERS(M(p) M(q)) };
struct Containers : Serialisable<Containers> { std::vector<int16_t> a = key<"a">; int8_t b = key<"b">; std::map<std::string, int8_t> c = key<"c">; int8_t d = key<"d">; Optional<int32_t> e = key<"e">; int8_t g = key<"g">; std::unique_ptr<Inner> h = key<"h">; int8_t i = key<"i">; Inner j = key<"j">; int8_t k = key<"k">; std::array<Inner, 2> l = key<"l">; int8_t m = key<"m">; std::vector<std::vector<std::string>> n = key<"n">; MEMBERS(M(a) M(b) M(c) M(d) M(e) M(g) M(h) M(i) M(j) M(k) M(l) M(m) M(n)) };
struct Optionals : Serialisable<Optionals> { bool z = key<"z">; Optional<bool> a = key<"a">; Optional<int64_t> b = key<"b">; Optional<std::string> c = key<"c">; Optional<int8_t> d = key<"d">; Optional<Inner> e = key<"e">; Optional<std::vector<int8_t>> g = key<"g">; Optional<int8_t> h = key<"h">; MEMBERS(M(z) M(a) M(b) M(c) M(d) M(e) M(g) M(h)) };
struct Defaults : Serialisable<Defaults> { Optional<int32_t> a = key<"a"> = 7; Optional<std::string> b = key<"b"> = "b"; std::string c = key<"c">.init(3, 'c'); std::vector<int16_t> d = key<"d">.init(2, (int16_t)9); bool e = key<"e"> = true; double g = key<"g"> = 1.5; MEMBERS(M(a) M(b) M(c) M(d) M(e) M(g)) };
// Other base classes
struct Plain { int64_t x = 77; int8_t y = 13; };
struct Virtual { std::string x = "virtual"; int8_t y = -13; virtual ~Virtual() = default; };
struct After : Serialisable<After>, Plain { int8_t a = key<"a">; int64_t b = key<"b">; OTHERS(M(a) M(b)) { f(x, "x"); f(y, "y"); } };
struct Before : Virtual, Serialisable<Before> { int8_t a = key<"a">; int64_t b = key<"b">; std::string c = key<"c">; bool d = key<"d"> = true; OTHERS(M(a) M(b) M(c) M(d)) { f(x, "x"); f(y, "y"); } };
struct Both : Serialisable<Both>, Virtual { int8_t a = key<"a"> = 13; std::string b = key<"b">; OTHERS(M(a) M(b)) { f(x, "x"); f(y, "y"); } };
struct Heir : Padded { int64_t x = 9; bool y = true; template <typename F> void others(F f) { f(x, "x"); f(y, "y"); } };
struct Same : Serialisable<Same> { Inner a = key<"a">; Inner b = key<"b">; std::array<Inner, 1> c = key<"c">; MEMBERS(M(a) M(b) M(c)) };
// Many members, large ones
struct Wide : Serialisable<Wide> { int8_t m0 = key<"m0">; int64_t m1 = key<"m1">; bool m2 = key<"m2">; std::string m3 = key<"m3">; int16_t m4 = key<"m4">; Inner m5 = key<"m5">; double m6 = key<"m6">; std::vector<int8_t> m7 = key<"m7">; uint8_t m8 = key<"m8">; Optional<int32_t> m9 = key<"m9">; int8_t m10 = key<"m10">; int64_t m11 = key<"m11">; bool m12 = key<"m12">; std::string m13 = key<"m13">; int16_t m14 = key<"m14">; Inner m15 = key<"m15">; double m16 = key<"m16">; std::vector<int8_t> m17 = key<"m17">; uint8_t m18 = key<"m18">; Optional<int32_t> m19 = key<"m19">; int8_t m20 = key<"m20">; int64_t m21 = key<"m21">; bool m22 = key<"m22">; std::string m23 = key<"m23">; int16_t m24 = key<"m24">; Inner m25 = key<"m25">; double m26 = key<"m26">; std::vector<int8_t> m27 = key<"m27">; uint8_t m28 = key<"m28">; Optional<int32_t> m29 = key<"m29">; int8_t m30 = key<"m30">; int64_t m31 = key<"m31">; bool m32 = key<"m32">; std::string m33 = key<"m33">; int16_t m34 = key<"m34">; Inner m35 = key<"m35">; double m36 = key<"m36">; std::vector<int8_t> m37 = key<"m37">; uint8_t m38 = key<"m38">; Optional<int32_t> m39 = key<"m39">; int8_t m40 = key<"m40">; int64_t m41 = key<"m41">; bool m42 = key<"m42">; std::string m43 = key<"m43">; int16_t m44 = key<"m44">; Inner m45 = key<"m45">; double m46 = key<"m46">; std::vector<int8_t> m47 = key<"m47">; uint8_t m48 = key<"m48">; Optional<int32_t> m49 = key<"m49">; int8_t m50 = key<"m50">; int64_t m51 = key<"m51">; bool m52 = key<"m52">; std::string m53 = key<"m53">; int16_t m54 = key<"m54">; Inner m55 = key<"m55">; double m56 = key<"m56">; std::vector<int8_t> m57 = key<"m57">; uint8_t m58 = key<"m58">; Optional<int32_t> m59 = key<"m59">; int8_t m60 = key<"m60">; int64_t m61 = key<"m61">; bool m62 = key<"m62">; std::string m63 = key<"m63">; int16_t m64 = key<"m64">; Inner m65 = key<"m65">; double m66 = key<"m66">; std::vector<int8_t> m67 = key<"m67">; uint8_t m68 = key<"m68">; Optional<int32_t> m69 = key<"m69">; MEMBERS(M(m0) M(m1) M(m2) M(m3) M(m4) M(m5) M(m6) M(m7) M(m8) M(m9) M(m10) M(m11) M(m12) M(m13) M(m14) M(m15) M(m16) M(m17) M(m18) M(m19) M(m20) M(m21) M(m22) M(m23) M(m24) M(m25) M(m26) M(m27) M(m28) M(m29) M(m30) M(m31) M(m32) M(m33) M(m34) M(m35) M(m36) M(m37) M(m38) M(m39) M(m40) M(m41) M(m42) M(m43) M(m44) M(m45) M(m46) M(m47) M(m48) M(m49) M(m50) M(m51) M(m52) M(m53) M(m54) M(m55) M(m56) M(m57) M(m58) M(m59) M(m60) M(m61) M(m62) M(m63) M(m64) M(m65) M(m66) M(m67) M(m68) M(m69)) };
struct Large : Serialisable<Large> { int8_t a = key<"a">; char p0[250] = {}; int8_t b = key<"b">; int16_t c = key<"c">; char p1[70000] = {}; int32_t d = key<"d">; std::array<int64_t, 40> e = key<"e">; bool g = key<"g"> = true; std::string x0 = "x"; std::array<int8_t, 300> h = key<"h">; std::string i = key<"i">; std::array<std::array<int16_t, 20>, 20> j = key<"j">; int8_t k = key<"k"> = 13; OTHERS(M(a) M(b) M(c) M(d) M(e) M(g) M(h) M(i) M(j) M(k)) { f(x0, "x0"); } };
template <typename T> static std::string all(T& t) { std::string s; t.members([&](auto& m, const char*) { s += bin(m); }); return s; }
template <typename T> static std::string rest(T& t) { std::string s; t.others([&](auto& m, const char*) { s += bin(m); }); return s; }
template <typename T> static void whole() { // every member is written from its place and read into its place
	T t; T fresh; std::string defaults = all(fresh); sym_check(eqBytes(all(t), defaults), "default values"); std::string other = rest(fresh); randomise(t); t.others([](auto& m, const char*) { randomise(m); }); std::string want = all(t), kept = rest(t);
	std::string out = t.template serialise<Bin>(); sym_check(eqBytes(out, want), "an object is written as its members in their order"); sym_check(eqBytes(all(t), want) && eqBytes(rest(t), kept), "writing changes nothing");
	T u; Exact e(want); bool ok = u.template deserialise<Bin>(std::string_view(e)); sym_check(ok && eqBytes(all(u), want), "all members are read into their places"); sym_check(eqBytes(rest(u), other), "members that aren't reflected aren't changed");
	T copy = std::move(u); sym_check(eqBytes(copy.template serialise<Bin>(), want), "a moved object is written the same"); sym_cover("whole");
}
template <typename T> static void single() { plain = true; // one member named in JSON is the one that changes
	T t; int count = 0; t.members([&](auto&, const char*) { count++; }); int k = choice(count, "member"); T other; int i = 0; std::vector<std::string> before, text; std::string kept = rest(t); std::string value; T given;
	i = 0; t.members([&](auto& m, const char*) { before.push_back(bin(m)); i++; }); i = 0; std::string js = "{\"", want; given.members([&](auto& m, const char* n) { if (i == k) { randomise(m); js += n; js += "\":"; std::string v; { Json::Output o(v); TypedSerialiser<std::decay_t<decltype(m)>>::serialiseMember(o, m, NF); } js += v + "}"; want = bin(m); } i++; });
	Exact e(js); bool ok = t.template deserialise<Json>(std::string_view(e)); sym_check(ok, "the object is read"); i = 0; t.members([&](auto& m, const char*) { sym_check(eqBytes(bin(m), i == k ? want : before[i]), i == k ? "the member named is read" : "the others aren't changed"); i++; }); sym_check(eqBytes(rest(t), kept), "members that aren't reflected aren't changed"); sym_cover("single");
}
#define ALL(F) switch (choice(15, "class")) { case 0: F<Padded>(); break; case 1: F<Small>(); break; case 2: F<Bytes>(); break; case 3: F<Garbage>(); break; case 4: F<Mixed>(); break; case 5: F<Texts>(); break; case 6: F<Containers>(); break; case 7: F<Optionals>(); break; case 8: F<Defaults>(); break; case 9: F<After>(); break; case 10: F<Before>(); break; case 11: F<Both>(); break; case 12: F<Heir>(); break; case 13: F<Same>(); break; case 14: F<Inner>(); break; }
extern "C" void h_obj_whole() { ALL(whole) }
extern "C" void h_obj_single() { ALL(single) }
extern "C" void h_obj_large() { bool json = flag("json"); if (flag("wide")) json ? single<Wide>() : whole<Wide>(); else json ? single<Large>() : whole<Large>(); }
