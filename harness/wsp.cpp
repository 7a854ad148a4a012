// JSON-WSP descriptions: valid JSON, every method under its path with its arguments and result, every type once
#include "rpcapi.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json.hpp"
#include "bomba_json_wsp_description.hpp"
#include "jsonref.hpp"
struct Inner : Serialisable<Inner> { int deep = key<"deep">; };
struct Middle : Serialisable<Middle> { Inner inner = key<"inner">; std::vector<Inner> more = key<"more">; std::map<std::string, int> map = key<"map">; };
struct Only : Serialisable<Only> { bool flag = key<"flag">; };
struct Outer : Serialisable<Outer> { Bomba::Optional<Middle> middle = key<"middle">; std::vector<Only> list = key<"list">; std::array<double, 2> pair = key<"pair">; std::vector<std::vector<std::string>> texts = key<"texts">; };
struct Tree : Serialisable<Tree> { std::unique_ptr<Tree> left = key<"left">; int value = key<"value">; };
struct Low : RpcObject<Low> { RpcMember<[] (Outer o = name("outer"), std::vector<Inner> v = name("inners"), bool b = name("b")) { return Only(); }> big = child<"big">; RpcMember<[] { }> nothing = child<"nothing">; };
struct Mid : RpcObject<Mid> { RpcMember<[] (int a = name("a")) { return std::optional<std::string>(); }> opt = child<"opt">; };
struct Trees : RpcObject<Trees> { RpcMember<[] (int x = name("x")) { return Tree(); }> tree = child<"tree">; };
static bool unique(const JVal& v) { for (size_t i = 0; i < v.n.size(); i++) for (size_t j = 0; j < i; j++) if (eqBytes(v.n[i], v.n[j])) return false; for (auto& x : v.a) if (!unique(x)) return false; return true; }
static bool isText(const JVal* v, std::string_view s) { return v && v->k == JVal::STR && eqBytes(v->s, s); }
static void typeKnown(const JVal& t, const JVal& types) { if (t.k == JVal::ARR) { sym_check(t.a.size() == 1, "an array has a type of elements"); if (!t.a.empty()) typeKnown(t.a[0], types); return; } if (t.k == JVal::NUL) return; sym_check(t.k == JVal::STR, "a type is a name"); for (auto b : {"number", "string", "boolean", "object"}) if (t.s == b) return; sym_check(member(types, t.s), "a type that is used is described"); }
// the parts common to all descriptions
static bool frame(const std::string& text, std::string_view url, std::string_view name, JVal& d) {
	bool ok = JRef::parse(text, d); sym_check(ok && d.k == JVal::OBJ, "a description is valid JSON"); if (!ok) return false; sym_check(unique(d), "each name is described once"); sym_check(isText(member(d, "type"), "jsonwsp/description") && isText(member(d, "version"), "1.0") && isText(member(d, "servicename"), name) && isText(member(d, "url"), url), "the service is named"); const JVal* types = member(d, "types"); const JVal* methods = member(d, "methods"); ok = types && methods && types->k == JVal::OBJ && methods->k == JVal::OBJ; sym_check(ok, "there are types and methods"); if (!ok) return false;
	for (auto& t : types->a) { sym_check(t.k == JVal::OBJ, "a type has members"); for (auto& m : t.a) typeKnown(m, *types); }
	for (auto& m : methods->a) { const JVal* p = member(m, "params"); const JVal* r = member(m, "ret_info"); const JVal* doc = member(m, "doc_lines"); bool has = p && r && doc && p->k == JVal::OBJ && doc->k == JVal::ARR && member(*r, "type"); sym_check(has, "a method has arguments and a result"); if (!has) return false; typeKnown(*member(*r, "type"), *types); for (size_t i = 0; i < p->a.size(); i++) { auto& x = p->a[i]; const JVal* o = member(x, "def_order"); const JVal* t = member(x, "type"); const JVal* opt = member(x, "optional"); bool good = o && t && opt && o->k == JVal::NUM && opt->k == JVal::BOOL; sym_check(good, "an argument has its order, type and optionality"); if (!good) return false; sym_check(o->s == std::to_string(i + 1), "arguments are in order"); typeKnown(*t, *types); } } return true;
}
static std::string typeText(const JVal& t) { return t.k == JVal::ARR ? "[" + (t.a.empty() ? std::string() : typeText(t.a[0])) + "]" : t.k == JVal::NUL ? "null" : t.s; }
static std::string signature(const JVal& m) { std::string s = "("; const JVal* p = member(m, "params"); for (size_t i = 0; i < p->a.size(); i++) s += (i ? "," : "") + p->n[i] + ":" + typeText(*member(p->a[i], "type")) + (member(p->a[i], "optional")->b ? "?" : ""); return s + ")" + typeText(*member(*member(m, "ret_info"), "type")); }
static std::string members(const JVal& t) { std::string s; for (size_t i = 0; i < t.a.size(); i++) s += (i ? "," : "") + t.n[i] + ":" + typeText(t.a[i]); return s; }
static const char* LOWBIG = "(outer:Outer?,inners:[Inner]?,b:boolean?)Only";
extern "C" void h_wsp_static() { // an object with nested ones, types within types
	std::string url = symStrUpTo(sym_param("n", 2), "url"), service = symStrUpTo(1, "name"); Low low, other; Mid mid; DynamicRpcObject top, middle; middle.add("low", RpcLambdaHolder::nonOwning(low)); middle.add("opt", RpcLambdaHolder::nonOwning(mid)); top.add("mid", RpcLambdaHolder::nonOwning(middle)); top.add("other", RpcLambdaHolder::nonOwning(other)); top.add("map", RpcLambdaHolder([](std::map<std::string, int> m = name("m")) { return 1.5; })); JVal d; if (!frame(describeInJsonWsp<std::string>(top, url, service), url, service, d)) return; const JVal& m = *member(d, "methods"); const JVal& t = *member(d, "types");
	static const char* METHOD[] = {"mid.low.big", "mid.low.nothing", "mid.opt.opt", "other.big", "other.nothing", "map"}; static const char* SIG[] = {LOWBIG, "()null", "(a:number?)string", LOWBIG, "()null", "(m:object?)number"}; sym_check(m.a.size() == 6, "there are as many methods as there are"); for (int i = 0; i < 6; i++) { const JVal* x = member(m, METHOD[i]); sym_check(x, "a method is described by its path"); if (x) sym_check(signature(*x) == SIG[i], "a method's arguments and result are described"); }
	sym_check(t.a.size() == 4, "types that are used are described"); static const char* TYPE[] = {"Outer", "Middle", "Inner", "Only"}; static const char* MEM[] = {"middle:Middle,list:[Only],pair:[number],texts:[[string]]", "inner:Inner,more:[Inner],map:object", "deep:number", "flag:boolean"}; for (int i = 0; i < 4; i++) { const JVal* x = member(t, TYPE[i]); sym_check(x && members(*x) == MEM[i], "a type's members are described"); } sym_cover("static");
}
extern "C" void h_wsp_tree() { Trees trees; JVal d; if (!frame(describeInJsonWsp<std::string>(trees, "u", "n"), "u", "n", d)) return; const JVal* t = member(*member(d, "types"), "Tree"); sym_check(t && members(*t) == "left:Tree,value:number", "a type containing itself is described"); sym_cover("tree"); }
extern "C" void h_wsp_dynamic() { // methods added at run time under any names
	DynamicRpcObject root, sub; std::string n1 = symStr(choice(sym_param("n", 2), "n1") + 1, "a"), n2 = symStr(1, "b"), n3 = symStr(1, "c"); sym_assume(!eqBytes(n1, n2) && (n2[0] & 0x80) == 0); sub.add(n3, RpcLambdaHolder([](int x = name("x")) { return x; })); root.add(n1, RpcLambdaHolder([](std::string s = name("s"), double y = name("y")) { return s.size() > 1; })); Low low; bool withStatic = flag("static"); if (withStatic) root.add(n2, RpcLambdaHolder::nonOwning(low)); else root.add(n2, RpcLambdaHolder::nonOwning(sub));
	std::string full = n2 + "." + n3; sym_assume(!eqBytes(full, n1)); std::string text = describeInJsonWsp<std::string>(root, "u", "n"); JVal d; if (!frame(text, "u", "n", d)) return; const JVal& m = *member(d, "methods"); const JVal* a = member(m, n1); sym_check(a && signature(*a) == "(s:string?,y:number?)boolean", "a method is described by its name"); if (withStatic) { const JVal* b = member(m, n2 + ".big"); sym_check(m.a.size() == 3 && b && signature(*b) == LOWBIG, "methods of nested objects are described"); } else { const JVal* b = member(m, full); sym_check(m.a.size() == 2 && b && signature(*b) == "(x:number?)number", "methods of nested objects are described"); } sym_cover(withStatic ? "static" : "dynamic");
}
extern "C" void h_wsp_deep() { // objects nested to any depth, methods before and behind the nested ones
	int depth = 1 + choice(sym_param("depth", 5), "depth"); std::vector<DynamicRpcObject> levels(depth); std::vector<std::string> paths; std::string prefix, last; for (int i = 0; i < depth; i++) { levels[i].add("before", RpcLambdaHolder([] { })); paths.push_back(prefix + "before"); last = symStr(i == 0 ? 1 + choice(2, "length") : 1, "object"); for (char c : last) sym_assume((unsigned char)c >= ' ' && (unsigned char)c < 127 && c != '.'); if (i + 1 < depth) { prefix += last + "."; } else levels[i].add(last, RpcLambdaHolder([](int x = name("x")) { return x; })), paths.push_back(prefix + last); if (i + 1 < depth) levels[i].add(last, RpcLambdaHolder::nonOwning(levels[i + 1])); }
	prefix.clear(); for (int i = 0; i < depth; i++) { levels[i].add("behind", RpcLambdaHolder([](bool b = name("b")) { return b; })); paths.push_back(prefix + "behind"); if (i + 1 < depth) { prefix += levels[i].childName(&levels[i + 1]).first; prefix += '.'; } }
	JVal d; if (!frame(describeInJsonWsp<std::string>(levels[0], "u", "n"), "u", "n", d)) return; const JVal& m = *member(d, "methods"); sym_check(m.a.size() == paths.size(), "each method is described once"); for (auto& p : paths) { const JVal* x = member(m, p); sym_check(x, "a method is described by its path from the root"); if (!x) continue; const char* want = p.ends_with("before") ? "()null" : p.ends_with("behind") ? "(b:boolean?)boolean" : "(x:number?)number"; sym_check(signature(*x) == want, "a method's arguments and result are described"); } sym_cover("deep");
}
// a callable described by hand, with optional and required arguments
struct Hand : IRemoteCallable { std::string text; bool optional[3]; int kinds[3]; bool result = false; int args;
	void describe(IPropertyDescriptionFiller& f, int kind) const { switch (kind) { case 0: f.addInteger(); break; case 1: f.addString(); break; case 2: f.addArray([](IPropertyDescriptionFiller& s) { s.addArray([](IPropertyDescriptionFiller& t) { t.addFloat(); }); }); break; case 3: f.addArray([](IPropertyDescriptionFiller& s) { s.addOptional([](IPropertyDescriptionFiller& t) { t.addBoolean(); }); }); break; } }
	void generateDescription(IRemoteCallableDescriptionFiller& f) const override { f.addMethod("m", text, [&](IPropertyDescriptionFiller& p) { static const char* N[] = {"p", "q", "r"}; for (int i = 0; i < args; i++) p.addMember(N[i], i ? "" : text, [&] { if (optional[i]) p.addOptional([&](IPropertyDescriptionFiller& s) { describe(s, kinds[i]); }); else describe(p, kinds[i]); }); }, [&](IPropertyDescriptionFiller& r) { if (result) r.addMember("", text, [&] { describe(r, kinds[0]); }); }); } };
extern "C" void h_wsp_hand() { Hand h; h.args = sym_param("args", 2); h.text = symStrUpTo(2, "text"); static const char* T[] = {"number", "string", "[[number]]", "[boolean]"}; h.result = flag("result"); std::string want = "("; for (int i = 0; i < h.args; i++) { h.optional[i] = flag("optional"); h.kinds[i] = choice(i ? 4 : 3, "kind"); want += std::string(i ? "," : "") + "pqr"[i] + ":" + T[h.kinds[i]] + (h.optional[i] ? "?" : ""); } want += std::string(")") + (h.result ? T[h.kinds[0]] : "null"); JVal d; if (!frame(describeInJsonWsp<std::string>(h, "u", "n"), "u", "n", d)) return; const JVal* m = member(*member(d, "methods"), "m"); sym_check(m && signature(*m) == want, "arguments and results are described as they are"); if (!m) return; auto doc = [&](const JVal& v) { const JVal* l = member(v, "doc_lines"); sym_check(l && (h.text.empty() ? l->a.empty() : l->a.size() == 1 && eqBytes(l->a[0].s, h.text)), "documentation is included"); }; doc(*m); doc(*member(*member(*m, "params"), "p")); if (h.result) doc(*member(*m, "ret_info")); sym_cover("hand"); }
extern "C" void h_wsp_many() { // many methods, long names
	static const int N[] = {9, 10, 11, 33, 64, 100}; int n = N[choice(6, "n")]; int len = choice(3, "length") * 150; DynamicRpcObject root; std::vector<DynamicRpcObject> subs(n / 3); std::string c = symStr(1, "c"); auto label = [&](int i) { return (i == n / 2 ? c + "q" : std::string()) + "m" + decimal(i) + (i % 10 == 3 ? std::string(len, 'x') : ""); }; for (int i = 0; i < n; i++) if (i % 3 || i / 3 >= n / 3) root.add(label(i), RpcLambdaHolder([](int x = name("x"), bool b = name("b")) { return b ? x : 0; })); else { subs[i / 3].add("a", RpcLambdaHolder([](std::string s = name("s")) { })); subs[i / 3].add("b", RpcLambdaHolder([] { return true; })); root.add(label(i), RpcLambdaHolder::nonOwning(subs[i / 3])); }
	std::string url(len, 'u'); JVal d; if (!frame(describeInJsonWsp<std::string>(root, url, "n"), url, "n", d)) return; const JVal& m = *member(d, "methods"); sym_check((int)m.a.size() == n + n / 3, "each method is described once"); for (int i = 0; i < n; i++) if (i % 3 || i / 3 >= n / 3) { const JVal* x = member(m, label(i)); sym_check(x && signature(*x) == "(x:number?,b:boolean?)number", "a method is described by its path"); } else { const JVal* x = member(m, label(i) + ".a"); const JVal* y = member(m, label(i) + ".b"); sym_check(x && y && signature(*x) == "(s:string?)null" && signature(*y) == "()boolean", "methods of nested objects are described"); } sym_cover("many");
}
// types that are used only within containers of all kinds, types within each other
struct InArray : Serialisable<InArray> { int x = key<"x">; };
struct InArr : Serialisable<InArr> { int y = key<"y">; };
struct InMap : Serialisable<InMap> { bool x = key<"x">; };
struct InList : Serialisable<InList> { std::string x = key<"x">; };
struct InPtr : Serialisable<InPtr> { double x = key<"x">; };
struct InShared : Serialisable<InShared> { std::vector<int> x = key<"x">; };
struct InOpt : Serialisable<InOpt> { std::vector<std::string> x = key<"x">; };
struct InNested : Serialisable<InNested> { std::array<bool, 3> x = key<"x">; };
struct Holds : Serialisable<Holds> { std::array<InArray, 2> a = key<"a">; std::map<std::string, InMap> b = key<"b">; std::vector<InList> c = key<"c">; std::unique_ptr<InPtr> d = key<"d">; std::shared_ptr<InShared> e = key<"e">; Bomba::Optional<InOpt> f = key<"f">; std::vector<std::array<InNested, 2>> g = key<"g">; };
struct Ping : Serialisable<Ping> { std::vector<Ping> more = key<"more">; std::map<std::string, Ping> named = key<"named">; std::vector<std::vector<Ping>> rows = key<"rows">; int x = key<"x">; };
static constexpr const char* PING = "more:[Ping],named:object,rows:[[Ping]],x:number";
struct OnlyArray : RpcObject<OnlyArray> { RpcMember<[] (std::array<InArray, 3> a = name("a")) { }> f = child<"f">; };
struct OnlyArr : RpcObject<OnlyArr> { RpcMember<[] (InArr a = name("a")) { }> f = child<"f">; };
struct OnlyMap : RpcObject<OnlyMap> { RpcMember<[] (int x = name("x")) { return std::map<std::string, InMap>(); }> f = child<"f">; };
struct OnlyList : RpcObject<OnlyList> { RpcMember<[] (int x = name("x")) { return std::vector<std::vector<InList>>(); }> f = child<"f">; };
struct OnlyOpt : RpcObject<OnlyOpt> { RpcMember<[] () { return std::optional<InOpt>(); }> f = child<"f">; };
struct OnlyHolds : RpcObject<OnlyHolds> { RpcMember<[] () { return std::vector<Holds>(); }> f = child<"f">; };
struct OnlyPing : RpcObject<OnlyPing> { RpcMember<[] (std::vector<Ping> p = name("p")) { }> f = child<"f">; };
extern "C" void h_wsp_containers() {
	struct Kind { const char *sig; std::vector<std::pair<const char*, const char*>> types; };
	static const Kind K[] = {{"(a:[InArray]?)null", {{"InArray", "x:number"}}}, {"(x:number?)object", {{"InMap", "x:boolean"}}}, {"(x:number?)[[InList]]", {{"InList", "x:string"}}}, {"()InOpt", {{"InOpt", "x:[string]"}}},
		{"()[Holds]", {{"Holds", "a:[InArray],b:object,c:[InList],d:InPtr,e:InShared,f:InOpt,g:[[InNested]]"}, {"InArray", "x:number"}, {"InMap", "x:boolean"}, {"InList", "x:string"}, {"InPtr", "x:number"}, {"InShared", "x:[number]"}, {"InOpt", "x:[string]"}, {"InNested", "x:[boolean]"}}}, {"(p:[Ping]?)null", {{"Ping", PING}}}, {"(a:InArr?)null", {{"InArr", "y:number"}}}};
	OnlyArray a; OnlyMap b; OnlyList c; OnlyOpt d; OnlyHolds e; OnlyPing f; OnlyArr g; IRemoteCallable* objects[] = {&a, &b, &c, &d, &e, &f, &g}; int i = choice(7, "first"), j = choice(8, "second"); std::string n = symStr(1, "n"); sym_assume(n[0] != 'z'); DynamicRpcObject root; root.add(n, RpcLambdaHolder::nonOwning(*objects[i])); if (j < 7) { if (j == i) root.add("z", RpcLambdaHolder::nonOwning(*objects[i])); else root.add("z", RpcLambdaHolder::nonOwning(*objects[j])); }
	for (int times = 0; times < 2; times++) { JVal v; if (!frame(describeInJsonWsp<std::string>(root, "u", "n"), "u", "n", v)) return; const JVal& m = *member(v, "methods"); const JVal& t = *member(v, "types"); sym_check(m.a.size() == (j < 7 ? 2u : 1u), "each method is described once"); const JVal* x = member(m, n + ".f"); sym_check(x && signature(*x) == K[i].sig, "a method's arguments and result are described"); if (j < 7) { const JVal* y = member(m, "z.f"); sym_check(y && signature(*y) == K[j].sig, "a method's arguments and result are described"); }
		std::map<std::string, std::string> want; for (auto& [n, m] : K[i].types) want[n] = m; if (j < 7) for (auto& [n, m] : K[j].types) want[n] = m; sym_check(t.a.size() == want.size(), "exactly the types that are used are described"); for (auto& [n, m] : want) { const JVal* x = member(t, n); sym_check(x && members(*x) == m, "a type's members are described"); } }
	sym_cover("containers");
}
