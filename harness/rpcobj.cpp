// Remote objects without a network: dispatch of arguments, paths, futures, lifetime of dynamic objects
#include "rpcapi.hpp"
#include "bomba_json.hpp"
#include "bomba_binary_protocol.hpp"
using Json = BasicJson<std::string, std::string>; static constexpr auto NF = SerialisationFlags::NONE;

static std::string quoted(std::string_view s) { std::string r = "\""; r += s; return r + "\""; }
// without whitespace between tokens
static std::string compact(std::string_view s) { std::string r; bool in = false; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '"') in = !in; if (in || (s[i] != ' ' && s[i] != '\n' && s[i] != '\t' && s[i] != '\r')) r += s[i]; } return r; }
static std::string plainStr(size_t n, const char* name) { std::string s = symStr(n, name); for (char c : s) sym_assume((unsigned char)c >= 0x20 && c != '"' && c != '\\' && (unsigned char)c < 0x7f); return s; }
extern "C" void h_rpc_arguments() { // named arguments in any order, some missing, some unknown
	Api api; int m = choice(4, "method"); static const int WHICH[] = {0, 1, 3, 6}; m = WHICH[m]; Call want{m}; std::vector<std::string> args; std::string result;
	bool has0 = flag("has0"), has1 = m != 6 && flag("has1"); int8_t a = (int8_t)sym_int(8, "a"); sym_assume(a > -12 && a < 12); bool b = sym_int(1, "b"); std::string text = plainStr(1, "text"); want.f = false;
	if (m == 0) { if (has0) { args.push_back("\"message\":" + quoted(text)); want.s = text; } if (has1) { args.push_back(b ? "\"loud\":true" : "\"loud\":false"); want.f = b; } result = "null"; }
	if (m == 1) { if (has0) { args.push_back("\"a\":" + decimal(a)); want.a = a; } if (has1) { args.push_back("\"b\":-7"); want.b = -7; } result = decimal(want.a - want.b); }
	if (m == 3) { if (has0) { args.push_back("\"v\":[" + decimal(a) + ",2]"); want.v = {a, 2}; } if (has1) { args.push_back("\"info\":{\"label\":" + quoted(text) + ",\"other\":[{}],\"count\":5}"); want.a = 5; want.s = text; } result = "{\"count\":" + decimal(want.a + (has0 ? 2 : 0)) + ",\"label\":" + quoted(want.s + "!") + "}"; }
	if (m == 6) { int how = has0 ? 1 + b : 0; if (how == 1) { args.push_back("\"o\":" + quoted(text)); want.a = 1; want.s = text; } if (how == 2) args.push_back("\"o\":null"); result = how == 1 ? "[" + quoted(text) + ",\"x\"]" : "[]"; }
	static const char* EXTRA[] = {"\"x\":1", "\"aa\":{\"a\":[1,2]}", "\"\":\"}\\\"]\"", "\"messag\":null", "\"x\":1,\"y\":[2],\"z\":{}", "\"x\":1,\"x\":2,\"y\":3,\"xx\":\"\",\"yy\":[{}]"}; int extra = choice(7, "extra"); size_t at = choice(args.size() + 1, "at"); bool swap = args.size() == 2 && flag("swap"); if (swap) std::swap(args[0], args[1]); if (extra) args.insert(args.begin() + at, EXTRA[extra - 1]);
	std::string t = "[{"; for (size_t i = 0; i < args.size(); i++) t += (i ? "," : "") + args[i]; t += "},99]"; bool none = args.empty() && flag("none");
	Exact in(t); Json::Input r(in); r.startReadingArray(NF); r.nextArrayElement(NF); std::string out; Json::Output o(out); int introduced = 0, errors = 0; std::string err; const IRemoteCallable* callable = api.getChild(METHODS[m]); sym_check(callable != nullptr, "the method is found"); if (!callable) return;
	bool ok = callable->call(none ? nullptr : &r, o, [&] { introduced++; sym_check(out.empty(), "the result is introduced before it is written"); }, [&](std::string_view e) { errors++; });
	sym_check(ok && introduced == 1 && errors == 0, "the call succeeds"); sym_check(api.log.size() == 1 && api.log[0] == want, "called once with the arguments given and defaults instead of missing ones"); sym_check(eqBytes(compact(out), result), "the result is written"); if (!none) sym_check(r.nextArrayElement(NF) && r.readInt(NF) == 99 && !r.nextArrayElement(NF), "what follows the arguments is read correctly"); sym_cover(METHODS[m]);
}
extern "C" void h_rpc_local() { // without a client, methods are run where they are
	Api api; int m = choice(6, "method"); bool async = flag("async"); int32_t a = (int32_t)sym_int(32, "a"); int16_t b = (int16_t)sym_int(16, "b"); std::string t = symStr(2, "t"); Call want{m}; api.message = t; bool same = true;
	switch (m) {
	case 0: want.s = t; want.f = true; if (async) { auto f = api.set.async(t, true); sym_check(f.is_ready(), "a local result is ready"); f.get(); f.get(); } else api.set(t, true); break;
	case 1: { want.a = a; want.b = b; int32_t r; if (async) { auto f = api.sub.async(a, b); sym_check(f.is_ready(), "a local result is ready"); r = f.get(); same = f.get() == r; } else r = api.sub(a, b); same = same && r == (int32_t)((uint32_t)a - (uint32_t)b); break; }
	case 2: { std::string r; if (async) { auto f = api.get.async(); r = f.get(); } else r = api.get(); same = eqBytes(r, t); break; }
	case 3: { Info i; i.count = a; i.label = t; want.a = a; want.s = t; want.v = {b}; Info r; if (async) { auto f = api.info.async({b}, i); r = f.get(); } else r = api.info({b}, i); same = r.count == (int32_t)((uint32_t)a + 1) && eqBytes(r.label, t + "!"); break; }
	case 4: if (async) { auto f = api.ping.async(); f.get(); } else api.ping(); break;
	case 5: { want.a = 1; bool thrown = false; try { if (async) { auto f = api.fail.async(1); f.get(); } else api.fail(1); } catch (const std::runtime_error&) { thrown = true; } same = thrown; break; }
	}
	sym_check(same, "the result is the method's"); sym_check(api.log.size() == 1 && api.log[0] == want, "the method is run once"); sym_cover(METHODS[m]);
}
// ---- paths
struct Leaf : IRemoteCallable { };
template <typename Path> static void pathsCheck(const std::string& sep) { // names of up to 2 symbolic bytes, any path looked up
	auto nm = [&](const char* n, size_t len) { std::string s = symStr(len, n); for (char c : s) sym_assume(c != sep[0]); return s; };
	std::string n0 = nm("n0", 1), n1 = nm("n1", 2), n00 = nm("n00", 1), n01 = nm("n01", 1 + choice(2, "l01")); sym_assume(n00 != n01);
	DynamicRpcObject root, nested; Leaf a, b, c; nested.add(n00, RpcLambdaHolder::nonOwning(a)); nested.add(n01, RpcLambdaHolder::nonOwning(b)); root.add(n0, RpcLambdaHolder::nonOwning(nested)); root.add(n1, RpcLambdaHolder::nonOwning(c));
	std::string pa = n0 + sep + n00, pb = n0 + sep + n01;
	sym_check(eqBytes(Path::constructPath(&a), pa) && eqBytes(Path::constructPath(&b), pb) && eqBytes(Path::constructPath(&c), n1) && eqBytes(Path::constructPath(&nested), n0) && Path::constructPath(&root).empty(), "the path of a callable is made of names from the root");
	sym_check(Path::findCallable(pa, &root) == &a && Path::findCallable(pb, &root) == &b && Path::findCallable(n1, &root) == &c && Path::findCallable(n0, &root) == &nested && Path::findCallable("", &root) == &root, "a callable is found by its path");
	sym_check(root.childName(&nested) == std::pair<std::string_view, int>(n0, 0) && root.childName(&c) == std::pair<std::string_view, int>(n1, 1) && nested.childName(&b) == std::pair<std::string_view, int>(n01, 1), "names and indexes of children"); sym_check(root.childName(&a).second < 0, "not a child"); sym_cover("paths");
}
extern "C" void h_rpc_paths() { if (flag("separator")) pathsCheck<PathWithSeparator<".">>("."); else pathsCheck<PathWithSeparator<"::">>("::"); }
extern "C" void h_rpc_lookup() { // any path
	bool dot = flag("dot"); std::string sep = dot ? "." : "::"; DynamicRpcObject root, nested, b; Leaf a, c, d, deep; b.add("x", RpcLambdaHolder::nonOwning(deep)); nested.add("x", RpcLambdaHolder::nonOwning(a)); nested.add("xy", RpcLambdaHolder::nonOwning(b)); root.add("x", RpcLambdaHolder::nonOwning(nested)); root.add("xy", RpcLambdaHolder::nonOwning(c)); root.add("y", RpcLambdaHolder::nonOwning(d));
	int len = choice(sym_param("n", 4) + 1, "len"); std::string p = symStr(len, "p"); if (flag("prefix")) p = "x" + sep + "xy" + p; Exact e(p); const IRemoteCallable* got = dot ? PathWithSeparator<".">::findCallable(e, &root) : PathWithSeparator<"::">::findCallable(e, &root);
	const IRemoteCallable* want = nullptr; auto is = [&](std::string s) { return eqBytes(p, s) || (!s.empty() && eqBytes(p, s + sep)); };
	if (is("")) want = &root; if (is("x")) want = &nested; if (is("xy")) want = &c; if (is("y")) want = &d; if (is("x" + sep + "x")) want = &a; if (is("x" + sep + "xy")) want = &b; if (is("x" + sep + "xy" + sep + "x")) want = &deep;
	sym_check(got == want, "exactly the existing paths lead to callables"); sym_cover(got ? "found" : "not found");
}
struct Named : RpcObject<Named> {
	using RpcObject<Named>::childName; using RpcObject<Named>::getChild;
	RpcMember<[] (Named*) { return 1; }> a = child<"describe">; int between = 0;
	RpcMember<[] (Named*) { return 2; }> b = child<"describe_all">;
	RpcMember<[] (Named*) { return 3; }> c = child<"desc">; std::string text;
	RpcMember<[] (Named*) { return 4; }> d = child<"a_method_with_quite_a_long_name">;
	RpcMember<[] (Named*) { return 5; }> e = child<"a_method_with_quite_a_long_nama">;
	RpcMember<[] (Named*) { return 6; }> f = child<"e">;
};
extern "C" void h_rpc_names() { // names that look alike, and names that are nearly those of a child
	static const char* N[] = {"describe", "describe_all", "desc", "a_method_with_quite_a_long_name", "a_method_with_quite_a_long_nama", "e"}; Named s; DynamicRpcObject d; Leaf leaves[6]; for (int i = 0; i < 6; i++) d.add(N[i], RpcLambdaHolder::nonOwning(leaves[i])); const IRemoteCallable* statics[] = {&s.a, &s.b, &s.c, &s.d, &s.e, &s.f};
	for (int i = 0; i < 6; i++) sym_check(s.childName(statics[i]) == std::pair<std::string_view, int>(N[i], i) && d.childName(&leaves[i]) == std::pair<std::string_view, int>(N[i], i) && s.getChild(i) == statics[i] && d.getChild(i) == &leaves[i], "names and indexes of children");
	sym_check(!s.getChild(6) && !s.getChild(-1) && !s.getChild(256) && !d.getChild(6) && !d.getChild(-1) && !d.getChild(256), "there is no child outside the range");
	std::string t = N[choice(6, "child")]; int at = choice(t.size() + 1, "at"); switch (choice(5, "change")) { case 0: break; case 1: t.resize(at); break; case 2: if (at < (int)t.size()) t[at] = (char)sym_int(8, "c"); break; case 3: t.insert(t.begin() + at, (char)sym_int(8, "c")); break; case 4: t.erase(0, at); break; } int want = -1; for (int i = 0; i < 6; i++) if (eqBytes(t, N[i])) want = i;
	Exact e(t); sym_check(s.getChild(std::string_view(e)) == (want < 0 ? nullptr : statics[want]) && d.getChild(std::string_view(e)) == (want < 0 ? nullptr : &leaves[want]), "a child is found by its exact name only"); sym_cover(want < 0 ? "not found" : "found");
}
// ---- futures
struct Responder : IRpcResponder {
	uint32_t next = (uint32_t)-2; std::vector<uint32_t> sent, read; std::map<uint32_t, std::string> answers; std::vector<std::string> requests; bool ready = false; int asked = 0, polled = 0;
	RequestToken send(UserId, const IRemoteCallable*, Callback<void(IStructuredOutput&, RequestToken)> request) override { RequestToken t{next++}; std::string s; Json::Output o(s); request(o, t); requests.push_back(s); sent.push_back(t.id); return t; }
	bool getResponse(RequestToken t, Callback<void(IStructuredInput&)> reader) override { asked++; auto f = answers.find(t.id); bool got = f != answers.end(); sym_check(got, "a response is not waited for twice"); if (!got) remoteError("no response"); read.push_back(t.id); std::string s = f->second; answers.erase(t.id); if (s == "error") remoteError("the call failed"); Json::Input in(s); reader(in); return true; }
	bool hasResponse(RequestToken) override { polled++; return ready; }
};
extern "C" void h_rpc_future() { // any history of operations on a future
	Responder rs; Api api; api.setResponder(rs); int32_t v = (int32_t)(int8_t)sym_int(8, "v"); sym_assume(v > -12 && v < 12); bool error = flag("error"); bool isVoid = flag("void"); uint32_t id0 = (uint32_t)-2;
	rs.answers[id0] = error ? "error" : isVoid ? "null" : decimal(v); rs.answers[id0 + 1] = isVoid ? "null" : "77"; bool reads = false; int steps = sym_param("steps", 3), errors = 0;
	auto history = [&](auto& f, auto get, auto again) {
		sym_check(rs.sent.size() == 1 && rs.asked == 0, "the request is sent at once"); bool done = false;
		for (int i = 0; i < steps; i++) switch (choice(3, "op")) {
		case 0: { bool thrown = false; try { get(v); } catch (const RemoteError&) { thrown = true; errors++; } sym_check(thrown == error, "an error of the method is reported"); done = true; sym_check(rs.asked == 1, "the response is read once"); break; }
		case 1: rs.ready = flag("ready"); { int before = rs.polled; bool r = f.is_ready(); sym_check(r == (done || rs.ready), "a response is ready when it has arrived"); sym_check(rs.asked == (done ? 1 : 0), "polling does not read the response"); } break;
		case 2: if (i + 1 == steps) { again(); bool thrown = false; try { get(77); } catch (const RemoteError&) { thrown = true; } sym_check(!thrown && rs.sent.size() == 2, "a future can be used again"); reads = true; } break;
		}
		if (isVoid && !done && !reads) { try { get(v); } catch (const RemoteError&) {} }
	};
	if (isVoid) { auto f = api.ping.async(); history(f, [&](int32_t) { f.get(); }, [&] { f = api.ping.async(); }); }
	else { auto f = api.sub.async(1, 2); history(f, [&](int32_t want) { sym_check(f.get() == want, "the result is the response"); }, [&] { f = api.sub.async(3, 4); }); }
	std::vector<uint32_t> all; for (uint32_t i = 0; i < rs.sent.size(); i++) all.push_back(id0 + i); if (!isVoid) sym_check(rs.read == all, "each response is read exactly once, by its token"); sym_check(api.log.empty(), "nothing runs locally"); sym_cover(error ? "error" : isVoid ? "void" : "value");
}
extern "C" void h_rpc_future_unused() { // futures thrown away, replaced and moved
	Responder rs; Api api; api.setResponder(rs); uint32_t id = (uint32_t)-2; bool error = flag("error"); for (int i = 0; i < 3; i++) rs.answers[id + i] = error && i != 1 ? "error" : decimal(40 + i); int how = choice(5, "how"); int32_t got = 41;
	switch (how) {
	case 0: { auto f = api.sub.async(1, 2); auto g = api.sub.async(1, 2); auto h = api.sub.async(1, 2); got = g.get(); break; }
	case 1: { auto f = api.sub.async(1, 2); f = api.sub.async(1, 2); got = f.get(); f = api.sub.async(1, 2); break; }
	case 2: { std::array<Future<int32_t>, 3> f; for (auto& x : f) x = api.sub.async(1, 2); got = f[1].get(); break; }
	case 3: { Future<int32_t> f; { auto g = api.sub.async(1, 2); auto h = api.sub.async(1, 2); auto i = api.sub.async(1, 2); f = std::move(h); } got = f.get(); break; }
	case 4: { auto f = api.sub.async(1, 2), g = api.sub.async(1, 2); auto h = api.sub.async(1, 2); std::swap(rs.answers[id], rs.answers[id]); int32_t x = g.get(); f = std::move(g); got = f.get(); sym_check(x == got, "a result read before moving is kept"); break; }
	}
	sym_check(got == 41, "the result is the response"); sym_check(rs.answers.empty() && rs.asked == 3, "each response is read exactly once"); sym_cover("unused");
}
// ---- dynamic objects
struct Tracked { static inline int alive = 0, made = 0; int v; bool dead = false; Tracked(int v) : v(v) { alive++; made++; } Tracked(const Tracked& o) : v(o.v) { sym_check(!o.dead, "copied from a destroyed one"); alive++; made++; } ~Tracked() { sym_check(!dead, "destroyed once"); dead = true; alive--; } };
static int32_t callInt(IRemoteCallable& c, int32_t arg) { // over the binary format, so any number can pass
	using Bin = BinaryFormat<std::string, uint16_t>; std::string in, out; Bin::Output(in).writeInt(SerialisationFlags::INT_32, arg); Bin::Input r(in); Bin::Output o(out); int introduced = 0; bool ok = c.call(&r, o, [&] { introduced++; }, [](std::string_view) {}); sym_check(ok && introduced == 1, "the call succeeds"); sym_check(out.size() == 4, "a result is written"); Bin::Input back(out); return (int32_t)back.readInt(SerialisationFlags::INT_32); }
static int32_t callJson(IRemoteCallable& c, int arg) { std::string in = "{\"n\":" + decimal(arg) + "}", out; Json::Input r(in); Json::Output o(out); int introduced = 0; bool ok = c.call(&r, o, [&] { introduced++; }, [](std::string_view) {}); sym_check(ok && introduced == 1, "the call succeeds"); Json::Input back(out); return (int)back.readInt(NF); }
template <int N> static RpcLambdaHolder sizedHolder(int v) { std::array<uint32_t, N> x; for (int i = 0; i < N; i++) x[i] = (uint32_t)v ^ (i * 0x01010101u); return RpcLambdaHolder([x] (int n = name("n")) { uint32_t r = n; for (int i = 0; i < N; i++) r = ((r << 1) | (r >> 31)) ^ x[i]; return (int)r; }); }
static int sizedExpected(int N, int v, int n) { uint32_t r = n; for (int i = 0; i < N; i++) r = ((r << 1) | (r >> 31)) ^ ((uint32_t)v ^ (i * 0x01010101u)); return (int)r; }
static constexpr int SIZES[] = {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 14, 16, 17, 32, 100};
static RpcLambdaHolder makeHolder(int kind, int v, int& effect) {
	switch (kind) {
	case 5: return sizedHolder<SIZES[0]>(v);
	case 6: return sizedHolder<SIZES[1]>(v);
	case 7: return sizedHolder<SIZES[2]>(v);
	case 8: return sizedHolder<SIZES[3]>(v);
	case 9: return sizedHolder<SIZES[4]>(v);
	case 10: return sizedHolder<SIZES[5]>(v);
	case 11: return sizedHolder<SIZES[6]>(v);
	case 12: return sizedHolder<SIZES[7]>(v);
	case 13: return sizedHolder<SIZES[8]>(v);
	case 14: return sizedHolder<SIZES[9]>(v);
	case 15: return sizedHolder<SIZES[10]>(v);
	case 16: return sizedHolder<SIZES[11]>(v);
	case 17: return sizedHolder<SIZES[12]>(v);
	case 18: return sizedHolder<SIZES[13]>(v);
	case 19: return sizedHolder<SIZES[14]>(v);
	case 20: return sizedHolder<SIZES[15]>(v);
	case 0: return RpcLambdaHolder([] (int n = name("n")) { return int(n + 1u); });
	case 1: { return RpcLambdaHolder([v8 = (int8_t)v] (int n = name("n")) { return int((uint32_t)n + v8); }); }
	case 2: { int64_t x = v, y = x + 1, z = x + 2, w = x + 3, q = x + 4; return RpcLambdaHolder([x, y, z, w, q] (int n = name("n")) { return int(n + x + y + z + w + q); }); }
	case 3: { Tracked t(v); return RpcLambdaHolder([t] (int n = name("n")) { sym_check(!t.dead, "not destroyed while it can be called"); return int((uint32_t)n + t.v); }); }
	default: { int* e = &effect; auto l = [e, v] (int n = name("n")) { *e = n; return int((uint32_t)n + v); }; return RpcLambdaHolder(l); }
	}
}
static int expected(int kind, int v, int n) { if (kind >= 5) return sizedExpected(SIZES[kind - 5], v, n); return kind == 0 ? n + 1u : kind == 1 ? (uint32_t)n + (int8_t)v : kind == 2 ? (uint32_t)((int64_t)n + (int64_t)v + ((int64_t)v + 1) + ((int64_t)v + 2) + ((int64_t)v + 3) + ((int64_t)v + 4)) : (uint32_t)n + v; }
extern "C" void h_rpc_holder() { // lambdas are kept, moved and destroyed
	Tracked::alive = 0; int effect = 0; int v = (int)(int32_t)sym_int(32, "v"), n = (int)(int32_t)sym_int(32, "n"); {
		int kind = choice(21, "kind"), kind2 = kind < 5 ? choice(6, "kind2") : 1 + choice(3, "kind2"); RpcLambdaHolder h = makeHolder(kind, v, effect); sym_check(callInt(*h, n) == expected(kind, v, n), "a lambda is called with its closure");
		RpcLambdaHolder g(std::move(h)); sym_check(callInt(*g, n) == expected(kind, v, n), "called after being moved"); RpcLambdaHolder i = makeHolder(kind2, (int)(v + 1u), effect); i = std::move(g); sym_check(callInt(*i, n) == expected(kind, v, n), "called after being assigned"); if (flag("back")) { g = std::move(i); sym_check(callInt(*g, n) == expected(kind, v, n), "called after being moved back"); }
		if (flag("more")) { g = makeHolder(kind2, (int)(v + 2u), effect); sym_check(callInt(*g, n) == expected(kind2, (int)(v + 2u), n), "a holder can be used again"); }
	} sym_check(Tracked::alive == 0, "each closure is destroyed exactly once"); sym_cover("holder");
}
extern "C" void h_rpc_dynamic() { // objects made of lambdas
	Tracked::alive = 0; int effect = 0; int count = 1 + choice(sym_param("count", 4), "count"); {
		DynamicRpcObject a; std::vector<int> kinds; static const char* NAMES[] = {"a", "b", "ab", "", "c"}; for (int i = 0; i < count; i++) { kinds.push_back(i == 0 ? choice(7, "kind") : choice(5, "kind")); a.add(NAMES[i], makeHolder(kinds[i], i, effect)); }
		auto check = [&](DynamicRpcObject& o) { for (int i = 0; i < count; i++) { auto c = o.getChild(NAMES[i]); sym_check(c && c == o.getChild(i), "a child is found by its name and index"); if (!c) continue; sym_check(c->parent() == &o, "a child knows its parent"); sym_check(o.childName(c) == std::pair<std::string_view, int>(NAMES[i], i), "a child's name and index"); sym_check(callInt(*const_cast<IRemoteCallable*>(c), i) == expected(kinds[i], i, i), "a child is called"); } sym_check(!o.getChild(count) && !o.getChild(-1) && !o.getChild("zz"), "there is nothing else"); };
		check(a); DynamicRpcObject b(std::move(a)); check(b); DynamicRpcObject outer; outer.add("in", RpcLambdaHolder(std::move(b))); outer.add("ref", makeHolder(0, 0, effect)); auto in = dynamic_cast<DynamicRpcObject*>(const_cast<IRemoteCallable*>(outer.getChild("in"))); sym_check(in && in->parent() == &outer, "a nested object has its parent"); if (in) check(*in);
		Api api; api.message = "m"; outer.add("api", RpcLambdaHolder::nonOwning(api)); Api moved; moved.message = "n"; outer.add("moved", RpcLambdaHolder(std::move(moved))); moved.message = "?"; for (int k = 0; k < 2; k++) { auto o = outer.getChild(k ? "moved" : "api"), g = o->getChild("get"); std::string out; Json::Output w(out); g->call(nullptr, w, {}, {}, std::nullopt); sym_check(out == (k ? "\"n\"" : "\"m\""), "methods of added objects use the object"); sym_check(PathWithSeparator<".">::constructPath(g) == (k ? "moved.get" : "api.get"), "paths lead through added objects"); } sym_check(api.log.size() == 1, "an object added by reference is used directly");
	} sym_check(Tracked::alive == 0, "each closure is destroyed exactly once"); sym_cover("dynamic");
}
extern "C" void h_rpc_copies() { // copies of static objects are independent
	Api a; a.message = symStr(1, "a"); Api b = a; b.message = symStr(1, "b"); Api c; c = a; c.message = symStr(1, "c"); Api* all[] = {&a, &b, &c}; for (Api* x : all) { sym_check(x->get.parent() == x && x->getChild("get") == &x->get && x->getChild(2) == &x->get, "methods belong to their object"); sym_check(eqBytes(x->get(), x->message) && x->log.size() == 1, "methods use their object"); sym_check(x->childName(&x->list) == std::pair<std::string_view, int>("list", 6), "names and indexes"); } std::optional<Api> d(std::in_place); d->message = "d"; Api e(std::move(*d)); d.reset(); sym_check(e.get() == "d", "an object outlives the one it was moved from"); sym_cover("copies");
}
// ---- methods with many arguments, objects with many methods, deep paths, long names
struct Wide; static std::string wideCall(Wide* w, std::string seen, std::string h, std::string l); static int wideNumber(Wide* w, int r);
struct Wide : RpcObject<Wide> {
	using RpcObject<Wide>::childName; using RpcObject<Wide>::getChild; std::string seen; int calls = 0;
	RpcMember<[] (Wide* w, int32_t a = name("a"), std::string b = name("b"), bool c = name("c"), int16_t d = name("d"), std::vector<int32_t> e = name("e"), std::string f = name("f"), int8_t g = name("g"), std::string h = name("h"), Info i = name("i"), uint32_t j = name("j"), double k = name("k"), std::optional<std::string> l = name("l")) { std::string s = decimal(a) + "," + b + "," + decimal(c) + "," + decimal(d) + ","; for (int x : e) s += decimal(x) + "."; s += "," + f + "," + decimal(g) + "," + h + "," + decimal(i.count) + i.label + "," + decimal((int)j) + "," + decimal((int)(k * 2)) + "," + l.value_or("-"); return wideCall(w, s, h, l.value_or("")); }> wide = child<"wide">;
#define W(N) RpcMember<[] (Wide* w, int32_t x = name("x")) { return wideNumber(w, int(x + uint32_t(N))); }> m##N = child<"m" #N>;
	W(1) W(2) W(3) W(4) W(5) W(6) W(7) W(8) W(9) W(10) W(11) W(12) W(13) W(14) W(15) W(16) W(17) W(18) W(19) W(20) W(21) W(22) W(23) W(24) W(25) W(26) W(27) W(28) W(29) W(30) W(31) W(32) W(33) W(34)
};
static std::string wideCall(Wide* w, std::string seen, std::string h, std::string l) { w->calls++; w->seen = seen; return l + h; }
static int wideNumber(Wide* w, int r) { w->calls++; return r; }
extern "C" void h_rpc_wide() { // twelve arguments, by name in some order with some missing, or by position
	Wide s; std::string c = plainStr(1, "c"); int32_t n = (int8_t)sym_int(8, "n"); sym_assume(n > -12 && n < 12); static const int L[] = {1, 16, 300, 5000}; std::string b(L[choice(4, "length")], 'b'); b.back() = c[0]; std::string h = "h" + c, l = c + "l"; bool byPosition = flag("position"); unsigned missing = byPosition ? 12 : choice(14, "missing"); auto gone = [&](unsigned i) { return missing == i || (missing == 13 && i % 2); }; int order = byPosition ? 0 : choice(4, "order"); std::string text, out;
	const char* N[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}; std::string V[] = {decimal(n), quoted(b), "true", "-300", "[1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17]", quoted("f" + c), decimal(n), quoted(h), "{\"count\":" + decimal(n) + ",\"label\":\"x\"}", "40000", "2.5", quoted(l)}; std::string W[] = {decimal(n), b, "1", "-300", "1.2.3.4.5.6.7.8.9.10.11.12.13.14.15.16.17.", "f" + c, decimal(n), h, decimal(n) + "x", "40000", "5", l}, D[] = {"0", "", "0", "0", "", "", "0", "", "0", "0", "0", "-"}; std::string want; for (int i = 0; i < 12; i++) want += (i ? "," : "") + (gone(i) ? D[i] : W[i]);
	bool ok; if (!byPosition) { text = "{"; for (int k = 0; k < 12; k++) { int i = order == 0 ? k : order == 1 ? 11 - k : order == 2 ? (k * 5 + 3) % 12 : k ^ 1; if (!gone(i)) text += (text.size() > 1 ? "," : "") + quoted(N[i]) + ":" + V[i]; if (k == 5) text += std::string(text.size() > 1 ? "," : "") + "\"other\":[{\"a\":1}]"; } text += "}"; Exact in(text); Json::Input r(in); Json::Output o(out); ok = static_cast<IRemoteCallable&>(s.wide).call(&r, o, [] {}, [](std::string_view) {}); }
	else { using Bin = BinaryFormat<std::string, uint32_t>; auto K = SerialisationFlags::OBJECT_LAYOUT_KNOWN; { Bin::Output o(text); auto put = [&](const auto& v) { TypedSerialiser<std::decay_t<decltype(v)>>::serialiseMember(o, v, K); }; put((int32_t)n); put(b); put(true); put((int16_t)-300); put(std::vector<int32_t>{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}); put("f" + c); put((int8_t)n); put(h); Info i; i.count = n; i.label = "x"; put(i); put((uint32_t)40000); put(2.5); put(std::optional<std::string>(l)); } Exact in(text); Bin::Input r(in); Bin::Output o(out); ok = static_cast<IRemoteCallable&>(s.wide).call(&r, o, [] {}, [](std::string_view) {}); Bin::Input back(out); sym_check(eqBytes(back.readString(K), gone(7) ? l : l + h), "the result is written"); }
	sym_check(ok && s.calls == 1 && eqBytes(s.seen, want), "called once with the arguments given and defaults instead of missing ones"); if (!byPosition) sym_check(eqBytes(compact(out), quoted((gone(11) ? "" : l) + (gone(7) ? "" : h))), "the result is written"); sym_cover("wide");
}
extern "C" void h_rpc_many() { // an object with many methods
	Wide s, other; s = other; int i = choice(34, "method") + 1; int32_t x = (int32_t)sym_int(32, "x"); std::string t = "m" + decimal(i); const IRemoteCallable* c = s.getChild(t); sym_check(c && c == s.getChild(i) && c->parent() == &s && s.childName(c) == std::pair<std::string_view, int>(t, i), "a method is found by its name and index"); if (!c) return; sym_check(callInt(*const_cast<IRemoteCallable*>(c), x) == int((uint32_t)x + i) && s.calls == 1 && other.calls == 0, "the right method is called"); sym_check(PathWithSeparator<".">::findCallable(t, &s) == c && !s.getChild(t + "00") && !s.getChild(35) && !s.getChild("m0") && !s.getChild("m35"), "nothing else is found"); int n = 0; while (s.getChild(n)) n++; sym_check(n == 35, "all methods have an index"); sym_cover("many");
}
extern "C" void h_rpc_dynamic_many() { // many children, long names, deep paths
	static const int N[] = {9, 17, 33, 64, 128, 129, 255, 256, 257, 300}, DEPTH[] = {1, 5, 16, 40, 130}; int n = N[choice(10, "n")], depth = DEPTH[choice(5, "depth")]; bool longNames = flag("long"); int32_t x = (int32_t)sym_int(32, "x"); int32_t v = (int32_t)sym_int(32, "v"); std::string c = symStr(1, "c"); sym_assume(c[0] != '.'); std::vector<DynamicRpcObject> levels(depth); std::string prefix; auto label = [&](int i) { return (longNames ? std::string(i % 40 * 10, 'n') : std::string()) + "c" + decimal(i) + (i == n - 1 ? c : std::string()); }; Tracked::alive = 0; {
	DynamicRpcObject leaf; Tracked t(v); for (int i = 0; i < n; i++) if (i % 3 == 0) leaf.add(label(i), RpcLambdaHolder([i, v](int n = name("n")) { return int((uint32_t)n ^ v ^ i); })); else leaf.add(label(i), RpcLambdaHolder([t, i, pad = std::array<int, 8>{i}](int n = name("n")) { return int((uint32_t)n ^ t.v ^ (i + pad[0]) / 2); }));
	for (int i = 0; i < depth; i++) { levels[i].add("other", RpcLambdaHolder([] { })); if (i % 2) levels[i].add(label(0), RpcLambdaHolder([] { })); std::string d = "d" + decimal(i % 3); prefix += d + "."; if (i + 1 < depth) levels[i].add(d, RpcLambdaHolder::nonOwning(levels[i + 1])); else levels[i].add(d, RpcLambdaHolder::nonOwning(leaf)); }
	for (int i = 0; i < n; i += i + 7 < n ? 6 : 1) { std::string name = label(i); const IRemoteCallable* child = leaf.getChild(name); sym_check(child && child == leaf.getChild(i) && leaf.childName(child) == std::pair<std::string_view, int>(name, i) && child->parent() == &leaf, "a child is found by its name and index"); if (!child) return; sym_check(callInt(*const_cast<IRemoteCallable*>(child), x) == int((uint32_t)x ^ v ^ i), "a child is called"); std::string path = prefix + name; sym_check(eqBytes(PathWithSeparator<".">::constructPath(child), path) && PathWithSeparator<".">::findCallable(path, &levels[0]) == child, "a callable is found by its path"); sym_check(!PathWithSeparator<".">::findCallable(path + "z", &levels[0]) && !PathWithSeparator<".">::findCallable(prefix + "no", &levels[0]), "nothing else is found"); }
	sym_check(!leaf.getChild(n) && !leaf.getChild("c" + decimal(n) + "q"), "there is no child outside the range"); } sym_check(Tracked::alive == 0, "each closure is destroyed exactly once"); sym_cover("many");
}
template <int N> static TypedRpcLambdaHolder<int(int)> typedSized(int v) { std::array<uint32_t, N> x; for (int i = 0; i < N; i++) x[i] = (uint32_t)v ^ (i * 0x01010101u); return TypedRpcLambdaHolder<int(int)>([x] (int n = name("n")) { uint32_t r = n; for (int i = 0; i < N; i++) r = r ^ x[i]; return (int)r; }); }
static int typedSizedExpected(int k, int v, int n) { uint32_t r = n; for (int i = 0; i < k; i++) r = r ^ ((uint32_t)v ^ (i * 0x01010101u)); return (int)r; }
static TypedRpcLambdaHolder<int(int)> typedKind(int kind, int v) { if (kind == 0) { Tracked t(v); return TypedRpcLambdaHolder<int(int)>([t] (int n = name("n")) { sym_check(!t.dead, "not destroyed while it can be called"); return int((uint32_t)n + t.v); }); } if (kind == 1) return TypedRpcLambdaHolder<int(int)>([] (int n = name("n")) { return int(n + 1u); }); if (kind == 2) return typedSized<1>(v); if (kind == 3) return typedSized<5>(v); if (kind == 4) return typedSized<6>(v); if (kind == 5) return typedSized<7>(v); return typedSized<20>(v); }
static int typedExpected(int kind, int v, int n) { if (kind == 0) return int((uint32_t)n + v); if (kind == 1) return int(n + 1u); static const int N[] = {1, 5, 6, 7, 20}; return typedSizedExpected(N[kind - 2], v, n); }
extern "C" void h_rpc_typed() { // closures of known types, called directly and remotely
	Tracked::alive = 0;
	int v = (int)sym_int(32, "v"), n = (int)sym_int(32, "n"); { int kind = choice(7, "kind"), kind2 = choice(7, "kind2"); TypedRpcLambdaHolder<int(int)> h = typedKind(kind, v); auto check = [&](TypedRpcLambdaHolder<int(int)>& f, int k, int vv) { sym_check(f(n) == typedExpected(k, vv, n), "called directly with its closure"); sym_check(callInt(*f, n) == typedExpected(k, vv, n), "called remotely with its closure"); sym_check(f(n) == typedExpected(k, vv, n), "called again"); }; check(h, kind, v);
	TypedRpcLambdaHolder<int(int)> g(std::move(h)); check(g, kind, v); TypedRpcLambdaHolder<int(int)> i = typedKind(kind2, (int)(v + 1u)); check(i, kind2, (int)(v + 1u)); i = std::move(g); check(i, kind, v);
	DynamicRpcObject o; o.add("own", typedKind(kind2, v)); o.add("other", RpcLambdaHolder::nonOwning(*i)); sym_check(callInt(const_cast<IRemoteCallable&>(*o.getChild("own")), n) == typedExpected(kind2, v, n) && callInt(const_cast<IRemoteCallable&>(*o.getChild("other")), n) == typedExpected(kind, v, n), "children are called with their closures"); check(i, kind, v);
	std::string said; char c = (char)sym_int(8, "c"); TypedRpcLambdaHolder<std::string(std::string, bool)> join = [&said, pad = std::array<char, 3>{'(', c, ')'}] (std::string a = name("a"), bool b = name("b")) { said = a; return a + (b ? "yes" : "no") + std::string(pad.data(), 3); }; std::string a = symStr(2, "a"); bool b = flag("b"); sym_check(eqBytes(join(a, b), a + (b ? "yes" : "no") + "(" + c + ")") && eqBytes(said, a), "texts are passed and returned exactly"); sym_check(eqBytes(join("literal", b), std::string("literal") + (b ? "yes" : "no") + "(" + c + ")"), "convertible arguments are converted");
	int got = 0; TypedRpcLambdaHolder<void(int)> set = [&got] (int x = name("x")) { got = x; }; set(n); sym_check(got == n, "the effect happens"); sym_cover(i.isLocal() ? "local" : "elsewhere"); }
	sym_check(Tracked::alive == 0, "closures are destroyed");
}
