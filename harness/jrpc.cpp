// JSON-RPC: server, client, hostile input, and both connected
#include "rpcapi.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
#include "jsonref.hpp"
#include "httpref.hpp"
#include "loop.hpp"
static constexpr auto NF = SerialisationFlags::NONE;

struct Starter : IWriteStarter {
	int started = 0; std::string text, type;
	void writeUnknownSize(std::string_view t, Callback<void(GeneralisedBuffer&)> f) override { started++; type = t; ExpandingBuffer<> b; f(b); text = std::string_view(b); }
	void writeKnownSize(std::string_view t, int64_t, Callback<void(GeneralisedBuffer&)> f) override { writeUnknownSize(t, f); }
};
static std::string post(JsonRpcServerProtocol<>& p, std::string text, bool* refused = nullptr) { Starter s; Exact in(text); bool ok = p.post("", "application/json", in.span(), s); if (refused) *refused = !ok; sym_check(s.started == (ok ? 1 : 0), "a response is written once if the request is accepted"); if (ok) sym_check(s.type == "application/json", "type of the response"); return s.text; }
static std::string plainStr(size_t n, const char* name) { std::string s = symStr(n, name); for (char c : s) sym_assume((unsigned char)c >= 0x20 && c != '"' && c != '\\' && (unsigned char)c < 0x7f); return s; }
struct Id { std::string text; JVal::K kind = JVal::NUL; std::string value; bool present = true; };
static Id symId(int kinds) { Id r; switch (choice(kinds, "id")) { case 0: { int v = (int)(int8_t)sym_int(8, "idv"); sym_assume(v > -12 && v < 12); r.text = decimal(v); r.kind = JVal::NUM; r.value = r.text; break; } case 1: { int idl = choice(3, "idl"); r.value = plainStr(idl, "ids"); } r.text = "\"" + r.value + "\""; r.kind = JVal::STR; break; case 2: r.present = false; break; case 3: r.text = "null"; break; case 4: r.text = r.value = "2147483648"; r.kind = JVal::NUM; break; case 5: r.text = "\"\\u0041\\n\\\"\""; r.value = "A\n\""; r.kind = JVal::STR; break; case 6: { static const char* FLOATS[] = {"1.5", "0.1", "-123456789.5", "0.30000000000000004"}; r.text = r.value = FLOATS[choice(4, "float")]; } r.kind = JVal::NUM; break; default: r.text = r.value = "-9223372036854775807"; r.kind = JVal::NUM; } return r; }
// a request whose members come in any order, what it should do and what the response should be
struct Request { std::string text; Id id; Call call; bool called = false; int code = 0; JVal::K resultKind = JVal::NUL; std::string result; bool anyError = false, lateVersion = false; };
static const int PERM[24][4] = {{0,1,2,3},{0,1,3,2},{0,2,1,3},{0,2,3,1},{0,3,1,2},{0,3,2,1},{1,0,2,3},{1,0,3,2},{1,2,0,3},{1,2,3,0},{1,3,0,2},{1,3,2,0},{2,0,1,3},{2,0,3,1},{2,1,0,3},{2,1,3,0},{2,3,0,1},{2,3,1,0},{3,0,1,2},{3,0,2,1},{3,1,0,2},{3,1,2,0},{3,2,0,1},{3,2,1,0}};
static Request request(int perms, int ids, int kinds, const std::string& message) {
	Request q; q.id = symId(ids); int kind = choice(kinds, "kind"); std::string method, params; bool hasParams = true;
	int8_t a = 5; std::string t = "t"; if (kind == 0) { a = (int8_t)sym_int(8, "a"); sym_assume(a > -12 && a < 12); } if (kind == 1) t = plainStr(1, "t");
	switch (kind) {
	case 0: method = "sub"; params = "{\"b\":1,\"a\":" + decimal(a) + "}"; q.call.method = 1; q.call.a = a; q.call.b = 1; q.called = true; q.resultKind = JVal::NUM; q.result = decimal(a - 1); break;
	case 1: method = "set"; params = "{\"message\":\"" + t + "\",\"loud\":true}"; q.call.method = 0; q.call.s = t; q.call.f = true; q.called = true; break;
	case 2: method = "get"; hasParams = false; q.call.method = 2; q.called = true; q.resultKind = JVal::STR; q.result = message; break;
	case 3: method = "nothing"; params = "{\"x\":[1,{}]}"; q.code = -32601; break;
	case 4: method = ""; hasParams = false; q.code = -32601; break; // not given
	case 5: method = "fail"; params = "{\"kind\":1}"; q.call.method = 5; q.call.a = 1; q.called = true; q.code = -32603; break;
	case 6: method = "fail"; params = "{\"kind\":2}"; q.call.method = 5; q.call.a = 2; q.called = true; q.code = -32602; break;
	case 7: method = "sub"; params = "{\"a\":\"text\"}"; q.anyError = true; break; // wrong type of an argument
	case 8: method = "list"; params = "{}"; q.call.method = 6; q.called = true; q.resultKind = JVal::ARR; break;
	case 9: method = "get"; params = "{\"unknown\":{\"id\":5,\"method\":\"set\"}}"; q.call.method = 2; q.called = true; q.resultKind = JVal::STR; q.result = message; break;
	case 10: method = "sub"; params = "{\"a\":7,\"b\":2}"; q.code = -32600; break; // wrong version
	}
	std::string m[4] = {std::string("\"jsonrpc\":\"") + (kind == 10 ? "1.0" : "2.0") + "\"", q.id.present ? "\"id\":" + q.id.text : "", method.empty() ? "" : "\"method\":\"" + method + "\"", hasParams ? "\"params\":" + params : ""}; const int* p = PERM[choice(perms, "order")]; q.lateVersion = kind == 10 && p[3] == 0 && q.id.present; std::string sp = perms > 6 && flag("space") ? " \n" : "";
	q.text = "{"; bool first = true; for (int i = 0; i < 4; i++) if (!m[p[i]].empty()) { q.text += (first ? "" : ",") + sp + m[p[i]] + sp; first = false; } q.text += "}"; return q;
}
static bool sameNumber(std::string_view a, std::string_view b) { return eqBytes(a, b); }
static void checkResponse(const JVal& v, const Request& q, bool versionFirst = true) {
	sym_check(v.k == JVal::OBJ && v.n.size() == 3, "a response has three members"); const JVal *ver = member(v, "jsonrpc"), *id = member(v, "id"), *res = member(v, "result"), *err = member(v, "error");
	sym_check(ver && ver->k == JVal::STR && ver->s == "2.0", "version of the response"); sym_check(id && id->k == q.id.kind && (q.id.kind == JVal::NUM ? sameNumber(id->s, q.id.value) : q.id.kind != JVal::STR || eqBytes(id->s, q.id.value)), "the response has the id of its request"); sym_check(!res != !err, "either a result or an error"); if (q.lateVersion && res) return; // it was called before its version was known
	if (q.code || q.anyError) { sym_check(err && err->k == JVal::OBJ, "a failed call is responded by an error"); if (err) { const JVal *code = member(*err, "code"), *msg = member(*err, "message"); sym_check(code && code->k == JVal::NUM && (q.anyError || code->s == decimal(q.code)), "error code"); sym_check(msg && msg->k == JVal::STR, "error message"); } }
	else { sym_check(res && res->k == q.resultKind && (res->k == JVal::NUM || res->k == JVal::STR ? eqBytes(res->s, q.result) : true), "the result of the call"); if (res && res->k == JVal::ARR) sym_check(res->a.empty(), "the result of the call"); }
}
extern "C" void h_jrpc_server() { // any single request
	Api api; api.message = "mess\"age"; JsonRpcServerProtocol<> server(api); Request q = request(24, 8, 11, api.message); std::string out = post(server, q.text);
	if (q.id.present) { JVal v; sym_check(JRef::parse(out, v), "the response is valid JSON"); checkResponse(v, q); sym_cover(q.code || q.anyError ? "error" : "result"); } else { sym_check(out.empty(), "a notification is not responded"); sym_cover("notification"); }
	if (q.called && !q.anyError) sym_check(api.log.size() == 1 && api.log[0] == q.call, "the method is called once with the arguments"); else if (q.code != -32600) sym_check(api.log.empty(), "nothing is called"); else sym_check(api.log.size() <= 1, "called at most once");
}
extern "C" void h_jrpc_batch() { // requests together
	Api api; api.message = "m"; JsonRpcServerProtocol<> server(api); int n = choice(sym_param("n", 2) + 1, "n"); std::vector<Request> q; std::string t = "["; std::vector<Call> calls; std::vector<size_t> answered; std::string msg = api.message;
	for (int i = 0; i < n; i++) { q.push_back(request(2, 3, sym_param("kinds", 8), msg)); if (q.back().called && q.back().call.method == 0) msg = q.back().call.s; t += (i ? "," : "") + q.back().text; if (q.back().called) calls.push_back(q.back().call); if (q.back().id.present) answered.push_back(i); } t += "]"; std::string out = post(server, t);
	JVal v; sym_check(JRef::parse(out, v) && v.k == JVal::ARR, "the response is a valid JSON array"); sym_check(v.a.size() == answered.size(), "one response to each request with an id"); for (size_t i = 0; i < v.a.size() && i < answered.size(); i++) checkResponse(v.a[i], q[answered[i]]); sym_check(api.log == calls, "methods are called in order"); sym_cover("batch");
}
extern "C" void h_jrpc_sequence() { // a server keeps nothing of a previous request
	Api api; api.message = "m"; JsonRpcServerProtocol<> server(api); std::string msg = "m"; static const char* BAD[] = {"{", "[{\"id\":3,", "{\"jsonrpc\":\"2.0\",\"id\":8,\"method\":\"nothing\"}", "5", "{\"id\":4,\"params\":{\"a\":6,\"b\":8},\"x\":1}", "", "[[]]", "{\"id\":{\"id\":2},\"method\":\"fail\",\"params\":{\"kind\":1}}"};
	bool thrown = false; try { post(server, BAD[choice(8, "bad")]); } catch (const ParseError&) { thrown = true; } catch (const RemoteError&) { thrown = true; } api.log.clear(); Request q = request(4, 3, 8, msg); std::string out = post(server, q.text); if (q.id.present) { JVal v; sym_check(JRef::parse(out, v), "the response is valid JSON"); checkResponse(v, q); } else sym_check(out.empty(), "a notification is not responded"); if (q.called) sym_check(api.log.size() == 1 && api.log[0] == q.call, "called once"); else sym_check(api.log.size() <= 1, "called at most once"); sym_cover(thrown ? "after failure" : "after error");
}
extern "C" void h_jrpc_hostile() {
	static const char* P[] = {"", "{", "[", "{\"id\":", "{\"id\":1,\"method\":\"", "{\"method\":\"sub\",\"params\":", "{\"id\":1,\"method\":\"sub\",\"params\":{", "{\"id\":1,\"params\":{\"a\":1", "{\"id\":1,\"method\":\"info\",\"params\":{\"info\":{", "[{\"id\":1,\"method\":\"get\"}", "{\"id\":1,\"method\":\"get\"", "{\"jsonrpc\":", "{\"params\":[],\"id\":\""};
	Api api; JsonRpcServerProtocol<> server(api); static const char* S[] = {"", "}", "]", "}}"}; std::string t = P[choice(13, "prefix")]; int len = choice(sym_param("n", 2) + 1, "len"); t += symStr(len, "b"); t += S[choice(sym_param("suffixes", 2), "suffix")]; int outcome = 0; std::string out; bool refused = false;
	try { out = post(server, t, &refused); } catch (const ParseError&) { outcome = 1; } catch (const RemoteError&) { outcome = 2; } catch (...) { outcome = 3; }
	sym_check(outcome < 3, "only the library's errors are reported"); if (outcome == 0 && !refused && !out.empty()) { JVal v; sym_check(JRef::parse(out, v), "a response is valid JSON"); } sym_check(api.log.size() <= 2, "called at most once"); sym_cover(outcome ? "failed" : refused ? "refused" : out.empty() ? "silent" : "responded");
}
extern "C" void h_jrpc_repeated() { // members given more than once, left out and mixed with unknown ones
	static const char* M[] = {"\"jsonrpc\":\"2.0\"", "\"id\":1", "\"id\":\"b\"", "\"method\":\"sub\"", "\"method\":\"ping\"", "\"method\":\"none\"", "\"params\":{\"a\":4,\"b\":1}", "\"params\":{\"b\":2}", "\"x\":[{}]"}; Api api; JsonRpcServerProtocol<> server(api); int n = sym_param("n", 4); std::string t = "{"; int ids = 0, methods = 0; bool first = true, one = false, known = false; for (int i = 0; i < n; i++) { int m = choice(9, "member"); t += std::string(i ? "," : "") + M[m]; if (m == 1 || m == 2) { if (!ids) one = m == 1; ids++; } if (m >= 3 && m <= 5) { if (!methods) known = m != 5; methods++; } } t += "}"; (void)first;
	std::string out = post(server, t); JVal v; if (ids) { sym_check(JRef::parse(out, v) && v.k == JVal::OBJ && v.n.size() == 3, "one response"); if (ids == 1) { auto id = member(v, "id"); sym_check(id && id->s == (one ? "1" : "b"), "with its id"); } const JVal *res = member(v, "result"), *err = member(v, "error"); sym_check(!res != !err, "either a result or an error"); if (!methods || (methods == 1 && !known)) sym_check(err, "nothing to call is an error"); if (res) sym_check(api.log.size() == 1, "a result comes from a call"); } else sym_check(out.empty(), "a notification is not responded"); sym_check(api.log.size() <= 1, "called at most once"); sym_check(methods || api.log.empty(), "nothing is called"); sym_cover(api.log.empty() ? "not called" : "called");
}
// ---- client
struct Upper { // stands for HTTP
	std::vector<std::string> sent; std::map<uint32_t, std::pair<std::string, bool>> answers; uint32_t next = 0;
	template <typename F> RequestToken post(std::string_view type, F&& f) { sym_check(type == "application/json", "type of the request"); ExpandingBuffer<> b; RequestToken t{++next}; f(b, t); sent.push_back(std::string(std::string_view(b))); return t; }
	void getResponse(RequestToken t, Callback<bool(std::span<char>, bool)> reader) { auto f = answers.find(t.id); sym_check(f != answers.end(), "a response is read once"); if (f == answers.end()) remoteError("none"); auto a = f->second; answers.erase(t.id); Exact in(a.first); reader(in.span(), a.second); }
};
struct Client : JsonRpcClientProtocol<Upper> { using JsonRpcClientProtocol<Upper>::JsonRpcClientProtocol; };
static JVal parsed(const std::string& s) { JVal v; sym_check(JRef::parse(s, v), "the request is valid JSON"); return v; }
extern "C" void h_jrpc_client() { // calls
	Api api; Upper upper; Client client(api, upper); int m = choice(7, "method"); int32_t a = (int32_t)(int8_t)sym_int(8, "a"); sym_assume(a > -12 && a < 12); int tl = choice(2, "tl"); std::string t = symStr(tl, "t"); for (char c : t) sym_assume((unsigned char)c < 0x80); std::string plain = plainStr(1, "p"); bool b = flag("b"); bool async = flag("async"); std::string result; static const char* ORDERS[] = {"{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":R}", "{\"result\": R ,\"id\":1,\"jsonrpc\":\"2.0\"}", " {\"id\":1,\"result\":R}"};
	if (m == 1) result = decimal(a); if (m == 2) result = "\"" + plain + "\\n\""; if (m == 3) result = "{\"count\":" + decimal(a) + ",\"label\":\"" + plain + "\"}"; if (m == 5) result = b ? "true" : "false"; if (m == 6) result = "[\"" + plain + "\",\"\"]"; if (m == 0 || m == 4) result = "null";
	std::string resp = ORDERS[choice(3, "form")]; resp.replace(resp.find('R'), 1, result); upper.answers[1] = {resp, true}; Info i; i.count = a; i.label = t; std::vector<int16_t> v{(int16_t)a, 3}; std::optional<std::string> o; if (b) o = t; bool same = true; Info ri; std::vector<std::string> rl; std::string rs; int32_t rn = 0; bool rb = false;
	if (async) { if (m == 0) { auto f = api.set.async(t, b); f.get(); } if (m == 1) { auto f = api.sub.async(a, 7); rn = f.get(); } if (m == 2) { auto f = api.get.async(); rs = f.get(); } if (m == 3) { auto f = api.info.async(v, i); ri = f.get(); } if (m == 4) { auto f = api.ping.async(); f.get(); } if (m == 5) { auto f = api.fail.async(a); rb = f.get(); } if (m == 6) { auto f = api.list.async(o); rl = f.get(); } }
	else { if (m == 0) api.set(t, b); if (m == 1) rn = api.sub(a, 7); if (m == 2) rs = api.get(); if (m == 3) ri = api.info(v, i); if (m == 4) api.ping(); if (m == 5) rb = api.fail(a); if (m == 6) rl = api.list(o); }
	if (m == 1) same = rn == a; if (m == 2) same = eqBytes(rs, plain + "\n"); if (m == 3) same = ri.count == a && eqBytes(ri.label, plain); if (m == 5) same = rb == b; if (m == 6) same = rl.size() == 2 && eqBytes(rl[0], plain) && rl[1].empty(); sym_check(same, "the result of the response is returned"); sym_check(api.log.empty(), "nothing is called locally"); sym_check(upper.sent.size() == 1 && upper.answers.empty(), "one request, one response"); if (upper.sent.empty()) return;
	JVal q = parsed(upper.sent[0]); const JVal *ver = member(q, "jsonrpc"), *id = member(q, "id"), *method = member(q, "method"), *p = member(q, "params"); sym_check(q.k == JVal::OBJ && q.n.size() == 4 && ver && ver->s == "2.0" && id && id->k == JVal::NUM && id->s == "1" && method && method->s == METHODS[m] && p && p->k == JVal::OBJ, "the request has its version, id, method and parameters"); if (!p) return;
	auto arg = [&](const char* n, JVal::K k, std::string s) { const JVal* x = member(*p, n); sym_check(x && x->k == k && eqBytes(x->s, s), "arguments are sent by name"); };
	if (m == 0) { arg("message", JVal::STR, t); const JVal* l = member(*p, "loud"); sym_check(l && l->k == JVal::BOOL && l->b == b && p->n.size() == 2, "arguments are sent by name"); } if (m == 1) { arg("a", JVal::NUM, decimal(a)); arg("b", JVal::NUM, "7"); } if (m == 2 || m == 4) sym_check(p->n.empty(), "no arguments"); if (m == 5) arg("kind", JVal::NUM, decimal(a)); if (m == 3) { const JVal *x = member(*p, "v"), *y = member(*p, "info"); sym_check(x && x->a.size() == 2 && x->a[0].s == decimal(a) && y && y->n.size() == 2 && member(*y, "label") && eqBytes(member(*y, "label")->s, t), "arguments are sent by name"); } if (m == 6 && b) arg("o", JVal::STR, t);
	sym_cover(METHODS[m]);
}
extern "C" void h_jrpc_client_errors() { // responses that are not results
	static const char* R[] = {"{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{\"code\":-32601,\"message\":\"no\"}}", "{\"error\":{\"message\":\"no\",\"code\":1,\"data\":[{}]},\"id\":1}", "{\"jsonrpc\":\"2.0\",\"id\":null,\"error\":{\"code\":-32700,\"message\":\"\"}}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"error\":{}}", "{\"jsonrpc\":\"2.0\",\"id\":1}", "{\"jsonrpc\":\"2.0\",\"id\":2,\"result\":5}", "{\"jsonrpc\":\"1.0\",\"id\":1,\"result\":5}", "{}", "", "5", "[]", "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":\"x\"}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"resul\":5}", "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":5", "{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":", "", "{\"result\":5,\"id\":2}", "{\"id\":4294967297,\"result\":5}", "{\"id\":65537,\"result\":5}", "{\"id\":16777217,\"result\":5}", "{\"id\":257,\"result\":5}", "{\"id\":-1,\"result\":5}", "{\"id\":0,\"result\":5}", "{\"id\":18446744073709551617,\"result\":5}", "{\"id\":{},\"result\":5}", "{\"id\":[1],\"result\":5}", "{\"id\":true,\"result\":5}", "{\"id\":2147483649,\"result\":5}"};
	Api api; Upper upper; Client client(api, upper); int k = choice(28, "response"); upper.answers[1] = k == 15 ? std::pair<std::string, bool>{"{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":5}", false} : std::pair<std::string, bool>{R[k], true}; upper.answers[2] = {"{\"jsonrpc\":\"2.0\",\"id\":2,\"result\":6}", true}; int outcome = 0; bool async = flag("async");
	{ std::optional<Future<int32_t>> f; try { if (async) { f.emplace(); *f = api.sub.async(1, 2); f->get(); } else api.sub(1, 2); } catch (const ParseError&) { outcome = 1; } catch (const RemoteError&) { outcome = 2; } catch (...) { outcome = 3; } }
	sym_check(outcome == 1 || outcome == 2, "a response that is not a result is reported as an error"); if (k < 4 || k == 15) sym_check(outcome == 2, "an error is reported as coming from the other side"); sym_check(api.sub(3, 4) == 6, "the next call is not affected"); sym_cover(outcome == 1 ? "ParseError" : "RemoteError");
}
extern "C" void h_jrpc_client_hostile() {
	static const char* P[] = {"", "{", "{\"result\":", "{\"id\":", "{\"id\":1,\"result\":", "{\"error\":{", "{\"id\":1,\"result\":{\"count\":", "{\"id\":1,\"result\":[\"", "{\"jsonrpc\":\""};
	Api api; Upper upper; Client client(api, upper); std::string t = P[choice(9, "prefix")]; int len = choice(sym_param("n", 2) + 1, "len"); t += symStr(len, "b"); if (flag("closed")) t += "}"; upper.answers[1] = {t, true}; int m = choice(4, "method"), outcome = 0;
	try { if (m == 0) api.sub(1, 2); else if (m == 1) api.get(); else if (m == 2) api.list("x"); else api.info({}, Info()); } catch (const ParseError&) { outcome = 1; } catch (const RemoteError&) { outcome = 2; } catch (...) { outcome = 3; } sym_check(outcome < 3, "only the library's errors are reported"); sym_cover(outcome == 1 ? "ParseError" : outcome == 2 ? "RemoteError" : "accepted");
}
// ---- both ends over HTTP
extern "C" void h_jrpc_loop() { // calls over HTTP, responses read in any order
	static const int ORDER[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const int CUT[] = {0, 1, 7, 100};
	Api remote, local; JsonRpcServer<> server(remote); Served<JsonRpcServer<>::Session> c(server.getSession()); int sc = CUT[choice(sym_param("cuts", 4), "scut")], rc = CUT[choice(sym_param("cuts", 4), "rcut")]; Loop<Served<JsonRpcServer<>::Session>> loop(c, sc, rc); JsonRpcClient<> client(local, loop, "host"); std::string t = symStr(1, "t"); sym_assume((unsigned char)t[0] < 0x80); int32_t a = (int32_t)(int8_t)sym_int(8, "a"); sym_assume(a >= 3 && a <= 9);
	local.set(t, true); sym_check(remote.log.size() == 1 && remote.log[0].method == 0 && eqBytes(remote.log[0].s, t) && remote.log[0].f, "a call is made remotely"); bool poll = flag("poll"); bool fail = flag("fail"); auto f0 = local.get.async(); auto f1 = local.sub.async(a, 3); auto f2 = local.fail.async(fail ? 1 : 3); bool failed = false, last = false; const int* order = ORDER[choice(6, "order")];
	if (poll) for (int i = 0; i < 3; i++) sym_check(f1.is_ready(), "responses have come");
	for (int k = 0; k < 3; k++) switch (order[k]) { case 0: sym_check(eqBytes(f0.get(), t), "first result"); break; case 1: sym_check(f1.get() == a - 3, "second result"); break; case 2: try { last = f2.get(); } catch (const RemoteError&) { failed = true; } sym_check(failed == fail && last == !fail, "third result"); }
	Info i; i.count = a; i.label = t; Info r = local.info({1, 2}, i); sym_check(r.count == a + 2 && eqBytes(r.label, t + "!"), "further calls work"); sym_check(remote.log.size() == 5 && local.log.empty() && loop.found.empty() && loop.buffer.empty() && c.out.empty() && !c.closed, "each call is made once and each response is used"); sym_cover(fail ? "failure" : "results");
}
// ---- long texts, many requests
static std::string filler(size_t n, size_t at, char c) { std::string s(n, ' '); for (size_t i = 0; i < n; i++) s[i] = char('a' + i % 23); s[at] = c; return s; }
static std::string quoted(const std::string& s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') r += '\\'; r += c; } return r + "\""; }
extern "C" void h_jrpc_long() { // a long id, argument, unknown argument, method or result
	static const size_t N[] = {15, 16, 17, 64, 127, 128, 255, 256, 257, 1000, 1024, 2048, 4096, 20000, 70000}; size_t n = N[choice(15, "n")]; int what = choice(6, "what"); std::string p = plainStr(1, "p"); static const char SPECIAL[] = {'"', '\\', '\0'}; int sp = choice(3, "special"); char c = sp == 2 ? p[0] : SPECIAL[sp]; std::string text = filler(n, choice(2, "at") ? n - 1 : n / 2, c); bool late = flag("late");
	Api api; api.message = "m"; if (what == 2) api.message = text; JsonRpcServerProtocol<> server(api); std::string id = what == 0 ? quoted(text) : "7", method = what == 3 ? text : what == 1 || what == 5 ? "set" : "get", params = what == 1 ? "{\"message\":" + quoted(text) + ",\"loud\":true}" : what == 4 ? "{\"x\":" + quoted(text) + "}" : what == 5 ? "{\"loud\":true," + quoted(text) + ":[],\"message\":\"w\"}" : "{}"; if (what == 3) method = quoted(text).substr(1, quoted(text).size() - 2);
	std::string head = "\"jsonrpc\":\"2.0\",\"id\":" + id, rest = "\"method\":\"" + method + "\",\"params\":" + params; std::string out = post(server, "{" + (late ? rest + "," + head : head + "," + rest) + "}"); JVal v; sym_check(JRef::parse(out, v) && v.k == JVal::OBJ && v.n.size() == 3, "one response"); const JVal *i = member(v, "id"), *res = member(v, "result"), *err = member(v, "error"); sym_check(i && (what == 0 ? i->k == JVal::STR && eqBytes(i->s, text) : i->k == JVal::NUM && i->s == "7"), "the response has the id of its request");
	if (what == 3) { sym_check(err && !res && api.log.empty(), "an unknown method is an error"); const JVal* code = err ? member(*err, "code") : nullptr; sym_check(code && code->s == "-32601", "error code"); } else { sym_check(res && !err && api.log.size() == 1, "called once"); if (what == 1 || what == 5) sym_check(eqBytes(api.message, what == 1 ? text : "w") && api.log[0].f, "arguments"); else sym_check(res && res->k == JVal::STR && eqBytes(res->s, api.message), "result"); } sym_cover("long");
}
extern "C" void h_jrpc_batch_many() { // many requests together
	static const int N[] = {3, 8, 9, 10, 16, 33, 100, 256, 300}; int n = N[choice(9, "n")]; Api api; api.message = "m"; JsonRpcServerProtocol<> server(api); int8_t a = (int8_t)sym_int(8, "a"); sym_assume(a > -12 && a < 12); int odd = choice(4, "odd"); std::string t = "["; size_t calls = 0; std::vector<int> answered; for (int i = 0; i < n; i++) { bool silent = odd == 1 && i % 3 == 1, wrong = odd == 2 && i % 4 == 3, fails = odd == 3 && i == n - 2; t += std::string(i ? "," : "") + "{\"jsonrpc\":\"2.0\"," + (silent ? "" : "\"id\":" + decimal(i) + ",") + (wrong ? "\"method\":\"nothing\"" : fails ? "\"method\":\"fail\",\"params\":{\"kind\":1}" : "\"method\":\"sub\",\"params\":{\"a\":" + decimal(i == n / 2 ? a : i) + ",\"b\":2}") + "}"; calls += !wrong; if (!silent) answered.push_back(i); } t += "]";
	std::string out = post(server, t); JVal v; sym_check(JRef::parse(out, v) && v.k == JVal::ARR && v.a.size() == answered.size(), "one response to each request with an id"); sym_check(api.log.size() == calls, "methods are called once"); for (size_t k = 0; k < v.a.size() && k < answered.size(); k++) { int i = answered[k]; bool bad = (odd == 2 && i % 4 == 3) || (odd == 3 && i == n - 2); const JVal *id = member(v.a[k], "id"), *res = member(v.a[k], "result"), *err = member(v.a[k], "error"); sym_check(id && id->s == decimal(i) && !res == bad && !err == !bad, "each response belongs to its request"); if (res) sym_check(eqBytes(res->s, decimal((i == n / 2 ? a : i) - 2)), "each result belongs to its request"); } sym_cover("batch");
}
extern "C" void h_jrpc_loop_many() { // many calls at once, long texts, over HTTP
	static const int N[] = {9, 10, 11, 17, 99, 101, 256, 300}; static const size_t L[] = {100, 900, 1024, 2048, 5000, 70000}; Api remote, local; JsonRpcServer<> server(remote); Served<JsonRpcServer<>::Session> c(server.getSession()); bool big = flag("big"); int piece = choice(2, "piece"); size_t cut = big ? 1460 : 64; Loop<Served<JsonRpcServer<>::Session>> loop(c, piece ? cut : 0, piece ? cut : 0); JsonRpcClient<> client(local, loop, "host"); std::string p = plainStr(1, "p");
	if (big) { size_t n = L[choice(6, "size")]; std::string text = filler(n, n / 2, p[0]); text[n - 1] = '"'; text[0] = '\n'; local.set(text, true); sym_check(remote.log.size() == 1 && eqBytes(remote.message, text), "a long argument"); sym_check(eqBytes(local.get(), text), "a long result"); auto f = local.get.async(); auto g = local.sub.async(8, 3); bool other = flag("other"); if (other) sym_check(g.get() == 5, "results in another order"); sym_check(eqBytes(f.get(), text), "a long result"); if (!other) sym_check(g.get() == 5, "results in order"); sym_cover("long"); }
	else { int n = N[choice(8, "n")]; std::vector<std::unique_ptr<Future<int32_t>>> fs; for (int i = 0; i < n; i++) fs.push_back(std::unique_ptr<Future<int32_t>>(new Future<int32_t>(local.sub.async(i * 5, (int16_t)(i % 7))))); int step = flag("step") ? 7 : 1; bool front = flag("front"); std::vector<bool> done(n); int i = front ? 0 : n - 1; for (int asked = 0; asked < n; asked++) { while (done[i]) i = (i + 1) % n; sym_check(fs[i]->get() == i * 5 - i % 7, "each call gets its own result"); done[i] = true; i = (i + step) % n; } local.set(p, true); sym_check(eqBytes(remote.message, p), "further calls work"); sym_cover("many"); }
	sym_check(local.log.empty() && loop.found.empty() && loop.buffer.empty() && c.out.empty() && !c.closed, "each response is used");
}
