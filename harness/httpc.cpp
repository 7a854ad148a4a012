// HTTP client: requests, responses however they arrive, calls by forms, malformed responses
#include "rpcapi.hpp"
#include "bomba_http.hpp"
#include "httpref.hpp"
#include "loop.hpp"
struct Script { std::string out; std::string received; void feed(std::string_view s) { received += s; } }; // a server that has its responses ready
static std::string plainStr(size_t n, const char* name) { std::string s = symStr(n, name); for (char c : s) sym_assume((unsigned char)c > 0x20 && (unsigned char)c < 0x7f); return s; }
struct Resp { std::string text, body; bool success; };
static Resp response(int bodyMax, bool rich) {
	static const int CODE[] = {200, 404, 204, 299, 300, 500, 199, 201}; static const char* NAME[] = {" OK", "", " Not Found at all"}; static const char* LEN[] = {"Content-Length: ", "content-length:", "CONTENT-LENGTH:  "}; int code = CODE[choice(rich ? 8 : 2, "code")]; Resp r; r.success = code >= 200 && code < 300;
	int bodyLen = choice(bodyMax + 2, "bl"); bool none = bodyLen > bodyMax; r.body = none ? "" : symStr(bodyLen, "body"); r.text = std::string("HTTP/1.1 ") + std::to_string(code) + NAME[rich ? choice(3, "name") : 0] + "\r\n"; std::string len; if (!none) { len = LEN[rich ? choice(3, "case") : 0]; len += std::to_string(r.body.size()) + "\r\n"; } std::string other = rich && flag("other") ? "X-A: b\r\n" : ""; bool first = rich && flag("first"); r.text += first ? other + len : len + other; r.text += "\r\n" + r.body; return r;
}
extern "C" void h_httpc_request() { // what is sent
	Script server; Loop<Script> loop(server, 0, 0); HttpClient<> client(loop, "host.name"); int n = sym_param("n", 3); std::string path = "/" + plainStr(choice(3, "pl"), "path"); std::string body = symStr(choice(n + 1, "bl"), "body"); static const int BIG[] = {0, 1100, 9996, 9999, 99999, 100000, 1000000}; int big = choice(7, "big"); sym_assume(big < 2 || body.empty() || (int)body.size() == n); body += std::string(BIG[big], 'x'); std::string type = "a/" + plainStr(1, "type"); RequestToken t1 = client.post(type, [&](ExpandingBuffer<>& b, RequestToken) { b += std::string_view(body); }, path); RequestToken t2 = client.get(path); sym_check(!(t1 == t2), "requests have different tokens");
	std::string_view rest = loop.sent; HttpMsg p, g; sym_check(parseHttp(rest, p, false) && parseHttp(rest, g, false) && rest.empty(), "well-formed requests are sent"); sym_check(eqBytes(p.first, "POST " + path + " HTTP/1.1") && eqBytes(p.body, body) && eqBytes(p.header("content-type"), type) && p.header("host") == "host.name" && p.count("content-length") == 1, "a POST request has its path, type, host and body"); sym_check(eqBytes(g.first, "GET " + path + " HTTP/1.1") && g.body.empty() && g.header("host") == "host.name", "a GET request has its path and host"); sym_cover("sent");
}
extern "C" void h_httpc_response() { // one response with everything symbolic, in two pieces, and another one
	Resp a = response(2, true), b = response(1, false); Script server; server.out = a.text + b.text; int cut = choice(sym_param("cuts", 8) + 1, "cut"); Loop<Script> loop(server, 0, 0); HttpClient<> client(loop, "host"); auto t1 = client.get("/a"), t2 = client.get("/b"); if (cut) { size_t at = (server.out.size() - 1) * cut / (sym_param("cuts", 8) + 1); loop.buffer = server.out.substr(0, at); server.out.erase(0, at); }
	for (int i = 0; i < 2; i++) { Resp& r = i ? b : a; int called = 0; client.getResponse(i ? t2 : t1, [&](std::span<char> body, bool ok) { called++; sym_check(eqBytes(std::string_view(body.data(), body.size()), r.body), "the body of the response is given"); sym_check(ok == r.success, "success is known"); return true; }); sym_check(called == 1, "a response is given once"); } sym_check(loop.buffer.empty() && loop.found.empty(), "responses are consumed exactly"); sym_cover(a.success ? "success" : "failure");
}
extern "C" void h_httpc_order() { // responses read in any order, in any pieces, some polled for
	static const int ORDER[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const int CUT[] = {0, 1, 13, 47}; Resp r[3]; Script server; for (auto& x : r) { x = response(1, false); server.out += x.text; } Loop<Script> loop(server, 0, CUT[choice(4, "cut")]); HttpClient<> client(loop, "host"); RequestToken t[3]; for (auto& x : t) x = client.get("/"); const int* order = ORDER[choice(6, "order")]; IRpcResponder& poll = client;
	for (int k = 0; k < 3; k++) { int i = order[k]; if (flag("poll")) { sym_check(poll.hasResponse(t[i]), "a response that came is known of"); if (flag("again")) sym_check(poll.hasResponse(t[i]), "polling loses nothing"); } int called = 0; client.getResponse(t[i], [&](std::span<char> body, bool ok) { called++; sym_check(eqBytes(std::string_view(body.data(), body.size()), r[i].body) && ok == r[i].success, "each request gets its own response"); return true; }); sym_check(called == 1, "a response is given once"); }
	sym_check(loop.buffer.empty() && loop.found.empty() && server.out.empty(), "responses are consumed exactly"); RequestToken more = client.get("/"); sym_check(!poll.hasResponse(more), "nothing is ready before it comes"); sym_cover("order");
}
extern "C" void h_httpc_calls() { // results in forms, failures, and the calls after them
	Script server; Loop<Script> loop(server, 0, 0); HttpClient<> client(loop, "host"); Api api; api.setResponder(client); int n = 2; bool failed[2]; static const int CODE[] = {200, 500}; std::string text = plainStr(1, "t"); sym_assume(text[0] != '%' && text[0] != '+' && text[0] != '&'); int32_t v = (int8_t)sym_int(8, "v"); sym_assume(v > -12 && v < 12); int m[2];
	for (int i = 0; i < n; i++) { failed[i] = flag("failed"); m[i] = choice(4, "method"); std::string body = m[i] == 0 ? "" : m[i] == 1 ? decimal(v) : m[i] == 2 ? text + "%20%26%231234%3b" : ""; server.out += "HTTP/1.1 " + std::to_string(CODE[failed[i]]) + " X\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }
	for (int i = 0; i < n; i++) { bool thrown = false, async = flag("async"), same = true; try { if (m[i] == 0) { if (async) { auto f = api.set.async(text, true); f.get(); } else api.set(text, true); } if (m[i] == 1) { int32_t got; if (async) { auto f = api.sub.async(v, 2); got = f.get(); } else got = api.sub(v, 2); same = got == v; } if (m[i] == 2) { std::string got = api.get(); same = eqBytes(got, text + " \xd3\x92"); } if (m[i] == 3) api.ping(); } catch (const RemoteError&) { thrown = true; } sym_check(thrown == failed[i], "a failure is reported"); sym_check(same, "the result is given"); }
	sym_check(loop.buffer.empty() && loop.found.empty() && server.out.empty(), "responses are consumed exactly"); sym_check(api.log.empty(), "nothing is called locally"); std::string_view rest = loop.sent + server.received; std::string all = server.received + loop.sent; rest = all; for (int i = 0; i < n; i++) { HttpMsg q; sym_check(parseHttp(rest, q, false), "well-formed requests are sent"); static const char* PATHS[] = {"POST /set HTTP/1.1", "POST /sub HTTP/1.1", "POST /get HTTP/1.1", "POST /ping HTTP/1.1"}; sym_check(q.first == PATHS[m[i]] && q.header("content-type") == "application/x-www-form-urlencoded", "the method is the path"); if (m[i] == 1) sym_check(eqBytes(q.body, "a=" + decimal(v) + "&b=2"), "arguments are in the form"); if (m[i] > 1) sym_check(q.body.empty(), "no arguments"); } sym_check(rest.empty(), "nothing else is sent"); sym_cover(failed[0] || failed[1] ? "failure" : "results");
}
struct Say; inline void say(Say* p, const std::string& t, int n, bool yell);
struct Say : RpcObject<Say> { std::string text; int n = 0, calls = 0; bool yell = false; RpcMember<[] (Say* p, std::string t = name("te xt"), int n = name("n"), bool y = name("yell") | SerialisationFlags::OMIT_FALSE) { say(p, t, n, y); }> say_ = child<"sa">; };
inline void say(Say* p, const std::string& t, int n, bool yell) { p->text = t; p->n = n; p->yell = yell; p->calls++; if (n == 7) throw std::runtime_error("failed"); }
extern "C" void h_httpc_loop() { // calls by forms to a real server
	static const int CUT[] = {0, 1, 7}; Say remote, local; DummyGetResponder get; HtmlPostResponder<> post(remote); HttpServer<> server(get, post); Served<HttpServer<>::Session> c(server.getSession()); int sc = CUT[choice(3, "scut")], rc = CUT[choice(3, "rcut")]; Loop<Served<HttpServer<>::Session>> loop(c, sc, rc); HttpClient<> client(loop, "host"); local.setResponder(client); std::string t = symStr(sym_param("n", 1), "t"); for (char x : t) sym_assume((unsigned char)x < 0x80); bool yell = flag("yell"); int n = (int8_t)sym_int(8, "n"); sym_assume(n > -3 && n < 12);
	for (int i = 0; i < 2; i++) { bool thrown = false; try { local.say_(t, n + i, yell != (i == 1)); } catch (const RemoteError&) { thrown = true; } sym_check(remote.calls == i + 1 && eqBytes(remote.text, t) && remote.n == n + i && remote.yell == (yell != (i == 1)), "the remote method is called once with equal arguments"); sym_check(thrown == (n + i == 7), "a failure is reported"); } sym_check(local.calls == 0 && !c.closed, "nothing is called locally"); sym_cover("called");
}
extern "C" void h_httpc_hostile() {
	static const char* P[] = {"", "H", "HTTP/1.1", "HTTP/1.1 ", "HTTP/1.1 200", "HTTP/1.1 200 OK\r\n", "HTTP/1.1 200 OK\r\nContent-Length:", "HTTP/1.1 200 OK\r\nContent-Length: 1", "HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n", "HTTP/1.1 200 OK\r\nA", "\r\n", "HTTP/1.1 200 OK\r\nContent-Length: 2147483647\r\n", "HTTP/1.1 200 OK\r\nContent-Length: -1\r\n", "HTTP/1.1 99999999999 OK\r\n"}; std::string t = P[choice(14, "prefix")]; int len = choice(sym_param("n", 2) + 1, "len"); t += symStr(len, "b"); static const char* S[] = {"", "\r\n\r\n", "\r\n"}; t += S[choice(3, "suffix")];
	Script server; server.out = t; Loop<Script> loop(server, 0, 0); HttpClient<> client(loop, "host"); Api api; api.setResponder(client); int m = choice(3, "method"), outcome = 0; bool polled = flag("poll"); try { if (polled) { auto f = api.sub.async(1, 2); f.is_ready(); f.get(); } else if (m == 0) api.sub(1, 2); else if (m == 1) api.get(); else api.ping(); } catch (const ParseError&) { outcome = 1; } catch (const RemoteError&) { outcome = 2; } catch (...) { outcome = 3; } sym_check(outcome < 3, "only the library's errors are reported"); sym_cover(outcome == 1 ? "ParseError" : outcome == 2 ? "RemoteError" : "accepted");
}
// ---- long responses and many of them
extern "C" void h_httpc_long() {
	static const size_t N[] = {9, 10, 99, 100, 999, 1000, 1024, 2048, 4096, 9999, 10000, 65536, 100000}; size_t n = N[choice(13, "n")]; int what = choice(4, "what"); char c = (char)sym_int(8, "c"); if (what != 0) sym_assume(c != '\r' && c != '\n' && c != ':'); if (what == 2) sym_assume(n <= 1000 && (unsigned char)c > ' '); std::string text(n, 'x'); text[n / 2] = c; text[n - 1] = '\r'; if (what) text[n - 1] = 'y'; bool first = flag("first");
	std::string body = what == 0 ? text : "ok", len = "Content-Length: " + decimal((int64_t)body.size()) + "\r\n", others; if (what == 1) others = "X-A: " + text + "\r\n"; if (what == 2) others = text + ": a\r\n"; if (what == 3) { sym_assume(n <= 100); for (size_t i = 0; i < n; i++) others += "X-" + decimal((int)i) + ": b\r\n"; }
	static const int CODE[] = {200, 404}; int code = choice(2, "code"); std::string r = "HTTP/1.1 " + decimal(CODE[code]) + " X\r\n" + (first ? others + len : len + others) + "\r\n" + body; Script server; server.out = r + "HTTP/1.1 200 OK\r\nContent-Length: 1\r\n\r\n!" + r; static const int CUT[] = {0, 1460, 100}; Loop<Script> loop(server, 0, CUT[choice(n > 5000 ? 2 : 3, "cut")]); HttpClient<> client(loop, "host"); RequestToken t[3]; for (auto& x : t) x = client.get("/"); bool back = flag("back"); IRpcResponder& poll = client; if (flag("poll")) sym_check(poll.hasResponse(t[2]), "responses come");
	for (int k = 0; k < 3; k++) { int i = back ? 2 - k : k; int called = 0; client.getResponse(t[i], [&](std::span<char> b, bool ok) { called++; sym_check(eqBytes(std::string_view(b.data(), b.size()), i == 1 ? "!" : std::string_view(body)) && ok == (i == 1 || !code), "each request gets its own response"); return true; }); sym_check(called == 1, "a response is given once"); } sym_check(loop.buffer.empty() && loop.found.empty() && server.out.empty(), "responses are consumed exactly"); sym_cover("long");
}
extern "C" void h_httpc_many() { // many requests wait for their responses
	static const int N[] = {4, 10, 33, 100, 256, 260}; int n = N[choice(6, "n")]; Script server; for (int i = 0; i < n; i++) server.out += "HTTP/1.1 " + std::string(i % 5 == 4 ? "404 No" : "200 OK") + "\r\nContent-Length: " + decimal((int)decimal(i).size() + 1) + "\r\n\r\n" + decimal(i) + "."; char c = (char)sym_int(8, "c"); server.out.back() = c; Loop<Script> loop(server, 0, flag("pieces") ? 50 : 0); HttpClient<> client(loop, "host"); std::vector<RequestToken> t; for (int i = 0; i < n; i++) t.push_back(client.get("/" + decimal(i))); int step = flag("step") ? 7 : 1; int i = flag("front") ? 0 : n - 1; std::vector<bool> done(n);
	for (int asked = 0; asked < n; asked++) { while (done[i]) i = (i + 1) % n; std::string want = decimal(i) + (i == n - 1 ? c : '.'); int called = 0; client.getResponse(t[i], [&](std::span<char> b, bool ok) { called++; sym_check(eqBytes(std::string_view(b.data(), b.size()), want) && ok == (i % 5 != 4), "each request gets its own response"); return true; }); sym_check(called == 1, "a response is given once"); done[i] = true; i = (i + step) % n; } sym_check(loop.buffer.empty() && loop.found.empty() && server.out.empty(), "responses are consumed exactly");
	std::string_view rest = loop.sent; std::string all = server.received + loop.sent; rest = all; for (int k = 0; k < n; k++) { HttpMsg q; sym_check(parseHttp(rest, q, false) && q.first == "GET /" + decimal(k) + " HTTP/1.1", "requests are sent in order"); } sym_check(rest.empty(), "nothing else is sent"); sym_cover("many");
}
extern "C" void h_httpc_coding() { // responses whose bodies are framed in a way the client does not know, or in several ways, are failures, not empty or other bodies
	static const char* TE[] = {"Transfer-Encoding: chunked\r\n", "transfer-encoding:gzip, chunked\r\n", "TRANSFER-ENCODING: x \r\n", "Content-Length: 1\r\nContent-Length: 3\r\n", "content-length: 3\r\nX-A: b\r\ncontent-length: 0\r\n"}; int k = choice(5, "kind"); static const char* LEN[] = {"", "Content-Length: 3\r\n", "Content-Length: 0\r\n"}; int len = k < 3 ? choice(3, "len") : 0; bool first = flag("first"); std::string r = "HTTP/1.1 200 OK\r\n"; r += first ? LEN[len] : TE[k]; r += first ? TE[k] : LEN[len]; r += "\r\n"; r += k < 3 ? "3\r\nabc\r\n0\r\n\r\n" : "abc"; char c = (char)sym_int(8, "c"); r += c;
	static const int CUT[] = {0, 1, 13}; Script server; server.out = r; Loop<Script> loop(server, 0, CUT[choice(3, "cut")]); HttpClient<> client(loop, "host"); auto t = client.get("/"); bool failed = false; int called = 0; if (flag("poll")) { IRpcResponder& poll = client; try { poll.hasResponse(t); } catch (const RemoteError&) { failed = true; } } try { client.getResponse(t, [&](std::span<char>, bool) { called++; return true; }); } catch (const RemoteError&) { failed = true; } sym_check(called == 0 && failed, "a response of unknown size is a failure"); sym_cover("failure");
}
extern "C" void h_httpc_names() { // headers whose names only resemble known ones mean nothing
	static const char* const K[] = {"content-length", "connection", "transfer-encoding"}; std::string value, name = strangeName(K, 3, value); bool first = flag("first"), sized = flag("sized"); std::string odd = name + ":" + value + "\r\n", usual = sized ? "Content-Length: 3\r\n" : "", body = sized ? "abc" : "";
	Script server; server.out = "HTTP/1.1 200 OK\r\n" + (first ? odd + usual : usual + odd) + "\r\n" + body + "HTTP/1.1 404 No\r\nContent-Length: 1\r\n\r\n!"; Loop<Script> loop(server, 0, 0); HttpClient<> client(loop, "host"); auto t1 = client.get("/"), t2 = client.get("/2"); int called = 0; if (flag("poll")) { IRpcResponder& poll = client; sym_check(poll.hasResponse(t1), "a response that came is known of"); }
	client.getResponse(t1, [&](std::span<char> b, bool ok) { called++; sym_check(ok && std::string_view(b.data(), b.size()) == body, "the body of the response is given"); return true; }); client.getResponse(t2, [&](std::span<char> b, bool ok) { called++; sym_check(!ok && std::string_view(b.data(), b.size()) == "!", "the body of the response is given"); return true; }); sym_check(called == 2 && loop.buffer.empty() && loop.found.empty() && server.out.empty(), "responses are consumed exactly"); sym_cover("ignored");
}
struct Unsendable; static void unsendableCalled(Unsendable* u);
struct Unsendable : RpcObject<Unsendable> { int calls = 0; RpcMember<[] (Unsendable* p, bool b = name("b")) { unsendableCalled(p); }> plainBool = child<"bool">; RpcMember<[] (Unsendable* p, std::vector<int32_t> v = name("v")) { unsendableCalled(p); }> array = child<"array">; RpcMember<[] (Unsendable* p, int32_t a = name("a"), std::optional<int32_t> o = name("o")) { unsendableCalled(p); }> optional = child<"optional">; RpcMember<[] (Unsendable* p, Info i = name("i")) { unsendableCalled(p); }> object = child<"object">; RpcMember<[] (Unsendable* p, int32_t a = name("a")) { unsendableCalled(p); return a; }> fine = child<"fine">; };
static void unsendableCalled(Unsendable* u) { u->calls++; }
extern "C" void h_httpc_unsent() { // requests that cannot be written are not sent, others get their own responses
	Unsendable api; Script server; Loop<Script> loop(server, 0, flag("pieces") ? 9 : 0); HttpClient<> client(loop, "host"); api.setResponder(client); int n = 3, sent = 0; char d = (char)sym_int(8, "d"); sym_assume(d >= '0' && d <= '9'); std::vector<int> expect; std::vector<std::unique_ptr<Future<int32_t>>> fs;
	for (int i = 0; i < n; i++) { int k = choice(7, "kind"); bool thrown = false; if (k == 0) { std::string r = "HTTP/1.1 200 OK\r\nContent-Length: 2\r\n\r\n"; r += char('1' + i); r += d; server.out += r; fs.push_back(std::unique_ptr<Future<int32_t>>(new Future<int32_t>(api.fine.async(i)))); expect.push_back((i + 1) * 10 + (d - '0')); sent++; continue; }
		try { switch (k) { case 1: api.plainBool(false); break; case 2: api.array(std::vector<int32_t>{1}); break; case 3: api.optional(1, std::nullopt); break; case 4: api.object(Info{}); break; case 5: client.post("a/b", [](GeneralisedBuffer& b, RequestToken) { b += std::string_view("begun"); throw std::runtime_error("failed"); }, "/p"); break; case 6: { auto f = api.plainBool.async(false); f.get(); } break; } } catch (const std::exception& e) { thrown = true; } sym_check(thrown, "what cannot be written is refused"); }
	bool back = flag("back"); for (size_t j = 0; j < fs.size(); j++) { size_t i = back ? fs.size() - 1 - j : j; bool ok = false; try { ok = fs[i]->get() == expect[i]; } catch (const RemoteError&) {} sym_check(ok, "each request gets its own response"); } std::string all = server.received + loop.sent; std::string_view rest = all; for (int i = 0; i < sent; i++) { HttpMsg q; sym_check(parseHttp(rest, q, false) && q.first == "POST /fine HTTP/1.1", "requests that can be written are sent"); } sym_check(rest.empty(), "nothing else is sent"); sym_check(api.calls == 0, "nothing is called locally"); sym_cover(sent == 0 ? "none" : sent == n ? "all" : "some");
}
extern "C" void h_httpc_wrap() { // more requests than numbers of some sizes
	static const int N[] = {32768, 65536}; int n = N[choice(2, "n")]; Script server; Loop<Script> loop(server, 0, 0); HttpClient<> client(loop, "h"); auto first = client.get("/first"); bool distinct = true; loop.sent.clear(); for (int i = 1; i < n; i++) { auto t = client.get("/"); distinct = distinct && t.id != first.id; loop.sent.clear(); } auto last = client.get("/last"); sym_check(distinct && first.id != last.id, "requests waiting at once are told apart");
	sym_cover("wrap");
}
