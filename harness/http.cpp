// HTTP server: framing, independence of how the stream is cut, hostile input, well-formed responses, independent sessions
#include "util.hpp"
#include "bomba_core.hpp"
#include "bomba_http.hpp"
#include "bomba_rpc_object.hpp"
#include "httpref.hpp"
using namespace Bomba;

struct Rec { char kind; std::string path, type, body; bool operator==(const Rec& o) const { return kind == o.kind && path == o.path && type == o.type && body == o.body; } };
struct App : IHttpGetResponder, IHttpPostResponder { // answers with what it was asked, so that mixed up answers are noticed
	std::vector<Rec> log; int mode = 0; bool throwing = false;
	bool answer(const Rec& r, IWriteStarter& w) {
		log.push_back(r); std::string text = r.kind + r.path + "|" + r.body;
		switch (mode) {
		case 0: w.writeKnownSize("text/a", text.size(), [&](GeneralisedBuffer& b) { b += std::string_view(text); }); return true;
		case 1: w.writeUnknownSize("text/b", [&](GeneralisedBuffer& b) { b += std::string_view(text); }); return true;
		case 2: return false;
		case 3: throw std::runtime_error("failed");
		default: return true;
		}
	}
	bool get(std::string_view path, IWriteStarter& w) override { return answer({'G', std::string(path), "", ""}, w); }
	bool post(std::string_view path, std::string_view type, std::span<char> body, IWriteStarter& w) override { return answer({'P', std::string(path), std::string(type), std::string(body.data(), body.size())}, w); }
};
template <typename S> struct Conn { // does what a TCP server does with a session
	S session; std::string pending, out; bool closed = false; int answered = 0;
	Conn(S s) : session(std::move(s)) {}
	void feed(std::string_view piece) {
		pending += piece;
		while (!closed && !pending.empty()) {
			Exact in(pending); auto [reaction, used] = session.respond(std::span<char>(in.p, in.n), [&](std::span<const char> o) { out.append(o.data(), o.size()); });
			pending.assign(in.p, in.n); // it may be edited
			if (reaction == ServerReaction::READ_ON) break;
			if (reaction == ServerReaction::DISCONNECT) { closed = true; break; }
			sym_check(reaction == ServerReaction::OK && used > 0 && used <= (int64_t)pending.size(), "a request takes some of the input"); answered++;
			if (reaction != ServerReaction::OK || used <= 0 || used > (int64_t)pending.size()) { closed = true; break; }
			pending.erase(0, used);
		}
	}
};
using Server = HttpServer<>; using HConn = Conn<Server::Session>;

// a request and what it means; `rich` decides how much about it is symbolic
static std::string pathOf(int n, const char* name) { std::string p = "/" + symStr(n, name); for (size_t i = 1; i < p.size(); i++) sym_assume(p[i] != ' ' && p[i] != '\r' && p[i] != '\n'); return p; }
static std::string header(const char* const* names, unsigned count, std::string value, bool rich) { static const char* SP[] = {" ", "", "  ", "\t"}; std::string r = names[rich ? choice(count, "case") : 0]; r += ":"; r += SP[rich ? choice(4, "space") : 0]; return r + value + "\r\n"; }
static const char* LEN[] = {"Content-Length", "content-length", "CONTENT-LENGTH", "cOnTeNt-LenGTH"}; static const char* TYP[] = {"Content-Type", "content-TYPE"}; static const char* OTHER[] = {"X-Other", "Content-Lengt", "host"};
struct Req { std::string text; bool called = false, weird = false; Rec rec; };
static Req request(bool rich, int bodyMax, unsigned kinds, bool typed = true) {
	Req r; unsigned kind = choice(kinds, "kind"); static const char* M[] = {"POST", "GET", "GET", "PUT", "HEAD", "G"}; r.weird = kind >= 3; r.called = kind < 3; bool hasBody = kind == 0 || kind == 2 || kind == 3;
	std::string path = pathOf(rich ? choice(3, "pl") : 1, "path"), body = hasBody ? symStrUpTo(bodyMax, "body") : "", type; bool old = rich && flag("old"); r.text = std::string(M[kind]) + " " + path + " HTTP/1." + (old ? '0' : '1') + "\r\n";
	std::string len = hasBody ? header(LEN, 4, std::to_string(body.size()), rich) : "", typ, other;
	if (typed && flag("typed")) { type = "a/" + symStr(1, "type"); sym_assume(type[2] != '\r' && type[2] != '\n'); typ = header(TYP, 2, type, rich); sym_assume(type[2] != ' ' && type[2] != '\t'); }
	if (rich && flag("other")) { std::string v = "v" + symStr(1, "ov"); sym_assume(v[1] != '\r' && v[1] != '\n'); other = header(OTHER, 3, v, false); }
	bool typeFirst = !typ.empty() && flag("order"); r.text += typeFirst ? typ + other + len : len + other + typ; r.text += "\r\n" + body;
	if (r.called) { r.rec = {kind == 0 ? 'P' : 'G', path, kind == 0 ? type : "", kind == 0 ? body : ""}; } return r;
}
static void checkAnswers(const std::string& out, const std::vector<Req>& reqs, int mode) {
	std::vector<HttpMsg> m; sym_check(parseResponses(out, m), "what is sent is a sequence of well-formed responses"); sym_check(m.size() == reqs.size(), "each request gets exactly one response");
	for (size_t i = 0; i < m.size() && i < reqs.size(); i++) { auto& q = reqs[i];
		if (q.weird) sym_check(m[i].code == 501, "an unknown method is answered by error 501");
		else if (mode == 2) sym_check(m[i].code == (q.rec.kind == 'G' ? 404 : 400), "a missing resource is answered by an error");
		else if (mode == 3) sym_check(m[i].code == 500, "a failure is answered by an error");
		else if (mode == 4) sym_check(m[i].code == 204 && m[i].body.empty(), "no answer is answered by 204");
		else { std::string text = q.rec.kind + q.rec.path + "|" + q.rec.body; sym_check(m[i].code == 200 && eqBytes(m[i].body, text), "the response is the one to its request"); sym_check(m[i].header("content-type") == (mode == 0 ? "text/a" : "text/b"), "the response has its type"); }
	}
}
static void checkCalls(const App& app, const std::vector<Req>& reqs) {
	size_t i = 0; for (auto& q : reqs) if (q.called) { sym_check(i < app.log.size() && app.log[i].kind == q.rec.kind && eqBytes(app.log[i].path, q.rec.path) && eqBytes(app.log[i].body, q.rec.body), "a request is served with its path and body"); sym_check(i < app.log.size() && eqBytes(app.log[i].type, q.rec.type), "a request is served with its content type"); i++; }
	sym_check(i == app.log.size(), "each request is served exactly once");
}
extern "C" void h_http_request() { // one request with everything symbolic, followed by a simple one
	App app; Server server(app, app); HConn c(server.getSession()); std::vector<Req> reqs; reqs.push_back(request(true, 2, 6)); reqs.push_back(request(false, 1, 1)); c.feed(reqs[0].text + reqs[1].text);
	sym_check(!c.closed && c.pending.empty(), "requests are consumed exactly"); checkCalls(app, reqs); checkAnswers(c.out, reqs, 0); sym_cover(reqs[0].weird ? "other method" : "served");
}
extern "C" void h_http_pipeline() { // several requests in a row
	App app; app.mode = choice(5, "mode"); Server server(app, app); HConn c(server.getSession()); std::vector<Req> reqs; std::string all; for (int i = 0; i < 3; i++) { reqs.push_back(request(false, 1, 4)); all += reqs.back().text; } c.feed(all);
	sym_check(!c.closed && c.pending.empty() && c.answered == 3, "requests are consumed exactly"); checkCalls(app, reqs); checkAnswers(c.out, reqs, app.mode); sym_cover("pipeline");
}
extern "C" void h_http_split() { // the stream arrives in any pieces
	App app; Server server(app, app); HConn c(server.getSession()); std::vector<Req> reqs; reqs.push_back(request(false, 2, 4)); reqs.push_back(request(false, 1, 1, false)); std::string all = reqs[0].text + reqs[1].text;
	if (flag("bytewise")) for (char ch : all) c.feed(std::string_view(&ch, 1));
	else { size_t a = sym_choice(all.size(), "cut"), b = sym_param("cuts", 1) > 1 ? a + sym_choice(all.size() - a, "cut2") : a; c.feed(std::string_view(all).substr(0, a)); if (b > a) c.feed(std::string_view(all).substr(a, b - a)); c.feed(std::string_view(all).substr(b)); }
	sym_check(!c.closed && c.pending.empty() && c.answered == 2, "requests are consumed exactly"); checkCalls(app, reqs); checkAnswers(c.out, reqs, app.mode); sym_cover("split");
}
extern "C" void h_http_close() { // Connection: close ends the connection after the response
	App app; Server server(app, app); HConn c(server.getSession()); bool post = flag("post"); std::string body = post ? symStrUpTo(2, "body") : ""; static const char* N[] = {"Connection", "connection"}; std::string cl = std::string(N[choice(2, "case")]) + ": close\r\n";
	std::string len = post ? "Content-Length: " + std::to_string(body.size()) + "\r\n" : ""; bool first = flag("first"); std::string t = std::string(post ? "POST" : "GET") + " /x HTTP/1.1\r\n" + (first ? cl + len : len + cl) + "\r\n" + body; size_t a = sym_choice(t.size(), "cut"); c.feed(std::string_view(t).substr(0, a)); c.feed(std::string_view(t).substr(a));
	sym_check(c.closed, "the connection is closed if asked"); std::vector<HttpMsg> m; sym_check(parseResponses(c.out, m) && m.size() == 1 && m[0].code == 200, "the last request is responded too"); sym_cover("closed");
}
extern "C" void h_http_sessions() { // two connections of one server, interleaved in any way
	App app; Server server(app, app); HConn c1(server.getSession()), c2(server.getSession()); std::vector<Req> r1, r2; r1.push_back(request(false, 1, 3, false)); r2.push_back(request(false, 1, 2)); r2.push_back(request(false, 0, 1, false)); std::string t2 = r2[0].text + r2[1].text;
	size_t a = sym_choice(r1[0].text.size(), "cut"), b = sym_choice(8, "cut2") * t2.size() / 8; app.mode = 1;
	c1.feed(std::string_view(r1[0].text).substr(0, a)); c2.feed(std::string_view(t2).substr(0, b)); c1.feed(std::string_view(r1[0].text).substr(a)); c2.feed(std::string_view(t2).substr(b));
	sym_check(!c1.closed && !c2.closed && c1.pending.empty() && c2.pending.empty(), "both connections are served"); checkAnswers(c1.out, r1, 1); checkAnswers(c2.out, r2, 1); sym_check(app.log.size() == 3, "each request is served once"); sym_cover("sessions");
}
extern "C" void h_http_endings() { // one of several connections ends, fails or is cut off in the middle of a request; the others do not notice
	App app; Server server(app, app); auto before = std::make_unique<HConn>(server.getSession()); HConn other(server.getSession()); static const char* END[] = {"GET /x HTTP/1.1\r\nConnection: close\r\n\r\n", "POST /x HTTP/1.1\r\nConnection: close\r\nContent-Type: a\r\nContent-Length: 2\r\n\r\nhi", "POST /x HTTP/1.1\r\nContent-Length: x\r\n\r\n", "GET\r\n", "POST /x HTTP/1.1\r\nContent-Type: t/u\r\nContent-Length: 70\r\n\r\n???", "PUT /x HTTP/1.1\r\nConnection: close\r\n\r\n"}; int kind = choice(6, "kind"); std::string t = END[kind]; Req r = request(false, 1, 2); Req r2 = request(false, 0, 2, false); size_t cut = sym_choice(r.text.size(), "cut"); other.feed(std::string_view(r.text).substr(0, cut)); size_t at = choice(4, "at") * t.size() / 4; before->feed(std::string_view(t).substr(0, at)); before->feed(std::string_view(t).substr(at)); sym_check(before->closed == (kind != 4), "the connection ends"); if (flag("gone")) before.reset(); size_t calls = app.log.size(); sym_check(calls == (size_t)(kind < 2), "whole requests are served"); app.log.clear();
	other.feed(std::string_view(r.text).substr(cut)); HConn later(server.getSession()); later.feed(r2.text); later.feed(r.text); other.feed(r2.text); sym_check(!other.closed && !later.closed && other.pending.empty() && later.pending.empty(), "others go on"); checkAnswers(other.out, {r, r2}, 0); checkAnswers(later.out, {r2, r}, 0); checkCalls(app, {r, r2, r, r2}); sym_cover("ended");
}
struct Sized : IHttpGetResponder { // responses of various sizes and ways of writing
	std::string body, type; bool known = false; int part = 1; bool fails = false; int failAfter = 0;
	bool get(std::string_view, IWriteStarter& w) override {
		auto fill = [&](GeneralisedBuffer& b) { if (fails) { b += std::string_view(body).substr(0, failAfter); throw std::runtime_error("failed"); } if (part == 0) { for (char c : body) b += c; return; } size_t n = part == 1 ? body.size() : (body.size() + part - 1) / part; for (size_t at = 0; at < body.size(); at += n) b += std::string_view(body).substr(at, n); };
		if (known) w.writeKnownSize(type, body.size(), fill); else w.writeUnknownSize(type, fill); return true;
	}
};
extern "C" void h_http_response() {
	static const int N[] = {0, 1, 9, 10, 99, 100, 900, 930, 945, 960, 961, 962, 963, 964, 965, 966, 967, 968, 969, 970, 971, 972, 990, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 3071, 3072, 3073, 4096, 5000, 6144, 7000, 9999, 10000, 99999, 100000};
	Sized app; app.body = std::string(N[choice(sizeof(N) / sizeof(*N), "size")], 'x'); for (size_t i = 0; i < app.body.size(); i++) app.body[i] = char('a' + i % 23); if (!app.body.empty()) { app.body[0] = (char)sym_int(8, "first"); app.body.back() = (char)sym_int(8, "last"); }
	app.type = choice(2, "type") ? "text/html" : "a/b"; app.known = flag("known"); app.part = choice(4, "part"); if (app.body.size() > 9000) sym_assume(app.part != 0); DummyPostResponder post; Server server(app, post); HConn c(server.getSession()); c.feed("GET / HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n");
	std::vector<HttpMsg> m; sym_check(parseResponses(c.out, m) && m.size() == 2, "each request gets exactly one well-formed response"); for (auto& r : m) { sym_check(r.code == 200 && eqBytes(r.body, app.body), "the response has exactly the body"); sym_check(r.header("content-type") == app.type, "the response has its type"); } sym_check(!c.closed && c.pending.empty(), "requests are consumed"); sym_cover(app.known ? "known size" : "unknown size");
}
extern "C" void h_http_failing() { // a responder failing while it writes
	static const int N[] = {0, 1, 500, 1500}; Sized app; app.body = std::string(N[choice(4, "size")], 'x'); app.known = flag("known"); app.type = "a/b"; app.fails = true; app.failAfter = std::min<int>(app.body.size(), N[choice(4, "after")]); DummyPostResponder post; Server server(app, post); HConn c(server.getSession()); c.feed("GET / HTTP/1.1\r\n\r\n");
	std::vector<HttpMsg> m; bool whole = parseResponses(c.out, m); sym_check(c.closed || (whole && m.size() == 1 && m[0].code == 500), "a failed response is an error or the connection is closed"); sym_check(!whole || m.size() <= 1, "no second response"); sym_cover(c.closed ? "closed" : "error");
}
extern "C" void h_http_hostile() {
	static const char* P[] = {"", "GET", "GET /", "GET / HTTP/1.1\r", "GET / HTTP/1.1\r\n", "GET / HTTP/1.1\r\nA", "GET / HTTP/1.1\r\nContent-Length", "POST / HTTP/1.1\r\nContent-Length:", "POST / HTTP/1.1\r\nContent-Length: 1", "POST / HTTP/1.1\r\nContent-Length: 1\r\n\r\n", "POST / HTTP/1.1\r\nContent-Type:", "GET / HTTP/1.1\r\nConnection: close\r\n"};
	App app; app.mode = 1; Server server(app, app); HConn c(server.getSession()); std::string t = P[choice(12, "prefix")]; int len = choice(sym_param("n", 3) + 1, "len"); t += symStr(len, "b"); static const char* S[] = {"", "\r\n\r\n", " / HTTP/1.1\r\n\r\n"}; t += S[choice(3, "suffix")]; int cut = choice(3, "cut"); size_t a = cut == 0 ? 0 : cut == 1 ? t.size() / 2 : t.size() - (t.empty() ? 0 : 1);
	bool thrown = false; try { c.feed(std::string_view(t).substr(0, a)); c.feed(std::string_view(t).substr(a)); } catch (...) { thrown = true; }
	sym_check(!thrown, "malformed input raises no exception"); std::vector<HttpMsg> m; sym_check(parseResponses(c.out, m), "only whole responses are sent"); sym_check((int)m.size() == c.answered || ((int)m.size() == c.answered + 1 && c.closed), "no responses without requests"); sym_cover(c.closed ? "closed" : c.answered ? "answered" : "waits");
}
extern "C" void h_http_length() { // any text as Content-Length
	App app; Server server(app, app); HConn c(server.getSession()); static const char* L[] = {"2147483647", "2147483648", "4294967296", "4294967297", "9223372036854775807", "18446744073709551616", "-1", "-2147483648", "+1", "1 2", "0x1", "1,1", " ", "", "1.0", "1e0", "99999999999999999999999999"}; bool sym = flag("sym"); std::string l = sym ? symStrUpTo(sym_param("n", 2), "l") : L[choice(17, "l")];
	int64_t v = 0; bool digits = !l.empty(); for (char ch : l) { sym_assume(ch != '\r' && ch != '\n'); digits = digits && ch >= '0' && ch <= '9'; } if (sym && digits) for (char ch : l) v = v * 10 + (ch - '0');
	std::string body = "0123456789GET /x HTTP/1.1\r\n\r\n"; bool thrown = false; try { c.feed("POST / HTTP/1.1\r\nContent-Length:" + l + "\r\n\r\n" + body); } catch (...) { thrown = true; } sym_check(!thrown, "no exception");
	if (sym && digits && v <= 10) { sym_check(!app.log.empty() && app.log[0].body == body.substr(0, v), "the length is obeyed"); sym_cover("obeyed"); } else if (app.log.empty()) sym_cover("refused"); for (auto& r : app.log) sym_check(r.body.size() <= body.size(), "no more than was sent");
	if (!sym) sym_check(app.log.empty(), "an unusable length is refused");
}
// ---- long requests, many requests, many connections
extern "C" void h_http_long() {
	static const size_t N[] = {15, 16, 17, 64, 127, 128, 255, 256, 257, 1000, 1024, 2048, 3072, 4096, 10000, 65535, 65536, 70000}; int what = choice(6, "what"); size_t n = N[choice(18, "n")]; char c = (char)sym_int(8, "c"); sym_assume(c != ' ' && c != '\t' && c != '\r' && c != '\n' && c != ':'); std::string filler(n, 'x'); for (size_t i = 0; i < n; i++) filler[i] = char('a' + i % 25); filler[choice(2, "at") ? n - 1 : n / 2] = c;
	Req r; r.called = true; bool post = what == 0 || what == 2 || what == 5 || flag("post"); std::string path = what == 1 ? "/" + filler : "/p", type = what == 2 ? "a/" + filler : "a/b", body = what == 0 ? filler : post ? "body" : "", others; if (what == 3) others = "X-Other: " + filler + "\r\n"; if (what == 4) { sym_assume(n <= 300); for (size_t i = 0; i < n; i++) others += "X-" + decimal((int)i) + ": " + decimal((int)(i * i)) + "\r\n"; } if (what == 5) { sym_assume((unsigned char)c > ' '); others = filler + ": x\r\n"; }
	bool before = flag("before"); std::string len = post ? "Content-Length: " + decimal(body.size()) + "\r\n" : ""; r.text = std::string(post ? "POST " : "GET ") + path + " HTTP/1.1\r\n" + (before ? others : "") + (post ? "Content-Type: " + type + "\r\n" : "") + len + (before ? "" : others) + "\r\n" + body; r.rec = {post ? 'P' : 'G', path, post ? type : "", body};
	App app; Server server(app, app); HConn conn(server.getSession()); std::vector<Req> reqs{r, r}; reqs[1].text = "POST /q HTTP/1.1\r\nContent-Length: 2\r\n\r\nhi"; reqs[1].rec = {'P', "/q", "", "hi"}; std::string all = r.text + reqs[1].text; static const size_t P[] = {0, 1460, 256, 7}; size_t piece = P[choice(n > 5000 ? 1 : n > 300 ? 2 : n > 100 ? 3 : 4, "piece")]; if (piece) for (size_t i = 0; i < all.size(); i += piece) conn.feed(std::string_view(all).substr(i, piece)); else { size_t h = all.size() / 2; conn.feed(std::string_view(all).substr(0, h)); conn.feed(std::string_view(all).substr(h)); }
	sym_check(!conn.closed && conn.pending.empty() && conn.answered == 2, "requests are consumed exactly"); checkCalls(app, reqs); checkAnswers(conn.out, reqs, 0); sym_cover("long");
}
extern "C" void h_http_many() { // many requests on several connections
	static const int N[] = {4, 10, 100, 260}; int n = N[choice(4, "n")]; bool turns = flag("turns"); App app; Server server(app, app); std::vector<std::unique_ptr<HConn>> conns; int k = 1 + choice(3, "conns") * 4; for (int i = 0; i < k; i++) conns.push_back(std::make_unique<HConn>(server.getSession())); std::vector<std::vector<Req>> reqs(k); std::vector<std::string> streams(k); char c = (char)sym_int(8, "c"); std::vector<Req> order;
	for (int i = 0; i < n; i++) { int w = i % k; Req r; r.called = i % 5 != 3; r.weird = !r.called; bool post = i % 3 == 1; std::string body = post ? std::string(i % 7, char('a' + i % 20)) : ""; if (post && i % 7) body[0] = c; std::string path = "/" + decimal(i), type = post && i % 2 ? "t/" + decimal(i) : ""; r.text = std::string(r.weird ? "PATCH " : post ? "POST " : "GET ") + path + " HTTP/1.1\r\n" + (type.empty() ? "" : "Content-Type: " + type + "\r\n") + (post ? "Content-Length: " + decimal((int)body.size()) + "\r\n" : "") + "\r\n" + body; r.rec = {post ? 'P' : 'G', path, type, body}; reqs[w].push_back(r); if (turns) { std::string_view t = r.text; conns[w]->feed(t.substr(0, t.size() / 2)); streams[w] = ""; conns[w]->feed(t.substr(t.size() / 2)); order.push_back(r); } else streams[w] += r.text; }
	if (!turns) for (int w = 0; w < k; w++) { conns[w]->feed(streams[w]); for (auto& r : reqs[w]) order.push_back(r); } checkCalls(app, order); for (int w = 0; w < k; w++) { sym_check(!conns[w]->closed && conns[w]->pending.empty() && conns[w]->answered == (int)reqs[w].size(), "requests are consumed exactly"); checkAnswers(conns[w]->out, reqs[w], 0); } sym_cover("many");
}
extern "C" void h_http_huge() { // a body with as many digits in its size as possible here
	static const int N[] = {999999, 1000000, 1048577}; Sized app; app.body = std::string(N[choice(3, "size")], 'x'); app.body[0] = (char)sym_int(8, "first"); app.body.back() = (char)sym_int(8, "last"); app.type = "a/b"; app.known = flag("known"); App posts; Server server(app, posts); HConn c(server.getSession()); std::string body = app.body; c.feed("GET / HTTP/1.1\r\n\r\nPOST /p HTTP/1.1\r\nContent-Length: " + decimal((int)body.size()) + "\r\n\r\n" + body + "GET / HTTP/1.1\r\n\r\n"); std::vector<HttpMsg> m; bool ok = parseResponses(c.out, m) && m.size() == 3; sym_check(ok, "each request gets exactly one well-formed response"); if (!ok) return; sym_check(eqBytes(m[0].body, app.body) && eqBytes(m[2].body, app.body), "the response has exactly the body"); sym_check(posts.log.size() == 1 && eqBytes(posts.log[0].body, body), "a request is served with its body"); sym_check(!c.closed && c.pending.empty(), "requests are consumed"); sym_cover("huge");
}
struct Late : IHttpGetResponder, IHttpPostResponder { // fails or changes its mind after its response
	bool known = false, fails = false, result = true; std::string body; int calls = 0;
	bool write(IWriteStarter& w) { calls++; auto fill = [&](GeneralisedBuffer& b) { b += std::string_view(body); }; if (known) w.writeKnownSize("a/b", body.size(), fill); else w.writeUnknownSize("a/b", fill); if (fails) throw std::runtime_error("failed"); return result; }
	bool get(std::string_view path, IWriteStarter& w) override { return path == "/next" ? false : write(w); }
	bool post(std::string_view, std::string_view, std::span<char>, IWriteStarter& w) override { return write(w); }
};
static int boomed = 0; static void goBoom() { boomed++; throw std::runtime_error("boom"); }
struct Boom : RpcObject<Boom> { RpcMember<[](int a = name("a")) { goBoom(); }> boom = child<"boom">; };
static void oneAnswer(HConn& c, std::string_view body) { // the answered request is followed by one for a missing resource
	std::vector<HttpMsg> m; bool whole = parseResponses(c.out, m); sym_check(whole, "only whole responses are sent"); if (!whole) return; sym_check(m.size() == (c.closed ? 1u : 2u), "no second response to a request"); if (m.empty()) return; sym_check(m[0].code == 200 && eqBytes(m[0].body, body), "the written response is sent"); if (!c.closed && m.size() == 2) { sym_check(m[1].code == 404, "the next request is answered"); sym_check(c.pending.empty(), "requests are consumed"); }
}
extern "C" void h_http_late() { // failures after a finished response
	static const int N[] = {0, 1, 3, 1000, 1500, 5000}; bool rpc = flag("rpc"), post = !rpc && flag("post"); std::string body(N[choice(6, "size")], 'x'); if (!body.empty()) body.back() = (char)sym_int(8, "last"); Late app; app.known = flag("known"); app.body = body; app.fails = rpc ? false : flag("fails"); app.result = app.fails || rpc || flag("result");
	if (!rpc) { Server server(app, app); HConn c(server.getSession()); c.feed(std::string(post ? "POST /x HTTP/1.1\r\nContent-Length: 0\r\n\r\n" : "GET /x HTTP/1.1\r\n\r\n") + "GET /next HTTP/1.1\r\n\r\n"); sym_check(app.calls == 1, "the responder is called once"); oneAnswer(c, body); sym_cover(app.fails ? "fails late" : "answered"); return; }
	Boom api; boomed = 0; RpcGetResponder<std::string> get(app, api); DummyPostResponder none; Server server(get, none); HConn c(server.getSession()); c.feed("GET /boom?a=1 HTTP/1.1\r\n\r\nGET /next HTTP/1.1\r\n\r\n"); sym_check(app.calls == 1 && boomed == 1, "the page and the method are called once"); oneAnswer(c, body); sym_cover("method fails");
}
// ---- what headers mean
static std::string caseOf(std::string t) { int how = choice(4, "letters"); for (size_t i = 0; i < t.size(); i++) if (how == 1 || (how == 2 && (i == 0 || t[i - 1] == '-')) || (how == 3 && i % 2)) if (t[i] >= 'a' && t[i] <= 'z') t[i] -= 32; return t; }
extern "C" void h_http_coding() { // bodies framed in a way the server does not know, or in several ways at once, are never taken for something else
	App app; Server server(app, app); HConn c(server.getSession()); static const char* M[] = {"GET", "POST", "PUT"}; int method = choice(3, "method"); int kind = choice(4, "kind"); static const char* V[] = {"chunked", "gzip, chunked", "Chunked "}; static const char* LENS[] = {"", "Content-Length: 0\r\n", "Content-Length: 2\r\n", "Content-Length: 90\r\n"}; int len = choice(4, "len"); std::string inner = "GET /inner HTTP/1.1\r\n\r\n", head, body;
	if (kind == 0) { std::string te = caseOf("transfer-encoding"); te += ": "; te += V[choice(3, "value")]; te += "\r\n"; head = flag("first") ? te + LENS[len] : LENS[len] + te; body = "19\r\n" + inner + "\r\n0\r\n\r\n"; }
	else { std::string a = caseOf("content-length") + ": 2\r\n", b = std::string("content-length: ") + (kind == 1 ? "2" : kind == 2 ? "27" : "0") + "\r\n"; if (flag("first")) std::swap(a, b); head = a + (len == 1 ? "X-A: b\r\n" : "") + b; body = "hi" + inner; }
	std::string t = std::string(M[method]) + " /outer HTTP/1.1\r\n" + head + "\r\n" + body + "GET /behind HTTP/1.1\r\n\r\n"; size_t cut = sym_choice(t.size(), "cut"); c.feed(std::string_view(t).substr(0, cut)); if (!c.closed) c.feed(std::string_view(t).substr(cut)); std::vector<HttpMsg> m; sym_check(parseResponses(c.out, m), "whole responses are sent");
	if (kind == 1) { sym_check(m.size() == 3 && !c.closed && c.pending.empty() && (int)app.log.size() == (method == 2 ? 2 : 3), "a size given twice is a size"); sym_cover("same"); return; }
	sym_check(app.log.empty() && c.closed, "a body of unknown size is refused"); sym_check(m.size() <= 1 && (m.empty() || m[0].code >= 400), "the refusal is the only answer"); sym_cover(kind == 0 ? "coded" : "different");
}
extern "C" void h_http_spacing() { // blanks around values, letter cases of names and of what they mean
	App app; app.mode = 1; Server server(app, app); HConn c(server.getSession()); static const char* BEFORE[] = {"", " ", "\t", "  \t"}; static const char* AFTER[] = {"", " ", "\t", " \t "}; static const char* V[] = {"close", "keep-alive", "clos", "closed", "xclose", "c"}; int v = choice(6, "value"); std::string conn = v == 0 ? caseOf("close") : V[v];
	std::string n1 = caseOf("connection"), before = BEFORE[choice(4, "before")], after = AFTER[choice(4, "after")]; std::string type = "a/" + symStr(1, "type"); sym_assume((unsigned char)type[2] > ' '); std::string t = "POST /x HTTP/1.1\r\n" + n1 + ":" + before + conn + after + "\r\nContent-Type:" + before + type + after + "\r\nX-Empty:" + before + "\r\nContent-Length:" + before + "2" + after + "\r\n\r\nhi"; size_t cut = sym_choice(4, "cut") * t.size() / 4; c.feed(std::string_view(t).substr(0, cut)); c.feed(std::string_view(t).substr(cut));
	sym_check(app.log.size() == 1, "the request is served"); if (app.log.size() == 1) sym_check(eqBytes(app.log[0].type, type) && app.log[0].body == "hi", "values are what is between the blanks"); sym_check(c.closed == (v == 0), "the connection is closed if asked"); std::vector<HttpMsg> m; sym_check(parseResponses(c.out, m) && m.size() == 1 && m[0].code == 200, "there is one response"); sym_cover(v == 0 ? "closed" : "open");
}
extern "C" void h_http_names() { // headers whose names only resemble known ones mean nothing
	static const char* const K[] = {"content-length", "connection", "transfer-encoding", "content-type"}; std::string value, name = strangeName(K, 4, value); App app; app.mode = 1; Server server(app, app); HConn c(server.getSession()); bool post = flag("post"), first = flag("first"), typed = flag("typed"); std::string odd = name + ": " + value + "\r\n", usual = std::string(post ? "Content-Length: 2\r\n" : "") + (typed ? "Content-Type: a/b\r\n" : "");
	std::string t = std::string(post ? "POST" : "GET") + " /x HTTP/1.1\r\n" + (first ? odd + usual : usual + odd) + "\r\n" + (post ? "hi" : "") + "GET /behind HTTP/1.1\r\n\r\n"; c.feed(t); sym_check(!c.closed && c.pending.empty() && app.log.size() == 2, "requests are consumed exactly"); if (app.log.size() != 2) return;
	sym_check(app.log[0].kind == (post ? 'P' : 'G') && app.log[0].body == (post ? "hi" : "") && app.log[1].path == "/behind", "a request is served with its path and body"); sym_check(!post || app.log[0].type == (typed ? "a/b" : ""), "a request is served with its type"); std::vector<HttpMsg> m; sym_check(parseResponses(c.out, m) && m.size() == 2, "each request gets exactly one response"); sym_cover("ignored");
}
