// URL-encoded forms: values, objects, calls by web pages, hostile input
#include "rpcapi.hpp"
#include "bomba_http.hpp"
#include "httpref.hpp"
#include "loop.hpp"
using Form = HtmlMessageEncoding<std::string, std::string>; static constexpr auto NF = SerialisationFlags::NONE;

// ---- a reference: how a browser encodes characters a page of the Latin-1 encoding cannot hold
static void utf8(std::string& s, unsigned c) { if (c < 0x80) s += char(c); else if (c < 0x800) { s += char(0xc0 | c >> 6); s += char(0x80 | (c & 63)); } else if (c < 0x10000) { s += char(0xe0 | c >> 12); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } else { s += char(0xf0 | c >> 18); s += char(0x80 | (c >> 12 & 63)); s += char(0x80 | (c >> 6 & 63)); s += char(0x80 | (c & 63)); } }
static int hexOf(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// decodes; false if it is not a well-formed part of a form
static bool refDecode(std::string_view t, std::string& out) {
	std::vector<unsigned> c; for (size_t i = 0; i < t.size(); i++) { unsigned char x = t[i]; if (x == '+') c.push_back(' '); else if (x == '%') { if (i + 2 >= t.size()) return false; int h = hexOf(t[i + 1]), l = hexOf(t[i + 2]); if (h < 0 || l < 0) return false; c.push_back(h * 16 + l); i += 2; } else { if (x <= ' ' || x >= 127 || x == '&' || x == '=' || x == '#' || x == ';') return false; c.push_back(x); } }
	for (size_t i = 0; i < c.size(); i++) { if (c[i] == '&' && i + 3 < c.size() && c[i + 1] == '#') { size_t j = i + 2; unsigned v = 0; while (j < c.size() && c[j] >= '0' && c[j] <= '9' && j < i + 9) v = v * 10 + (c[j++] - '0'); if (j > i + 2 && j < c.size() && c[j] == ';') { utf8(out, v); i = j; continue; } } utf8(out, c[i]); } return true;
}
// a symbolic character: all of ASCII, all of two bytes, windows of longer ones
static unsigned symChar(int kinds) {
	switch (choice(kinds, "kind")) { case 0: return sym_int(7, "ascii"); case 1: { unsigned c = sym_int(8, "latin"); sym_assume(c >= 0x80); return c; } default: { static const unsigned BASE[] = {0x100, 0x7f8, 0xd7f0, 0xfff8, 0x1f60a, 0x10fff0, 0x3e0, 0xff8, 0x1ff8, 0xe000, 0x3fff8, 0xffff8}; unsigned k = choice(sym_param("bases", 6), "base"); return BASE[k] + sym_int(4, "low"); } }
}
static std::string encode(std::string_view s) { // with the code under test
	 std::string out; Form::Output o(out); o.startWritingObject(NF, 1); o.introduceObjectMember(NF, "k", 0); o.writeString(NF, s); o.endWritingObject(NF); sym_check(out.substr(0, 2) == "k=", "the member is named"); return out.substr(2); }
static void textCheck(const std::string& s) {
	std::string e = encode(s), ref; sym_check(refDecode(e, ref) && eqBytes(ref, s), "the encoded text means what was encoded");
	std::string t = "a=%31&k=" + e + "&z=1"; Exact in(t); Form::Input r(in); int members = 0;
	r.readObject(NF, [&](std::optional<std::string_view> n, int i) { sym_check(n && i == members, "members are counted"); members++; if (*n == "k") { auto at = r.storePosition(NF); std::string got(r.readString(NF)); sym_check(eqBytes(got, s), "the text read is the text written"); r.restorePosition(NF, at); sym_check(eqBytes(r.readString(NF), s), "it can be read again"); } else if (*n == "a") r.skipObjectElement(NF); else { sym_check(*n == "z", "names are read"); sym_check(r.readInt(NF) == 1, "what follows is read"); } return true; });
	sym_check(members == 3, "all members are read");
}
extern "C" void h_form_text() { int n = choice(sym_param("n", 2) + 1, "n"); std::string s; for (int i = 0; i < n; i++) utf8(s, symChar(i ? sym_param("more", 2) : 3)); textCheck(s); sym_cover("text"); }
extern "C" void h_form_entities() { // texts that look like encoded ones
	static const char* A[] = {"&", "#", "6", "5", ";", "%", "x", "&#", "%26", "+"}; int n = sym_param("n", 4); std::string s; for (int i = 0; i < n; i++) s += A[choice(10, "part")]; textCheck(s); sym_cover("entities");
}
extern "C" void h_form_decode() { // anything a browser may send: any byte percent-encoded, capital or small hexadecimal digits, numeric entities
	static const char* HEX = "0123456789abcdefABCDEF"; std::string t, want; int n = 1 + choice(sym_param("n", 2), "n");
	for (int i = 0; i < n; i++) switch (choice(4, "unit")) {
	case 0: { char c = (char)sym_int(8, "c"); sym_assume((unsigned char)c > ' ' && (unsigned char)c < 127 && c != '&' && c != '=' && c != '%' && c != '+' && c != ';' && c != '#'); t += c; want += c; break; }
	case 1: t += '+'; want += ' '; break;
	case 2: { unsigned h = sym_int(4, "h"), l = sym_int(4, "l"); bool capital = flag("capital"); auto d = [&](unsigned v) { return (char)(v + (v < 10 ? '0' : capital ? 'A' - 10 : 'a' - 10)); }; t += '%'; t += d(h); t += d(l); unsigned v = h * 16 + l; sym_assume(v != '&'); utf8(want, v); break; }
	case 3: { unsigned k = 256 + sym_int(6, "e"); t += "%26%23" + decimal(k) + "%3" + (flag("capital") ? "B" : "b"); utf8(want, k); break; }
	}
	(void)HEX; Exact in(t); Form::Input r(in); sym_check(eqBytes(r.readString(NF), want), "a text of a form is read as what it means"); sym_cover("decoded");
}
extern "C" void h_form_numbers() {
	int64_t v = symWindow64("v", sym_param("w", 4)); std::string out; { Form::Output o(out); o.startWritingObject(NF, 2); o.introduceObjectMember(NF, "a b", 0); o.writeInt(NF, v); o.introduceObjectMember(NF, "k&", 1); o.writeInt(NF, v); o.endWritingObject(NF); }
	std::string d = decimal(v); sym_check(eqBytes(out, "a+b=" + d + "&k%26=" + d), "numbers and names are encoded"); Exact in(out); Form::Input r(in); int n = 0; r.readObject(NF, [&](std::optional<std::string_view> name, int) { sym_check(*name == (n ? "k&" : "a b"), "names are decoded"); n++; sym_check(r.identifyType(NF) == IStructuredInput::TYPE_INTEGER, "it is an integer"); sym_check(r.readInt(NF) == v, "numbers are read"); return true; }); sym_check(n == 2, "all members are read"); sym_cover("numbers");
}
extern "C" void h_form_types() { // what a value is
	static const char* T[] = {"1", "-5", "1.5", "1e5", "-1E-5", "2.5e%2b3", "", "-", "e5", ".", "1e", "1.2.3", "x", "1x", "%31", "12%2e5", "1%2e", "+1", "0", "9999999999"}; static const int K[] = {0, 0, 1, 1, 1, 1, 2, 2, 2, 2, 2, 2, 2, 2, 0, 1, 1, 2, 0, 0}; int k = choice(20, "text"); bool sym = flag("sym"); std::string t = sym ? symStrUpTo(2, "t") : T[k]; if (sym) for (char c : t) sym_assume(c != '%' && c != '+' && c != '&');
	Exact in(t); Form::Input r(in); auto got = r.identifyType(NF); int want = K[k]; if (sym) { auto digit = [](char c) { return c >= '0' && c <= '9'; }; bool int1 = t.size() >= 1; for (size_t i = 0; i < t.size(); i++) if (!digit(t[i]) && !(i == 0 && t[0] == '-' && t.size() == 2)) int1 = false; bool fl = t.size() == 2 && ((digit(t[0]) && t[1] == '.') || (t[0] == '.' && digit(t[1]))); want = int1 ? 0 : fl ? 1 : 2; }
	sym_check(got == (want == 0 ? IStructuredInput::TYPE_INTEGER : want == 1 ? IStructuredInput::TYPE_FLOAT : IStructuredInput::TYPE_STRING), "the type of a value"); if (!sym && want == 1) { double v = r.readFloat(NF); static const double V[] = {0, 0, 1.5, 1e5, -1e-5, 2500}; if (k < 6) sym_check(v == V[k], "the value of a number"); if (k == 15) sym_check(v == 12.5, "the value of a number"); } sym_cover(want == 0 ? "integer" : want == 1 ? "float" : "string");
}
// ---- objects
struct Page : Serialisable<Page> { std::string text = key<"te xt">; int32_t num = key<"n&m">; std::string other = key<"other">; };
extern "C" void h_form_object() { // members in any order, some missing, some unknown
	Page a; a.text = symStr(1, "t"); sym_assume((unsigned char)a.text[0] < 0x80); a.num = (int8_t)sym_int(8, "n"); sym_assume(a.num > -12 && a.num < 12); a.other = flag("o") ? "&=\xc3\xa9" : ""; std::string out; { Form::Output o(out); TypedSerialiser<Page>::serialiseMember(o, a, NF); } std::string te = encode(a.text), d = decimal(a.num), oe = encode(a.other); sym_check(eqBytes(out, "te+xt=" + te + "&n%26m=" + d + "&other=" + oe), "objects are encoded");
	std::string m[3] = {"te%20xt=" + te, "n%26m=" + d, "other=" + oe}; static const int PERM[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}}; static const char* EXTRA[] = {"x=1", "x", "=1", "", "n=7", "text=2&otherr=3"}; const int* p = PERM[choice(6, "order")]; bool has[3]; for (auto& h : has) h = flag("has"); int extra = choice(7, "extra"), at = extra ? choice(4, "at") : 0; std::string t; bool any = false; auto put = [&](std::string_view s) { if (any) t += "&"; any = true; t += s; }; for (int i = 0; i <= 3; i++) { if (extra && at == i) put(EXTRA[extra - 1]); if (i < 3 && has[p[i]]) put(m[p[i]]); }
	Page b; b.text = "old"; b.num = 99; b.other = "older"; Exact in(t); Form::Input r(in); TypedSerialiser<Page>::deserialiseMember(r, b, NF); sym_check(eqBytes(b.text, has[0] ? a.text : "old") && b.num == (has[1] ? a.num : 99) && eqBytes(b.other, has[2] ? a.other : "older"), "the members that are there are read, others stay"); sym_cover("object");
}
// ---- pages calling methods
struct Fixed : IHttpGetResponder { std::vector<std::string> asked; bool get(std::string_view path, IWriteStarter& w) override { asked.push_back(std::string(path)); if (path != "/page") return false; w.writeKnownSize("text/html", 4, [](GeneralisedBuffer& b) { b += std::string_view("page"); }); return true; } };
extern "C" void h_form_call() { // a form sent by POST or in the address
	Api api; DynamicRpcObject root; root.add("api", RpcLambdaHolder::nonOwning(api)); Fixed pages; RpcGetResponder<std::string> get(pages, root); HtmlPostResponder<> post(root); HttpServer<> server(get, post); Served<HttpServer<>::Session> c(server.getSession()); bool usePost = flag("post"); int m = choice(5, "method"); std::string text; utf8(text, symChar(sym_param("kinds", 2))); int32_t a = (int8_t)sym_int(8, "a"); sym_assume(a > -12 && a < 12); Call want{m}; std::string path = "/api/", args; bool calls = true; int code = 204;
	switch (m) { case 0: path += "set"; args = "message=" + encode(text); want.s = text; if (flag("loud")) { args = "loud=on&" + args; want.f = true; } if (flag("question")) args = "x=?a&y?=&" + args; break; case 1: path += "sub"; args = "b=3&x=7&a=" + decimal(a); want.a = a; want.b = 3; break; case 2: path += "ping"; want.method = 4; break; case 3: path = "/page"; calls = false; args = "a=1"; break; case 4: path += "none"; calls = false; args = "a=1"; }
	std::string t = usePost ? "POST " + path + " HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(args.size()) + "\r\n\r\n" + args : "GET " + path + "?" + args + " HTTP/1.1\r\n\r\n"; size_t cut = choice(4, "cut") * t.size() / 4; c.feed(std::string_view(t).substr(0, cut)); c.feed(std::string_view(t).substr(cut));
	std::vector<HttpMsg> r; sym_check(parseResponses(c.out, r) && r.size() == 1 && !c.closed && c.pending.empty(), "one response"); if (r.size() != 1) return; sym_check(calls ? api.log.size() == 1 && api.log[0] == want : api.log.empty(), "a method is called once with the values of the form");
	if (m == 3) sym_check(usePost ? r[0].code == 400 : r[0].code == 200 && r[0].body == "page", "a page is sent"); else if (m == 4) sym_check(r[0].code == (usePost ? 400 : 404), "there is no such method"); else sym_check(r[0].code >= 200 && r[0].code < 300, "the call succeeds"); if (!usePost && m == 1) sym_check(eqBytes(r[0].body, decimal(a - 3)), "the result is sent"); sym_cover(calls ? "called" : m == 3 ? "page" : "nothing");
}
extern "C" void h_form_paths() { // any path by either method
	Api api; DynamicRpcObject root; root.add("api", RpcLambdaHolder::nonOwning(api)); Fixed pages; RpcGetResponder<std::string> get(pages, root); HtmlPostResponder<> post(root); HttpServer<> server(get, post); Served<HttpServer<>::Session> c(server.getSession()); static const char* P[] = {"", "/", "/api", "/api/", "/api/ping", "/page"}; std::string path = P[choice(6, "prefix")]; path += symStrUpTo(sym_param("n", 2), "p"); for (char x : path) sym_assume((unsigned char)x > ' ' && x != '?'); bool usePost = flag("post"), args = !usePost && flag("args"); if (path.empty() && !args) return; std::string bare = path; if (args) path += "?a=1";
	bool page = !usePost && (eqBytes(path, "/page") || eqBytes(path, "/page?a=1")), ping = (usePost || args) && bare.size() >= 9 && bare.size() <= 10 && eqBytes(bare.substr(1, 8), "api/ping") && (bare.size() == 9 || bare[9] == '/');
	c.feed(usePost ? "POST " + path + " HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: 3\r\n\r\na=1" : "GET " + path + " HTTP/1.1\r\n\r\n"); std::vector<HttpMsg> r; sym_check(parseResponses(c.out, r) && r.size() == 1 && !c.closed && c.pending.empty(), "one response"); if (r.size() != 1) return; if (page) sym_check(r[0].code == 200 && r[0].body == "page", "a page is sent"); else if (ping) sym_check(r[0].code >= 200 && r[0].code < 300 && api.log.size() == 1, "a method is called"); else { sym_check(api.log.empty(), "nothing is called"); bool object = args && (bare.size() <= 1 || (bare.size() <= 5 && eqBytes(bare.substr(1, 3), "api") && (bare.size() == 4 || bare[4] == '/'))); if (!object) sym_check(r[0].code == (usePost ? 400 : 404), "there is nothing of that name"); } sym_cover(page ? "page" : ping ? "called" : "nothing");
}
extern "C" void h_form_hostile() {
	static const char* P[] = {"", "a", "te+xt=", "te+xt=%", "n%26m=", "n%26m=1", "%26%23", "te+xt=%26%23", "te+xt=%26%239", "te+xt=%26%2338%3", "&", "x=%26%2399999999999", "other=\xc3"}; std::string t = P[choice(13, "prefix")]; t += symStrUpTo(sym_param("n", 3), "b"); if (flag("more")) t += "3b&other=1"; int outcome = 0; int how = choice(3, "how");
	try { Exact in(t); Form::Input r(in); if (how == 0) { Page b; TypedSerialiser<Page>::deserialiseMember(r, b, NF); } else if (how == 1) { int n = 0; r.readObject(NF, [&](std::optional<std::string_view>, int) { n++; switch (r.identifyType(NF)) { case IStructuredInput::TYPE_INTEGER: r.readInt(NF); break; case IStructuredInput::TYPE_FLOAT: r.readFloat(NF); break; default: r.readString(NF); } return true; }); sym_check(n <= (int)t.size() + 1, "no members out of nothing"); } else { r.readString(NF); r.identifyType(NF); r.readBool(NF); r.skipObjectElement(NF); r.readString(NF); } } catch (const ParseError&) { outcome = 1; } catch (const RemoteError&) { outcome = 2; } catch (...) { outcome = 3; }
	sym_check(outcome < 3, "only the library's errors are reported"); sym_cover(outcome == 1 ? "ParseError" : "accepted");
}
extern "C" void h_form_write_hostile() { // any bytes can be written, also ones that are no UTF-8
	std::string s = symStrUpTo(sym_param("n", 3), "s"); std::string out; Exact in(s); Form::Output o(out); o.writeString(NF, in); for (char c : out) sym_check((unsigned char)c > ' ' && (unsigned char)c < 127 && c != '&' && c != '=', "only characters allowed in forms are written"); sym_cover("written");
}
// ---- long texts and forms with many members
struct Menu : Serialisable<Menu> { std::string a = key<"a">; int32_t m99 = key<"m99">; std::string m5 = key<"m5">; int32_t last = key<"la st">; };
extern "C" void h_form_long() {
	static const size_t N[] = {15, 16, 17, 64, 127, 128, 255, 256, 257, 1000, 1024, 4096, 10000}; size_t n = N[choice(13, "n")]; static const char* UNIT[] = {"x", " ", "&", "\xc3\xa9", "\xf0\x9f\x98\x8a", "&#5;", "%", "=+", "\r\n"}; std::string s, u = UNIT[choice(n > 300 ? 4 : 9, "unit")]; while (s.size() < n) s += u; char c = (char)sym_int(7, "c"); if (n > 300) sym_assume(c == 'x' || c == ' ' || c == '&' || c == '\0'); s += c; if (flag("behind")) s += u; textCheck(s); sym_cover("long");
}
extern "C" void h_form_many() { // forms with many fields, most of them unknown, values of any length
	static const int N[] = {3, 10, 31, 32, 33, 64, 100, 128, 256, 300, 1000}; int n = N[choice(11, "n")]; int at = choice(3, "at"); at = at == 0 ? 0 : at == 1 ? n / 2 : n; int32_t v = (int8_t)sym_int(8, "v"); sym_assume(v > -12 && v < 12); std::string text = symStr(1, "t"); sym_assume((unsigned char)text[0] < 0x80); std::string e = encode(text), d = decimal(v), t; bool values = flag("values");
	for (int i = 0; i <= n; i++) { if (i == at) t += "la+st=" + d + "&a=" + e + "&"; t += "m" + decimal(i); if (values || i == 99 || i == 5) t += "=" + decimal(i); t += i < n ? "&" : ""; } Menu m; m.a = "old"; m.m99 = -1; m.m5 = "old"; m.last = 77; Exact in(t); Form::Input r(in); TypedSerialiser<Menu>::deserialiseMember(r, m, NF);
	sym_check(eqBytes(m.a, text) && m.last == v && m.m99 == (n >= 99 ? 99 : -1) && m.m5 == (n >= 5 ? "5" : "old"), "fields are found among many"); sym_cover("many");
}
extern "C" void h_form_call_many() { // a connection with many calls by pages, long arguments
	Api api; DynamicRpcObject root; root.add("api", RpcLambdaHolder::nonOwning(api)); Fixed pages; RpcGetResponder<std::string> get(pages, root); HtmlPostResponder<> post(root); HttpServer<> server(get, post); Served<HttpServer<>::Session> c(server.getSession()); int n = 4 + choice(3, "n") * 20; bool longer = flag("long"); char sym = (char)sym_int(7, "c"); std::vector<Call> want; int pagesSent = 0; bool usePost = flag("post");
	for (int i = 0; i < n; i++) switch (i % 4) { case 0: case 1: { std::string s = longer ? std::string(i * 50, 'x') : ""; s += decimal(i); if (i < 2) s += sym; Call k{0}; k.s = s; want.push_back(k); std::string args = "message=" + encode(s); if (usePost) c.feed("POST /api/set HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + decimal((int)args.size()) + "\r\n\r\n" + args); else c.feed("GET /api/set?" + args + " HTTP/1.1\r\n\r\n"); break; } case 2: { Call k{1}; k.a = i; k.b = 3; want.push_back(k); c.feed("GET /api/sub?a=" + decimal(i) + "&b=3 HTTP/1.1\r\n\r\n"); break; } case 3: c.feed("GET /page HTTP/1.1\r\n\r\n"); pagesSent++; break; }
	std::vector<HttpMsg> r; sym_check(parseResponses(c.out, r) && (int)r.size() == n && !c.closed && c.pending.empty(), "each request has its response"); if ((int)r.size() != n) return; sym_check(api.log.size() == want.size(), "each call is made once"); if (api.log.size() == want.size()) for (size_t i = 0; i < want.size(); i++) sym_check(api.log[i] == want[i], "values come as they were sent"); for (int i = 0; i < n; i++) if (i % 4 == 3) sym_check(r[i].code == 200 && r[i].body == "page", "pages are sent"); else if (i % 4 == 2) sym_check(r[i].body == decimal(i - 3), "results are sent in order"); (void)pagesSent; sym_cover("many");
}
// ---- members that are floating point numbers or optional, or that forms have no place for
struct Sheet : Serialisable<Sheet> { double big = key<"big">; float small = key<"sm all">; Optional<int32_t> maybe = key<"maybe", SerialisationFlags::EMPTY_IS_NULL>; Optional<std::string> note = key<"note", SerialisationFlags::EMPTY_IS_NULL>; int64_t wide = key<"wide">; uint8_t byte = key<"byte">; bool yes = key<"yes">; };
extern "C" void h_form_values() {
	static const double D[] = {0, 1, -1, 0.5, -2.25, 0.1, 1e20, -1e20, 1e21, 1e22, 1e100, 1e-7, -1e-20, 123456789.0, 1e15, 1e16, 1e17, 4.9e-324, 2.2250738585072014e-308, 1.7976931348623157e308, -1.7976931348623157e308, 3.141592653589793, 9007199254740993.0, 0.30000000000000004}; static const float F[] = {0, 1.5f, -0.1f, 1e20f, -1e-20f, 3.4028235e38f, 1.17549435e-38f, 16777217.0f}; static const int64_t W[] = {0, INT64_MAX, INT64_MIN, -1, 1ll << 53};
	Sheet a; a.yes = true; a.big = D[choice(24, "double")]; a.small = F[choice(8, "float")]; a.wide = W[choice(5, "wide")]; a.byte = (uint8_t)sym_int(8, "byte"); bool has = flag("has"), noted = flag("noted"); if (has) a.maybe = (int32_t)(int8_t)sym_int(8, "maybe"); if (noted) a.note = std::string("&?");
	std::string out; { Form::Output o(out); TypedSerialiser<Sheet>::serialiseMember(o, a, NF); } std::string t = flag("more") ? "x=1&" + out + "&y" : out; Sheet b; b.yes = false; b.big = 7; b.small = 7; b.wide = 7; b.byte = 7; b.maybe = 7; b.note = std::string("7"); Exact in(t); Form::Input r(in); TypedSerialiser<Sheet>::deserialiseMember(r, b, NF); sym_check(r.good, "what was written can be read");
	sym_check(b.big == a.big && b.small == a.small, "floating point numbers are read as they were written"); sym_check(b.wide == a.wide && b.byte == a.byte && b.yes, "other values are read as they were written"); sym_check(bool(b.maybe) == has && (!has || *b.maybe == *a.maybe), "optional numbers are read as they were written"); sym_check(bool(b.note) == noted && (!noted || eqBytes(*b.note, "&?")), "optional texts are read as they were written"); sym_cover(has ? "present" : "absent");
}
struct InnerPage : Serialisable<InnerPage> { int32_t n = key<"n">; };
struct Nested : Serialisable<Nested> { int32_t before = key<"before">; InnerPage inner = key<"inner">; };
struct Listed : Serialisable<Listed> { int32_t before = key<"before">; std::vector<int32_t> list = key<"list">; };
extern "C" void h_form_refused() { // forms are flat: what they cannot hold is refused, not lost
	int how = choice(6, "how"); int outcome = 0; std::string out, t = "before=5&inner=1&list=2&n=3"; char c = (char)sym_int(7, "c"); t += c; Exact in(t);
	try { switch (how) { case 0: { Nested a; a.before = 1; a.inner.n = 2; Form::Output o(out); TypedSerialiser<Nested>::serialiseMember(o, a, NF); break; } case 1: { Listed a; a.before = 1; a.list = {1, 2}; Form::Output o(out); TypedSerialiser<Listed>::serialiseMember(o, a, NF); break; } case 2: { Nested a; Form::Input r(in); TypedSerialiser<Nested>::deserialiseMember(r, a, NF); break; } case 3: { Listed a; Form::Input r(in); TypedSerialiser<Listed>::deserialiseMember(r, a, NF); break; } case 4: { Form::Output o(out); o.startWritingObject(NF, 1); o.introduceObjectMember(NF, "x", 0); o.writeNull(NF); break; } case 5: { Form::Output o(out); o.startWritingObject(NF, 1); o.introduceObjectMember(NF, "x", 0); o.writeBool(NF, false); break; } } } catch (const ParseError&) { outcome = 1; } catch (const std::logic_error&) { outcome = 2; }
	sym_check(outcome == (how == 2 || how == 3 ? 1 : 2), "what forms cannot hold is refused"); sym_cover(outcome == 1 ? "reading" : "writing");
}
extern "C" void h_form_integers() { // numbers where integers are expected, in any spelling, and what is no number
	static const struct { const char* t; int kind; int64_t v; } T[] = {{"12", 1, 12}, {"-7", 1, -7}, {"%31%32", 1, 12}, {"1e3", 1, 1000}, {"2.5e%2b2", 1, 250}, {"1.9", 1, 1}, {"-1.9", 1, -1}, {"9223372036854775807", 1, INT64_MAX}, {"12abc", 0, 0}, {"1.2.3", 0, 0}, {"1e", 0, 0}, {"1 2", 0, 0}, {"1+", 0, 0}, {"", 0, 0}, {"abc", 0, 0}, {"-", 0, 0}, {"1e19", 0, 0}, {"9223372036854775808", 0, 0}, {"1%00", 0, 0}}; auto& c = T[choice(19, "text")]; char x = (char)sym_int(8, "c"); sym_assume(x != '&' && x != '%'); int small = choice(3, "variable"); bool last = flag("last"); std::string t = "a="; t += c.t; if (!last) { t += "&b="; t += x; }
	Exact in(t); Form::Input r(in); bool refused = false; int64_t got = 5; int members = 0; std::string b; try { r.readObject(NF, [&](std::optional<std::string_view> n, int) { members++; if (*n == "a") { if (small == 0) got = r.readInt(NF); else if (small == 1) { int32_t v = 5; TypedSerialiser<int32_t>::deserialiseMember(r, v, NF); got = v; } else { uint8_t v = 5; TypedSerialiser<uint8_t>::deserialiseMember(r, v, NF); got = v; } } else r.skipObjectElement(NF); return true; }); } catch (const ParseError&) { refused = true; }
	bool fits = c.kind && (small == 0 || (small == 1 ? c.v >= INT32_MIN && c.v <= INT32_MAX : c.v >= 0 && c.v < 256)); sym_check(refused == !fits, "what is no integer or does not fit is refused"); if (fits) sym_check(got == c.v && members == (last ? 1 : 2), "integers are read as their value"); sym_cover(fits ? "read" : "refused");
}
extern "C" void h_form_floats() { // numbers where floating point numbers are expected, and what is no number
	static const struct { const char* t; bool number; double v; } T[] = {{"12", true, 12}, {"-0.5", true, -0.5}, {"%31.5", true, 1.5}, {"1e3", true, 1000}, {"2.5e%2b2", true, 250}, {"25E-1", true, 2.5}, {"12abc", false}, {"1.2.3", false}, {"1e", false}, {"1 2", false}, {"1+", false}, {"", false}, {"abc", false}, {"-", false}, {"1%00", false}, {"1,5", false}, {"0x10", false}}; auto& c = T[choice(17, "text")]; char x = (char)sym_int(8, "c"); sym_assume(x != '&' && x != '%'); bool small = flag("float"), last = flag("last"); std::string t = "a="; t += c.t; if (!last) { t += "&b="; t += x; }
	Exact in(t); Form::Input r(in); bool refused = false; double got = 5; int members = 0; try { r.readObject(NF, [&](std::optional<std::string_view> n, int) { members++; if (*n == "a") { if (small) { float v = 5; TypedSerialiser<float>::deserialiseMember(r, v, NF); got = v; } else TypedSerialiser<double>::deserialiseMember(r, got, NF); } else r.skipObjectElement(NF); return true; }); } catch (const ParseError&) { refused = true; }
	sym_check(refused == !c.number, "what is no number is refused"); if (c.number) sym_check(got == c.v && members == (last ? 1 : 2), "numbers are read as their value"); sym_cover(c.number ? "read" : "refused");
}
