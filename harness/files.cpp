// File servers: what is served for a path, from where, with what type; generated and cached files
#include "util.hpp"
#include <filesystem>
#include <fstream>
#include <iostream>
#include "bomba_core.hpp"
#include "bomba_http.hpp"
#include "bomba_download_server.hpp"
using namespace Bomba;
struct Taken : IWriteStarter { int starts = 0; std::string type, body; int64_t size = -1;
	void writeUnknownSize(std::string_view t, Callback<void(GeneralisedBuffer&)> f) override { starts++; type = t; ExpandingBuffer<> b; f(b); body = std::string_view(b); }
	void writeKnownSize(std::string_view t, int64_t n, Callback<void(GeneralisedBuffer&)> f) override { starts++; type = t; size = n; ExpandingBuffer<> b; f(b); body = std::string_view(b); } };
static const char* VISIBLE[] = {"/index.html", "/a.CSS", "/s/b.js", "/s/c", "/s/d.tar.gz", "/s/e.xyz", "/s/t/f.png", "/x..html", "/s/index.html", "/s/t/x.HTML"}; static const char* TYPE[] = {"text/html", "application/CSS", "text/javascript", "application/octet-stream", "application/gzip", "application/xyz", "image/png", "text/html", "text/html", "application/HTML"};
static constexpr int NV = 10; static std::string text[NV]; static const std::string ROOT = "/r/w";
static void fill(bool symbolic, int without = -1) {
	FsMock::files.clear(); FsMock::touched.clear(); for (auto d : {"/", "/cwd", "/r", "/r/w", "/r/w/s", "/r/w/s/t", "/r/w/.g", "/r/v", "/s"}) FsMock::files[d].isDir = true; for (auto n : {"/r/w/.p", "/r/w/.g/i", "/r/w/s/.q", "/r/o", "/r/v/o", "/o", "/s/o", "/cwd/o"}) FsMock::files[n].contents = "secret";
	for (int i = 0; i < NV; i++) { text[i] = symbolic ? symStr(i % 2 + 1, "contents") + std::string(1, char('0' + i)) : "contents " + std::string(1, char('0' + i)); FsMock::files[ROOT + VISIBLE[i]].contents = text[i]; if (i == without) FsMock::files.erase(ROOT + VISIBLE[i]); }
}
static void contained() { for (auto& t : FsMock::touched) { bool in = t == ROOT || (t.size() > ROOT.size() && t.compare(0, ROOT.size(), ROOT) == 0 && t[ROOT.size()] == '/'); sym_check(in, "nothing out of the folder is accessed"); } for (auto& [n, f] : FsMock::files) if (f.opened) { bool visible = false; for (auto v : VISIBLE) if (n == ROOT + v) visible = true; sym_check(visible, "only visible files of the folder are read"); } }
static const char* PRE[] = {"", "/", "/s/", "/..", "/s/..", "/../", "/s/../", "/index.html", "//", "/.", "/s/t", "/../w", "/s", "/r/w/", "/x."};
static const char* SUF[] = {"", "/o", "/../../o", "/.p", "/", "o", "html", "/index.html"};
extern "C" void h_file_paths() { // any path
	int without = flag("index") ? -1 : 0; fill(false, without); DynamicFileServer server(ROOT); std::string p = PRE[choice(15, "prefix")]; p += symStrUpTo(sym_param("n", 2), "p"); p += SUF[choice(8, "suffix")]; Taken w; bool got = server.get(p, w); contained(); sym_check(w.starts == (got ? 1 : 0), "a response is written if and only if something is found");
	int i = -1; for (int k = 0; k < NV; k++) if (p == VISIBLE[k]) i = k; if (p.empty() || p == "/") i = 0; if (i >= 0 && i == without) sym_check(!got, "nothing is found in place of a missing file"); else if (i >= 0) sym_check(got && w.body == text[i] && w.type == TYPE[i], "a file is sent with its type"); else if (got) { bool some = false; for (int k = 0; k < NV; k++) if (w.body == text[k]) some = true; sym_check(some, "what is sent is a visible file"); bool strange = p.find("//") != std::string::npos || p.back() == '/' || p.find('\0') != std::string::npos; sym_check(strange, "nothing else is found"); } sym_cover(i >= 0 && i != without ? "file" : got ? "equivalent" : "refused");
}
extern "C" void h_file_contents() { // contents come exactly, whatever their size; a file that gets shorter is not sent as something else
	static const int SIZE[] = {0, 1, 4094, 8190, 100}; fill(true); int which = choice(NV, "which"); DynamicFileServer server(ROOT); int size = SIZE[choice(5, "size")]; size = (int)sym_concretize(size + sym_int(2, "more")); std::string c; for (int i = 0; i < size; i++) c += char(i * 7 + i / 256); if (size) { c[size - 1] = (char)sym_int(8, "last"); c[size / 2] = (char)sym_int(8, "middle"); } auto& f = FsMock::files[ROOT + VISIBLE[which]]; f.contents = c; int cut = choice(3, "shorter"); if (cut && size) f.readable = cut == 1 ? size - 1 : size / 2; Taken w; bool got = false, failed = false; try { got = server.get(VISIBLE[which], w); } catch (const std::exception&) { failed = true; }
	if (cut && size) sym_check(failed, "a failure to read is not hidden"); else sym_check(got && !failed && w.starts == 1 && w.size == size && eqBytes(w.body, c) && w.type == TYPE[which], "a file is sent exactly with its size and type"); sym_cover(failed ? "failed" : "sent");
}
extern "C" void h_file_generated() { // generated files come first, each call generates anew
	fill(false); DynamicFileServer server(ROOT); int n = 0; std::string s = symStr(2, "s"); bool known = flag("known"); std::string name = symStr(sym_param("n", 2), "name"); bool shadows = flag("shadows"); if (shadows) name = "a.CSS"; server.addGeneratedFile(name, known, [&](Callback<void(std::span<const char>)> write) { n++; if (known) write(std::span<const char>(s.data(), 2)); else { write(std::span<const char>(s.data(), 1)); write(std::span<const char>(s.data() + 1, 1)); } }); server.addGeneratedFile("g.json", true, [&](Callback<void(std::span<const char>)> write) { write(std::span<const char>("{}", 2)); });
	for (int i = 0; i < 2; i++) { Taken w; sym_check(server.get("/" + name, w) && n == i + 1 && w.starts == 1 && eqBytes(w.body, s), "a generated file is generated whenever asked for"); sym_check((w.size >= 0) == known && (!known || w.size == 2), "its size is given if known"); if (shadows) sym_check(w.type == "application/CSS", "its type is by its name"); } Taken g; sym_check(server.get("/g.json", g) && g.body == "{}" && g.type == "application/json", "each generated file has its name"); Taken f; sym_check(server.get("/s/b.js", f) && f.body == text[2], "other files are sent as they are"); contained(); sym_cover("generated");
}
extern "C" void h_file_cache() { // the caching server: exactly the files that were there, until it reloads
	static const int WITHOUT[] = {-1, 0, 4, 8}; int without = WITHOUT[choice(4, "without")]; FsMock::reversed = flag("reversed"); fill(true, without); CachingFileServer server(ROOT); std::string gen = symStr(2, "g"); bool add = flag("add"); if (add) server.addGeneratedFile("g.css", gen); int what = choice(NV + 1, "what"); std::string p = what < NV ? std::string(VISIBLE[what]) : flag("root") ? std::string("/") : "/" + symStrUpTo(sym_param("n", 2), "p"); int i = p == "/" ? 0 : -1; for (int k = 0; k < NV; k++) if (p == VISIBLE[k]) i = k; std::string old[NV]; for (int k = 0; k < NV; k++) old[k] = text[k]; int change = choice(4, "change"); if (change) { for (int k = 0; k < NV; k++) { text[k] = "new" + std::string(1, char('0' + k)); if (k != without) FsMock::files[ROOT + VISIBLE[k]].contents = text[k]; } FsMock::files[ROOT + "/new.html"].contents = "n"; if (change == 2) server.reload(); if (change == 3) server.reset(); }
	bool fresh = change >= 2; Taken w; bool got = server.get(p, w); static const char* LOW[] = {"text/html", "text/css", "text/javascript", "application/octet-stream", "application/gzip", "application/xyz", "image/png", "text/html", "text/html", "text/html"}; if (i >= 0 && i == without) sym_check(!got, "nothing is found in place of a missing file"); else if (i >= 0) sym_check(got && w.starts == 1 && eqBytes(w.body, fresh ? text[i] : old[i]) && w.size == (int64_t)w.body.size() && w.type == LOW[i], "a cached file is sent with its type"); else sym_check(!got, "nothing else is found"); for (auto h : {"/.p", "/.g/i", "/s/.q"}) { Taken w; sym_check(!server.get(h, w), "hidden files are not sent"); } for (auto& [n, f] : FsMock::files) if (f.opened) sym_check(n.find("/.") == std::string::npos, "hidden files are not read");
	Taken n; sym_check(server.get("/new.html", n) == fresh, "new files are found when reloaded"); Taken g; sym_check(server.get("/g.css", g) == (add && change != 3), "generated files stay until a reset"); if (g.starts) sym_check(eqBytes(g.body, gen) && g.type == "text/css", "a generated file is sent with its type"); for (auto& t : FsMock::touched) { bool in = t == ROOT || t.compare(0, ROOT.size() + 1, ROOT + "/") == 0; sym_check(in, "nothing out of the folder is accessed"); } sym_cover(got ? "file" : "none");
}
extern "C" void h_file_http() { // over HTTP: any path answered by a file or by 404
	fill(true); DynamicFileServer server(ROOT); HttpServer<> http(server); auto session = http.getSession(); std::string p = symStr(sym_param("n", 3), "p"); bool file = flag("file"); if (file) p = "/s/c"; for (char c : p) sym_assume((unsigned char)c > ' ' && (unsigned char)c < 127); std::string q = "GET " + p + " HTTP/1.1\r\n\r\n", out; Exact in(q); auto [r, used] = session.respond(in.span(), [&](std::span<const char> o) { out.append(o.data(), o.size()); }); contained(); sym_check(r == ServerReaction::OK && used == (int)q.size(), "the request is answered"); if (file) sym_check(eqBytes(out.substr(out.size() - text[3].size()), text[3]) && out.starts_with("HTTP/1.1 200"), "a file is sent"); sym_cover(out.starts_with("HTTP/1.1 200") ? "sent" : out.starts_with("HTTP/1.1 404") ? "missing" : "other");
}
// ---- long names, deep folders, many and long files
extern "C" void h_file_long() {
	fill(false); static const int N[] = {15, 16, 17, 63, 64, 100, 128, 200, 255}; static const int S[] = {1000, 4095, 4096, 4097, 8192, 10000, 20000, 65535, 65536, 70000, 100000}; int what = choice(4, "what"); int n = N[choice(what == 3 ? 1 : 9, "n")]; std::string path = ROOT, rel; if (what == 1) for (int i = 0; i < n / 8; i++) { rel += "/dir" + decimal(i); FsMock::files[ROOT + rel].isDir = true; } rel += what == 0 ? "/" + std::string(n, 'n') + ".html" : what == 2 ? "/f." + std::string(n, 'e') : "/file.txt"; int size = what == 3 ? S[choice(11, "size")] : 20; std::string c(size, ' '); for (int i = 0; i < size; i++) c[i] = char(i * 7 + i / 256); c[size - 1] = (char)sym_int(8, "last"); if (size > 5000) c[4096] = (char)sym_int(8, "middle"); FsMock::files[ROOT + rel].contents = c;
	std::string type = what == 0 ? "text/html" : what == 2 ? "application/" + std::string(n, 'e') : "text/plain"; bool caching = flag("caching"), shorter = rel.size() > 20 && flag("shorter"); std::string asked = shorter ? rel.substr(0, rel.size() - (what == 0 ? 5 : 1)) : rel; auto ask = [&](auto& server) { for (int i = 0; i < 2; i++) { Taken w; bool got = server.get(asked, w); sym_check(got == !shorter && w.starts == !shorter, "exactly the file of a name is found"); if (got) sym_check(eqBytes(w.body, c) && w.size == size && (what == 3 || what == 1 || w.type == type), "a file is sent exactly with its size and type"); } Taken o; sym_check(server.get("/s/b.js", o) && o.body == text[2], "others are sent as they are"); };
	if (caching) { CachingFileServer server(ROOT); ask(server); } else { DynamicFileServer server(ROOT); ask(server); } for (auto& t : FsMock::touched) { bool in = t == ROOT || t.compare(0, ROOT.size() + 1, ROOT + "/") == 0; sym_check(in, "nothing out of the folder is accessed"); } sym_cover("long");
}
extern "C" void h_file_many() { // many files and generated ones, reloads
	fill(false); static const int N[] = {10, 33, 100}; int n = N[choice(3, "n")]; char sym = (char)sym_int(8, "c"); auto file = [&](int i) { return "/s/m" + decimal(i) + (i % 2 ? ".css" : ".html"); }; auto contents = [&](int i, int v) { return decimal(i * 3 + v) + (i == n / 2 ? std::string(1, sym) : std::string()); }; for (int i = 0; i < n; i++) FsMock::files[ROOT + file(i)].contents = contents(i, 0); FsMock::reversed = flag("reversed"); CachingFileServer server(ROOT); auto gen = [&](int i) { return "g" + decimal(i) + ".js"; }; for (int i = 0; i < n / 3; i++) { std::string g = "gen" + decimal(i); server.addGeneratedFile(gen(i), g); } int version = 0, removed = -1; bool generated = true;
	auto check = [&] { for (int i = 0; i < n; i++) { Taken w; bool got = server.get(file(i), w); sym_check(got == (i != removed), "exactly the files that were there are found"); if (got) sym_check(eqBytes(w.body, contents(i, version)) && w.type == (i % 2 ? "text/css" : "text/html"), "a cached file is sent with its type"); } for (int i = 0; i < n / 3; i++) { Taken w; sym_check(server.get("/" + gen(i), w) == generated && (!generated || (w.body == "gen" + decimal(i) && w.type == "text/javascript")), "generated files are kept"); } Taken none; sym_check(!server.get("/s/m" + decimal(n) + ".html", none), "nothing else is found"); };
	check(); for (int i = 0; i < n; i++) FsMock::files[ROOT + file(i)].contents = contents(i, 1); int r = choice(3, "removed"); FsMock::files.erase(ROOT + file(r = r == 0 ? 0 : r == 1 ? n / 2 : n - 1)); if (flag("before")) check(); server.reload(); version = 1; removed = r; check(); sym_cover("many");
}
extern "C" void h_file_shadow() { // generated files and files of the same name in the folder, generated files replaced, reloads
	fill(false); std::string s = symStr(2, "s"); int which = choice(NV, "which"), times = 1 + choice(2, "times"); std::string name = std::string(VISIBLE[which]).substr(1), path = "/" + name, last = s; auto asked = [&](auto& server) { Taken w; sym_check(server.get(path, w) && w.starts == 1 && eqBytes(w.body, last) && (w.size < 0 || w.size == (int64_t)last.size()), "a generated file precedes one in the folder, the latest one precedes the former"); for (int k = 0; k < NV; k++) if (k != which && !(which == 0 && k == 0)) { Taken o; sym_check(server.get(VISIBLE[k], o) && o.body == text[k], "other files are sent as they are"); } };
	if (flag("caching")) { CachingFileServer server(ROOT); for (int i = 0; i < times; i++) { last = i + 1 == times ? s : "former"; server.addGeneratedFile(name, last); asked(server); } for (int i = 0; i < 2; i++) { server.reload(); asked(server); } server.reset(); Taken w; sym_check(server.get(path, w) && w.body == text[which], "a reset removes generated files"); sym_cover("caching"); }
	else { DynamicFileServer server(ROOT); bool known = flag("known"); for (int i = 0; i < times; i++) { last = i + 1 == times ? s : "former"; server.addGeneratedFile(name, known, [t = last](Callback<void(std::span<const char>)> write) { write(std::span<const char>(t.data(), t.size())); }); asked(server); } contained(); sym_cover("dynamic"); }
}
extern "C" void h_file_unreadable() { // a file that cannot be opened or not read to its end is not sent as if it was complete
	fill(false); int which = choice(NV, "which"), how = choice(4, "how"); std::string body = "longer contents" + symStr(2, "s"); auto& f = FsMock::files[ROOT + VISIBLE[which]]; f.contents = body; auto spoil = [&] { if (how == 0) f.locked = true; else f.readable = how == 1 ? 0 : how == 2 ? 5 : (int)body.size() - 1; }; bool http = flag("http"), reload = flag("reload"); std::string path = which == 0 && flag("root") ? "/" : VISIBLE[which];
	auto ask = [&](auto& server, bool spoiled) { if (http) { DummyPostResponder none; HttpServer<> h(server, none); auto session = h.getSession(); std::string q = "GET " + path + " HTTP/1.1\r\n\r\n", out; Exact in(q); auto [r, used] = session.respond(in.span(), [&](std::span<const char> o) { out.append(o.data(), o.size()); }); if (spoiled) sym_check(r == ServerReaction::DISCONNECT || out.starts_with("HTTP/1.1 404") || out.starts_with("HTTP/1.1 500"), "a failure to read is not hidden"); else sym_check(out.starts_with("HTTP/1.1 200") && out.size() > body.size() && eqBytes(out.substr(out.size() - body.size()), body), "a file is sent"); return; }
		Taken w; bool got = false, failed = false; try { got = server.get(path, w); } catch (const std::exception&) { failed = true; } if (spoiled) sym_check(!got || failed, "a failure to read is not hidden"); else sym_check(got && !failed && w.starts == 1 && eqBytes(w.body, body), "a file is sent"); Taken o; int other = which == 1 ? 2 : 1; sym_check(server.get(VISIBLE[other], o) && o.body == text[other], "other files are sent as they are"); };
	if (flag("caching")) { if (!reload) spoil(); CachingFileServer server(ROOT); if (reload) { ask(server, false); spoil(); ask(server, false); server.reload(); } ask(server, true); sym_cover("caching"); }
	else { DynamicFileServer server(ROOT); if (reload) { ask(server, false); } spoil(); ask(server, true); sym_cover("dynamic"); }
}
