// Several threads at a time
#include "util.hpp"
#include <filesystem>
#include <fstream>
#include <iostream>
#include <mutex>
#include "bomba_core.hpp"
#include "bomba_http.hpp"
#include "bomba_download_server.hpp"
using namespace Bomba;
struct Taken : IWriteStarter { int starts = 0; std::string type, body; int64_t size = -1;
	void writeUnknownSize(std::string_view t, Callback<void(GeneralisedBuffer&)> f) override { starts++; type = t; ExpandingBuffer<> b; f(b); body = std::string_view(b); }
	void writeKnownSize(std::string_view t, int64_t n, Callback<void(GeneralisedBuffer&)> f) override { starts++; type = t; size = n; ExpandingBuffer<> b; f(b); body = std::string_view(b); } };
static const std::string ROOT = "/r/w"; static const char* NAMES[] = {"/index.html", "/a.css"};
static void fill() { FsMock::files.clear(); FsMock::touched.clear(); FsMock::record = false; for (auto d : {"/", "/r", "/r/w"}) FsMock::files[d].isDir = true; for (auto n : NAMES) FsMock::files[ROOT + n].contents = std::string("contents of ") + n; }
// Operations of the caching server: 0 ask for a generated file, 1 generate it, 2 reload, 3 reset, 4 ask for a file that has changed on the disk, 5 generate another file
static const int OPS = 6; struct Shared { CachingFileServer* server; int threads, each; char byte; int op[3][2]; int seen[3][2]; };
static bool isMade(const std::string& s) { return s.size() == 6 && s.starts_with("made") && s[5] == char((s[4] << 1) + s[4]); }
static void worker(int t, void* p) {
	auto sh = (Shared*)p;
	for (int i = 0; i < sh->each; i++) {
		int op = sh->op[t][i];
		if (op == 0) { Taken w; bool got = sh->server->get("/g.css", w); sym_check(got == (w.starts == 1) && (!got || (w.type == "text/css" && isMade(w.body) && w.size == 6)), "a generated file is found whole or not at all"); sh->seen[t][i] = got; }
		else if (op == 1) sh->server->addGeneratedFile("g.css", std::string("made") + sh->byte + char(sh->byte * 3));
		else if (op == 2) sh->server->reload();
		else if (op == 3) sh->server->reset();
		else if (op == 4) { Taken w; bool got = sh->server->get("/a.css", w); sym_check(got && w.starts == 1 && w.type == "text/css" && (w.body == "contents of /a.css" || w.body == "new") && w.size == (int64_t)w.body.size(), "a file is found whole, as it was or as it is"); sh->seen[t][i] = w.body == "new"; }
		else sh->server->addGeneratedFile("h", std::string("other"));
	}
}
// Is there an order of the operations, one after another, that gives what was seen? state: bit 0 generated, bit 1 new contents, bit 2 the other generated
static bool explained(const Shared& sh, int at0, int at1, int at2, int state, int end) {
	int at[3] = {at0, at1, at2}; bool all = true;
	for (int t = 0; t < sh.threads; t++) if (at[t] < sh.each) {
		all = false; int op = sh.op[t][at[t]], seen = sh.seen[t][at[t]], n = state;
		if (op == 0 && seen != (state & 1)) continue; if (op == 4 && seen != ((state >> 1) & 1)) continue;
		if (op == 1) n |= 1; else if (op == 2) n |= 2; else if (op == 3) n = 2; else if (op == 5) n |= 4;
		at[t]++; if (explained(sh, at[0], at[1], at[2], n, end)) return true; at[t]--;
	}
	return all && state == end;
}
static void run(int threads, int each) {
	fill(); CachingFileServer server(ROOT); FsMock::files[ROOT + "/a.css"].contents = "new"; Shared sh{&server, threads, each, (char)sym_int(8, "byte")};
	for (int t = 0; t < sh.threads; t++) for (int i = 0; i < sh.each; i++) { sh.op[t][i] = choice(OPS, "operation"); sh.seen[t][i] = 0; }
	sym_threads(sh.threads, worker, &sh);
	Taken g, h, a; int state = server.get("/g.css", g) + 4 * server.get("/h", h); bool there = server.get("/a.css", a); state |= a.body == "new" ? 2 : 0;
	sym_check(there && (!(state & 1) || isMade(g.body)) && (!(state & 4) || h.body == "other"), "files are whole afterwards"); Taken i; sym_check(server.get("/", i) && i.body == "contents of /index.html", "files stay afterwards");
	sym_check(explained(sh, 0, 0, 0, 0, state), "what threads see can be explained by some order of their operations");
	server.reload(); Taken r; sym_check(server.get("/g.css", r) == (state & 1), "a generated file stays until a reset, also when made by a thread");
	sym_cover(state & 1 ? "generated" : state & 2 ? "reloaded" : "as it was");
}
extern "C" void h_thread_cache2() { run(2, sym_param("each", 2)); }
extern "C" void h_thread_cache3() { run(3, sym_param("each", 1)); }
