// One TCP server run by several threads
#include "util.hpp"
#include <experimental/net>
#include "bomba_core.hpp"
#include "bomba_tcp_server.hpp"
using namespace Bomba;
// a message is a digit saying how many bytes follow; the response is its number, the bytes and a checksum of all bytes of the connection; 'x' ends, 't' throws
struct Client : NetMock::Conn { std::string got; size_t writeSome(const char* p, size_t n, int) override { n = n > 2 ? 2 : n; got.append(p, n); return n; } };
struct Echo {
	struct Session { int number, count = 0; unsigned char sum = 0; int* alive; Session(int n, int* a) : number(n), alive(a) { ++*alive; } Session(const Session&) = delete; ~Session() { --*alive; }
		std::pair<ServerReaction, int> respond(std::span<char> in, Callback<void(std::span<const char>)> write) {
			if (in.empty()) return {ServerReaction::READ_ON, 0}; char c = in[0]; if (c == 'x') return {ServerReaction::DISCONNECT, 0}; if (c == 't') throw std::runtime_error("failed"); int n = c - '0' + 1; sym_check(n >= 1 && n <= 10, "a message starts where the previous one ended"); if ((int)in.size() < n) return {ServerReaction::READ_ON, (int)in.size()};
			count++; for (int i = 0; i < n; i++) sum = sum * 3 + in[i]; std::string r = std::string(1, char('0' + count)) + std::string(in.data(), n) + char(sum); write(std::span<const char>(r.data(), r.size())); return {ServerReaction::OK, n};
		} };
	int sessions = 0, alive = 0; Session getSession() { return Session(sessions++, &alive); }
};
static const int MOST = 4; static const char* SCRIPT[] = {"1#", "2a#1b", "x", "t", "1#", "2#"}; // 4: ended by the other end behind it; 5: in two parts
static char sum(const std::string& s) { unsigned r = 0, power = 1; for (size_t i = s.size(); i-- > 0; power *= 3) r += power * (unsigned char)s[i]; return (char)r; }
struct Shared { TcpServer<Echo>* server; int measuring; };
static void worker(int t, void* p) { auto sh = (Shared*)p; if (t == sh->measuring) { auto x = sh->server->averageResponseTime(); sym_check(x.count() >= 0, "the average time is not negative"); return; } if (t & 1) sh->server->run(); else sh->server->runARound(); }
static void run(int threads, bool measured, int before, int during, int kinds) { // connections accepted before the threads start and while they run
	Client conns[MOST]; std::string want[MOST]; bool ended[MOST] = {}; NetMock::Queue queue; NetMock::queue = &queue; int n = before + during; Echo echo; { TcpServer<Echo> server(echo, 1234, threads);
		for (int i = 0; i < before; i++) queue.happenings.push_back({&conns[i], "", {}, true}); server.runARound(); sym_check(queue.happenings.empty() && echo.alive == before, "connections are accepted"); for (int i = before; i < n; i++) queue.happenings.push_back({&conns[i], "", {}, true});
		for (int i = 0; i < n; i++) { int k = choice(kinds, "script"); std::string s = SCRIPT[k]; char c = (char)sym_int(8, "byte"); for (char& x : s) if (x == '#') x = c; auto give = [&](std::string d) { queue.happenings.push_back({&conns[i], d, {}, false}); }; give(s); if (k == 5) give("z"); if (k == 4) give(""); ended[i] = k == 2 || k == 3 || k == 4; if (k == 5) s += 'z'; want[i] = k == 0 || k == 4 || k == 5 ? "1" + s + sum(s) : k == 1 ? "1" + s.substr(0, 3) + sum(s.substr(0, 3)) + "2" + s.substr(3) + sum(s) : ""; }
		Shared sh{&server, measured ? threads - 1 : -1}; sym_threads(threads, worker, &sh); int alive = 0; server.runARound();
		for (int i = 0; i < n; i++) { alive += !ended[i]; sym_check(conns[i].open == !ended[i] && (bool)conns[i].onReceive == !ended[i], "connections that have not ended stay, others are closed"); sym_check(eqBytes(conns[i].got, want[i]), "each connection gets exactly its responses"); } sym_check(echo.alive == alive && queue.happenings.empty() && echo.sessions == n, "sessions exist as long as their connections");
		for (int i = 0; i < n; i++) if (!ended[i]) { conns[i].got.clear(); queue.happenings.push_back({&conns[i], i & 1 ? "x" : "0", {}, false}); server.runARound(); sym_check(conns[i].open == !(i & 1) && (i & 1 ? conns[i].got.empty() : conns[i].got.size() == 3 && conns[i].got[1] == '0'), "others are served further"); alive -= i & 1; sym_check(echo.alive == alive, "sessions exist as long as their connections"); }
		sym_check(server.averageResponseTime().count() >= 0, "the average time is not negative");
	} sym_check(echo.alive == 0, "no session is left"); NetMock::queue = nullptr; sym_cover("served");
}
extern "C" void h_thread_tcp_serve() { run(2, false, 2, 0, 6); }
extern "C" void h_thread_tcp_close() { run(2, false, 3, 0, 3); }
extern "C" void h_thread_tcp_accept() { run(2, false, 1, 1, 6); }
extern "C" void h_thread_tcp_three() { run(3, false, 2, 0, 3); }
extern "C" void h_thread_tcp_measure() { run(2, true, 1, 1, 6); }
// a server with its own thread, which is destroyed at any moment or when everything was read
static void background(int n, bool late, bool measured, int kinds) {
	Client conns[MOST]; std::string want[MOST]; bool ended[MOST] = {}; NetMock::Queue queue; queue.waits = true; NetMock::queue = &queue; Echo echo; { BackgroundTcpServer<Echo> server(echo, 1234, 2);
		for (int i = 0; i < n; i++) {
			int k = choice(kinds, "script"); std::string s = SCRIPT[k]; char c = (char)sym_int(8, "byte"); for (char& x : s) if (x == '#') x = c; ended[i] = k == 2 || k == 3; want[i] = k == 0 ? "1" + s + sum(s) : k == 1 ? "1" + s.substr(0, 3) + sum(s.substr(0, 3)) + "2" + s.substr(3) + sum(s) : "";
			NetMock::Guard g; queue.happenings.push_back({&conns[i], "", {}, true}); queue.happenings.push_back({&conns[i], s, {}, false});
		}
		if (!late) { std::unique_lock g(queue.mutex); while (!queue.happenings.empty()) queue.changed.wait(g); }
		if (measured) { { NetMock::Guard g; } sym_check(server.averageResponseTime().count() >= 0, "the average time is not negative"); } // at any moment that the guard allows
	}
	for (int i = 0; i < n; i++) { bool all = conns[i].got == want[i]; sym_check(all || (late && conns[i].got.empty()), "each connection gets exactly its responses"); if (!late) sym_check(!ended[i] || !conns[i].open, "connections that ended are closed"); }
	sym_check(echo.alive == 0 && (late || echo.sessions == n), "no session is left"); NetMock::queue = nullptr; sym_cover("served");
}
extern "C" void h_thread_tcp_background() { bool measured = choice(2, "measured"); background(1, false, measured, 4); }
extern "C" void h_thread_tcp_background2() { background(2, false, false, 2); }
extern "C" void h_thread_tcp_destroy() { bool measured = choice(2, "measured"); background(1, true, measured, 4); }
