// TCP server: the receive buffer, connections coming, failing and going, partial sends
#include "util.hpp"
#include <functional>
#include <experimental/net>
#include "bomba_core.hpp"
#include "bomba_tcp_server.hpp"
using namespace Bomba;

// The stream is made of messages; the byte at position i is a function of i, except for symbolic ones
static char patternAt(size_t i) { return char('A' + (i * 7 + i / 256) % 53); }
struct Reader : ITcpServerSession { // takes messages of given sizes, checks that it sees the stream from where it ended
	std::vector<int> sizes; size_t next = 0, at = 0, received = 0; int parsed = 0, refuse = -1; const std::string& stream; bool partly = false; Reader(const std::string& s) : stream(s) {}
	std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override {
		sym_check(data.size() == received - at, "everything received and not used yet is given"); bool same = data.size() <= stream.size() - at && memcmp(data.data(), stream.data() + at, data.size()) == 0; sym_check(same, "data are given exactly as they came"); if (!same) return {ServerReaction::DISCONNECT, 0};
		if (next >= sizes.size() || (int)data.size() < sizes[next]) return {ServerReaction::READ_ON, (int)data.size()}; if ((int)next == refuse) return {ServerReaction::DISCONNECT, 0}; at += sizes[next]; return {ServerReaction::OK, sizes[next++]};
	}
	void notifyMessageWasParsed() override { parsed++; }
};
extern "C" void h_tcp_buffer() { // messages of any sizes around the boundaries of the buffer, received in any of several ways
	static const int BASE[] = {1, 2046, 3070, 6142, 1022, 4094, 9214}; int messages = sym_param("messages", 2), forks = sym_param("forks", 2), kinds = sym_param("sizes", 4); std::string stream; std::vector<int> sizes; size_t total = 0; for (int i = 0; i < messages; i++) { int base = BASE[choice(kinds, "size")]; sizes.push_back((int)sym_concretize(base + sym_int(2, "more"))); total += sizes.back(); } sizes.push_back(700); total += 700; while (stream.size() < total) stream += patternAt(stream.size()); { size_t at = 0; for (int n : sizes) { stream[at] = (char)sym_int(8, "first"); at += n; stream[at - 1] = (char)sym_int(8, "last"); } }
	Reader r(stream); r.sizes = sizes; TcpServerBuffer* b = new TcpServerBuffer; size_t sent = 0; int step = 0; while (sent < total) { std::span<char> space = b->space(); sym_check(space.size() > 0, "there is space for more"); if (space.empty()) break; size_t most = std::min(space.size(), total - sent), n = most; if (step++ < forks) switch (choice(5, "part")) { case 1: n = 1 + sym_int(1, "few"); break; case 2: n = most - sym_int(1, "less"); break; case 3: n = most / 2 + sym_int(1, "half"); break; case 4: { size_t end = 0, k = 0; while (k < sizes.size() && end <= sent) end += sizes[k++]; n = end - sent + sym_int(1, "next"); break; } } if (n > most || n == 0) n = most; n = sym_concretize(n); memcpy(space.data(), stream.data() + sent, n); sent += n; r.received = sent; bool more = b->receive(r, std::error_code(), (int)n); sym_check(more, "the connection goes on"); size_t whole = 0, k = 0; while (k < sizes.size() && whole + sizes[k] <= sent) whole += sizes[k++]; sym_check(r.next == k && r.parsed == (int)k && r.at == whole, "a message is processed as soon as it has come"); if (!more) break; }
	bool end = flag("error"); sym_check(!b->receive(r, end ? std::make_error_code(std::errc::connection_reset) : std::error_code(), 0), "the end of the stream ends the connection"); sym_check(r.parsed == messages + 1, "all messages are processed once"); delete b; sym_cover("buffer");
}
struct Counter : ITcpServerSession { // as Reader, but does not look at the data
	int sizes[3], next = 0; int64_t at = 0, received = 0; int parsed = 0;
	std::pair<ServerReaction, int> feedToResponder(std::span<char> data) override { sym_check((int64_t)data.size() == received - at, "everything received and not used yet is given"); if (next >= 3 || (int)data.size() < sizes[next]) return {ServerReaction::READ_ON, (int)data.size()}; at += sizes[next]; return {ServerReaction::OK, sizes[next++]}; }
	void notifyMessageWasParsed() override { parsed++; }
};
extern "C" void h_tcp_lengths() { // messages and pieces of any sizes as long as nothing needs to be moved
	Counter r; for (int& n : r.sizes) { n = (int)sym_int(12, "size"); sym_assume(n >= 1); } TcpServerBuffer b; int pieces = sym_param("pieces", 3); for (int i = 0; i < pieces; i++) { std::span<char> space = b.space(); sym_check(space.size() >= 1 && space.size() <= 3072, "there is space for more"); int n = (int)sym_int(12, "piece"); sym_assume(n >= 1 && n <= (int)space.size()); r.received += n; int whole = r.sizes[0] + r.sizes[1] + r.sizes[2]; sym_assume(r.received < whole); { int64_t at = 0; for (int k = 0; k < 3 && at + r.sizes[k] <= r.received; k++) at += r.sizes[k]; sym_assume(r.received < 3072 && (at == r.received || at == 0)); } bool more = b.receive(r, std::error_code(), n); sym_check(more, "the connection goes on"); sym_check(r.parsed == r.next && (r.next >= 3 || r.received - r.at < r.sizes[r.next]), "a message is processed as soon as it has come"); if (r.at == r.received) r.at = r.received = 0, r.sizes[0] = r.next < 3 ? r.sizes[r.next] : 1; if (r.at == r.received) break; } sym_cover("lengths");
}
extern "C" void h_tcp_refused() { // the responder ends the connection
	std::string stream; while (stream.size() < 6000) stream += patternAt(stream.size()); Reader r(stream); r.sizes = {100, 1, 3000, 5}; r.refuse = choice(4, "refuse"); TcpServerBuffer b; size_t sent = 0; bool more = true; while (more && sent < stream.size()) { auto s = b.space(); size_t n = std::min(s.size(), stream.size() - sent); if (flag("less")) n = n / 2 + 1; memcpy(s.data(), stream.data() + sent, n); sent += n; r.received = sent; more = b.receive(r, std::error_code(), (int)n); } sym_check(!more && (int)r.next == r.refuse && r.parsed == r.refuse, "nothing is processed after the connection is ended"); sym_cover("refused");
}
// ---- the server
struct Client : NetMock::Conn { std::string got; int writes = 0, failAt = -1; size_t most = 1000; bool noSignal = true; size_t writeSome(const char* p, size_t n, int flags) override { if (writes++ == failAt) NetMock::fail(); if (!(flags & MSG_NOSIGNAL)) noSignal = false; n = std::min(n, most); got.append(p, n); return n; } };
// a message is a digit saying how many bytes follow; the response is what was received with the session's number; 'x' ends, 't' throws
struct Echo {
	static inline int alive = 0;
	struct Session { int number; bool own = true; int count = 0; Session(int n) : number(n) { alive++; } Session(const Session& o) : number(o.number), count(o.count) { alive++; } ~Session() { alive--; }
		std::pair<ServerReaction, int> respond(std::span<char> in, Callback<void(std::span<const char>)> write) {
			if (in.empty()) return {ServerReaction::READ_ON, 0}; char c = in[0]; if (c == 'x') return {ServerReaction::DISCONNECT, 0}; if (c == 't') throw std::runtime_error("failed"); int n = c - '0' + 1; sym_check(n >= 1 && n <= 10, "a message starts where the previous one ended"); if ((int)in.size() < n) return {ServerReaction::READ_ON, (int)in.size()};
			count++; std::string r = std::string(1, char('a' + number)) + char('0' + count) + std::string(in.data(), n); write(std::span<const char>(r.data(), r.size())); return {ServerReaction::OK, n};
		} };
	int sessions = 0; Session getSession() { return Session(sessions++); }
};
extern "C" void h_tcp_server() { // any history of connections, requests, failures and closing
	Echo::alive = 0; Client conns[4]; int n = 0; std::string want[4]; int count[4] = {}; bool dead[4] = {}; std::string part[4]; char sym = (char)sym_int(8, "byte"); { Echo echo; TcpServer<Echo> server(echo, 1234); int steps = sym_param("steps", 4);
		auto accept = [&] { if (n < 4) { sym_check(NetMock::connectTo(conns[n]), "connections are accepted"); n++; } }; accept(); accept();
		auto send = [&](int i, std::string text) { sym_check(NetMock::deliver(conns[i], text.data(), text.size()), "an open connection is read from"); };
		auto answer = [&](int i, std::string text) { count[i]++; want[i] += std::string(1, char('a' + i)) + char('0' + count[i]) + text; };
		for (int s = 0; s < steps; s++) {
			int i = (int)choice(n, "which"); int op = choice(10, "op"); if (dead[i] && op != 0 && op != 9) op = 10; std::string m = part[i].empty() ? "" : part[i];
			switch (op) {
			case 0: accept(); break;
			case 1: if (!m.empty()) { send(i, std::string(1, sym)); answer(i, m + sym); part[i].clear(); } else { std::string t = std::string("1") + sym; send(i, t); answer(i, t); } break;
			case 2: if (m.empty()) { send(i, "2ab0"); answer(i, "2ab"); answer(i, "0"); } break;
			case 3: if (m.empty()) { part[i] = "1"; send(i, "1"); } break;
			case 4: if (m.empty()) { send(i, "0x0"); answer(i, "0"); dead[i] = true; } break;
			case 5: if (m.empty()) { send(i, "t"); dead[i] = true; } break;
			case 6: NetMock::deliver(conns[i], "", 0); dead[i] = true; break;
			case 7: NetMock::deliver(conns[i], "", 0, std::make_error_code(std::errc::connection_reset)); dead[i] = true; break;
			case 8: if (m.empty()) { conns[i].failAt = conns[i].writes; send(i, "0"); dead[i] = true; } break;
			case 9: sym_check(NetMock::failAccept(), "connections are awaited"); break;
			}
			if (op == 2) conns[i].most = 1; if (op == 3) conns[i].most = 2;
			int alive = 0; for (int k = 0; k < n; k++) { sym_check(conns[k].open == !dead[k], "only connections that ended are closed"); sym_check((bool)conns[k].onReceive == !dead[k], "open connections are read from"); sym_check(eqBytes(conns[k].got, want[k]), "each connection gets exactly its responses"); sym_check(conns[k].noSignal, "a closed connection must not kill the process"); alive += !dead[k]; } sym_check(Echo::alive == alive, "sessions exist as long as their connections");
		}
		sym_check((bool)NetMock::onAccept, "connections are awaited"); for (int k = 0; k < n; k++) if (!dead[k]) { send(k, part[k].empty() ? "0" : "z"); answer(k, part[k].empty() ? "0" : "1z"); sym_check(eqBytes(conns[k].got, want[k]), "others are served to the end"); }
	} sym_check(Echo::alive == 0, "no session is left"); sym_cover("server");
}
// ---- many connections, long ones
extern "C" void h_tcp_many() {
	static const int N[] = {5, 8, 9, 16, 17, 33, 65}; int n = N[choice(7, "n")]; Echo::alive = 0; std::vector<std::unique_ptr<Client>> conns; for (int i = 0; i < n; i++) conns.push_back(std::make_unique<Client>()); char sym = (char)sym_int(8, "byte"); auto num = [](int i) { return std::string(1, char('a' + i)); }; int how = choice(5, "how"); bool again = flag("again");
	{ Echo echo; TcpServer<Echo> server(echo, 1234); for (int i = 0; i < n; i++) sym_check(NetMock::connectTo(*conns[i]), "connections are accepted"); std::vector<bool> dead(n); auto check = [&](std::vector<std::string>& want) { int alive = 0; for (int k = 0; k < n; k++) { sym_check(conns[k]->open == !dead[k] && (bool)conns[k]->onReceive == !dead[k], "only connections that ended are closed"); sym_check(eqBytes(conns[k]->got, want[k]), "each connection gets exactly its responses"); alive += !dead[k]; } sym_check(Echo::alive == alive, "sessions exist as long as their connections"); };
		std::vector<std::string> want(n); std::string t = std::string("1") + sym; auto all = [&](int round) { for (int k = 0; k < n; k++) if (!dead[k]) { conns[k]->most = 1 + k % 3; sym_check(NetMock::deliver(*conns[k], t.data(), 2), "an open connection is read from"); want[k] += num(k) + char('0' + round) + t; } }; all(1); check(want);
		// some of them end, in an order
		int s = 3; while (n % s == 0) s += 2; for (int j = 0; j < n - 2; j++) { int k = how == 0 ? j : how == 1 ? n - 1 - j : how == 2 ? (j * s + 1) % n : how == 3 ? (j * 2 < n ? j * 2 : j * 2 % n | 1) : j ^ 1; if (k >= n || k == 0 || dead[k]) continue; switch (k % 3) { case 0: NetMock::deliver(*conns[k], "x", 1); break; case 1: NetMock::deliver(*conns[k], "", 0); break; case 2: NetMock::deliver(*conns[k], "", 0, std::make_error_code(std::errc::connection_reset)); break; } dead[k] = true; if (j % 4 == 0) check(want); } check(want); all(2); check(want);
		if (again) { for (int i = 0; i < 5; i++) { conns.push_back(std::make_unique<Client>()); sym_check(NetMock::connectTo(*conns.back()), "further connections are accepted"); want.emplace_back(); dead.push_back(false); n++; sym_check(NetMock::deliver(*conns.back(), "0", 1), "an open connection is read from"); want.back() = num(n - 1) + "10"; } check(want); } } sym_check(Echo::alive == 0, "no session is left"); for (auto& c : conns) sym_check(!c->open && c->noSignal, "all connections are closed"); sym_cover("many");
}
extern "C" void h_tcp_long() { // many messages on one connection, among them long ones, in pieces of one size
	static const int PIECE[] = {1, 100, 1460, 3072, 100000}; int p = choice(5, "piece"); size_t piece = PIECE[p]; int kind = choice(4, "kind"), n = p == 0 ? 5 : 40; std::string stream; std::vector<int> sizes; size_t total = 0; for (int i = 0; i < n; i++) { int s = kind == 0 ? 1 + i * 37 % 300 : kind == 1 ? 3000 + i : kind == 2 ? (i % 5 == 2 ? 20000 + i : 10 + i) : (i == 1 ? 70000 : 5); if (p == 0 && s > 500) s = s % 500 + 400; sizes.push_back(s); total += s; } sizes.push_back(700); total += 700; stream.resize(total); for (size_t i = 0; i < total; i++) stream[i] = patternAt(i); stream[total / 2] = (char)sym_int(8, "middle"); stream[total - 1] = (char)sym_int(8, "last");
	Reader r(stream); r.sizes = sizes; auto b = std::make_unique<TcpServerBuffer>(); size_t sent = 0; while (sent < total) { std::span<char> space = b->space(); sym_check(space.size() > 0, "there is space for more"); if (space.empty()) break; size_t m = std::min({space.size(), total - sent, piece}); memcpy(space.data(), stream.data() + sent, m); sent += m; r.received = sent; bool more = b->receive(r, std::error_code(), (int)m); sym_check(more, "the connection goes on"); if (!more) break; } sym_check(r.parsed == n + 1 && r.at == total, "all messages are processed once"); sym_cover("long");
}
