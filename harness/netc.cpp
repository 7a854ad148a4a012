// Synchronous network client: responses in any pieces and order, polling, lost connections, whole stacks over the TCP server
#include "rpcapi.hpp"
#include <functional>
#include <experimental/net>
#include "bomba_http.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_sync_client.hpp"
#include "bomba_tcp_server.hpp"
using namespace Bomba;
struct Far : NetMock::Conn { // a server that has everything ready
	std::string incoming, sent; size_t at = 0; int lostAt = -1; bool error = false, noSignal = true; int pieces = 0, endless = 0; size_t most = 1000; size_t visible = size_t(-1);
	size_t available() override { size_t end = std::min(incoming.size(), visible); return end > at ? end - at : 0; }
	size_t readSome(char* p, size_t n, std::error_code& e) override {
		visible = size_t(-1); size_t left = incoming.size() - at; if (left == 0) { if (lostAt < 0) { sym_check(false, "nothing is waited for that will not come"); NetMock::fail(); } sym_check(endless++ < 8, "a lost connection is not read from forever"); if (endless > 8) NetMock::fail(); if (error) e = std::make_error_code(std::errc::connection_reset); return 0; }
		n = std::min(n, left); if (pieces > 0) { pieces--; size_t k = sym_int(6, "piece"); sym_assume(k >= 1 && k <= n); n = sym_concretize(k); } memcpy(p, incoming.data() + at, n); at += n; return n;
	}
	size_t writeSome(const char* p, size_t n, int flags) override { if (!(flags & MSG_NOSIGNAL)) noSignal = false; n = std::min(n, most); sent.append(p, n); return n; }
};
using Reader = Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)>;
// a message is its token, its size and its contents
static std::string message(int token, const std::string& s) { return std::string(1, (char)token) + (char)s.size() + s; }
static bool take(SyncNetworkClient& c, int token, bool wait, std::string& got) {
	int used = 0; auto f = [&](std::span<char> in, bool identified) -> std::tuple<ServerReaction, RequestToken, int64_t> { sym_check(!identified || (in.size() >= 2 && in[0] == token), "a response known of is the right one"); if (in.size() < 2) return {ServerReaction::READ_ON, {}, 0}; int n = 2 + in[1]; if ((int)in.size() < n) return {ServerReaction::READ_ON, {}, 0}; if (in[0] != token) return {ServerReaction::WRONG_REPLY, {(uint32_t)in[0]}, n}; used++; got.assign(in.data() + 2, n - 2); return {ServerReaction::OK, {(uint32_t)token}, n}; };
	if (wait) c.getResponse({(uint32_t)token}, f); else c.tryToGetResponse({(uint32_t)token}, f); sym_check(used <= 1, "a response is given once"); return used;
}
static const int ORDER[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
extern "C" void h_net_order() { // three responses arriving in any order and pieces, read in any order, some polled for
	Far far; NetMock::toConnect = &far; NetMock::refuse = false; std::string text[3]; for (auto& t : text) t = symStr(choice(sym_param("n", 2), "n"), "text"); const int* come = ORDER[choice(6, "come")]; const int* read = ORDER[choice(sym_param("orders", 6), "read")]; for (int i = 0; i < 3; i++) far.incoming += message(come[i] + 1, text[come[i]]);
	far.most = 1 + choice(2, "most") * 100; far.pieces = sym_param("pieces", 2); { SyncNetworkClient c("server", "80"); std::string all = "request"; c.writeRequest(std::span<char>(all.data(), all.size())); sym_check(far.sent == "request" && NetMock::toConnect->open && far.noSignal, "a request is sent whole");
		int polled = choice(4, "poll"); if (polled < 3) { far.visible = choice(2, "visible") ? size_t(-1) : far.incoming.size() / 2; std::string got; if (take(c, polled + 1, false, got)) { sym_check(eqBytes(got, text[polled]), "a response polled for is the right one"); sym_check(take(c, polled + 1, false, got) && eqBytes(got, text[polled]), "polling loses nothing"); } }
		for (int k = 0; k < 3; k++) { std::string got; sym_check(take(c, read[k] + 1, true, got) && eqBytes(got, text[read[k]]), "each request gets its response"); } sym_check(far.at == far.incoming.size(), "everything was read"); std::string none; sym_check(!take(c, 9, false, none), "polling does not wait"); }
	sym_check(!far.open, "the connection is closed at the end"); sym_cover("order");
}
extern "C" void h_net_lost() { // the connection is lost anywhere
	Far far; NetMock::toConnect = &far; NetMock::refuse = flag("refused"); std::string a = symStrUpTo(1, "a"), b = symStrUpTo(1, "b"); std::string all = message(1, a) + message(2, b); far.lostAt = choice(all.size() + 1, "lost"); far.error = flag("error"); far.incoming = all.substr(0, far.lostAt); far.pieces = sym_param("pieces", 1); SyncNetworkClient c("server", "80"); bool refused = false; std::string q = "q"; try { c.writeRequest(std::span<char>(q.data(), 1)); } catch (const std::system_error&) { refused = true; } sym_check(refused == NetMock::refuse, "a refused connection is reported"); if (refused) { sym_cover("refused"); return; }
	if (flag("poll")) { std::string x; bool has = take(c, 2, false, x); sym_check(has == (far.lostAt == (int)all.size()) && (!has || eqBytes(x, b)), "only whole responses are found by polling"); } bool swap = flag("swap"); bool ok[2], thrown[2] = {}; std::string got[2]; for (int k = 0; k < 2; k++) { int i = swap ? 1 - k : k; try { ok[i] = take(c, i + 1, true, got[i]); } catch (const RemoteError&) { thrown[i] = true; ok[i] = false; } }
	bool whole[2] = {far.lostAt >= (int)message(1, a).size(), far.lostAt == (int)all.size()}; for (int i = 0; i < 2; i++) { sym_check(ok[i] == whole[i] && thrown[i] == !whole[i], "whole responses are given, others are reported as errors"); if (ok[i]) sym_check(eqBytes(got[i], i ? b : a), "what came whole is given"); } sym_cover("lost");
}
extern "C" void h_net_long() { // responses longer than any buffer
	static const int SIZE[] = {2047, 2048, 2049, 4095, 4097, 1}; Far far; NetMock::toConnect = &far; NetMock::refuse = false; int n[2]; std::string body[2]; for (int i = 0; i < 2; i++) { int base = SIZE[choice(6, "size")]; n[i] = (int)sym_concretize(base + sym_int(1, "more")); body[i].resize(n[i]); for (int k = 0; k < n[i]; k++) body[i][k] = char('a' + (k * 7 + k / 256) % 26); body[i][n[i] - 1] = (char)sym_int(8, "last"); body[i][n[i] / 2] = (char)sym_int(8, "middle"); far.incoming += "HTTP/1.1 200 OK\r\nContent-Length: " + std::to_string(n[i]) + "\r\n\r\n" + body[i]; }
	SyncNetworkClient net("server", "80"); HttpClient<> http(net, "host"); RequestToken t[2]; for (auto& x : t) x = http.get("/"); bool swap = flag("swap"); for (int k = 0; k < 2; k++) { int i = swap ? 1 - k : k; int called = 0; http.getResponse(t[i], [&](std::span<char> b, bool ok) { called++; sym_check(ok && eqBytes(std::string_view(b.data(), b.size()), body[i]), "long responses come whole"); return true; }); sym_check(called == 1, "a response is given once"); } sym_check(far.noSignal, "a closed connection must not kill the process"); sym_cover("long");
}
// ---- whole stacks
struct Client2 : NetMock::Conn { // the client's end; what it sends is given to the server when the client waits
	struct Srv : NetMock::Conn { Client2& c; Srv(Client2& c) : c(c) {} size_t writeSome(const char* p, size_t n, int) override { n = std::min(n, c.sMost); c.in.append(p, n); return n; } } srv{*this};
	std::string in, out; size_t sCut = 0, rCut = 0, sMost = 100000; int stuck = 0;
	size_t writeSome(const char* p, size_t n, int) override { out.append(p, n); return n; }
	bool step() { if (out.empty() || !srv.onReceive) return false; size_t n = std::min(sCut ? sCut : out.size(), std::min(out.size(), srv.spaceSize)); std::string piece = out.substr(0, n); out.erase(0, n); NetMock::deliver(srv, piece.data(), n); return true; }
	size_t available() override { while (step()) {} return in.size(); }
	size_t readSome(char* p, size_t n, std::error_code& e) override { while (in.empty() && step()) {} if (in.empty()) { if (srv.open) sym_check(false, "nothing is waited for that will not come"); e = std::make_error_code(std::errc::connection_reset); return 0; } n = std::min(n, in.size()); if (rCut) n = std::min(n, rCut); memcpy(p, in.data(), n); in.erase(0, n); return n; }
};
template <typename Server, typename MakeClient> static void stack(Server& server, Api& remote, Api& local, MakeClient make, bool failing) {
	static const int CUT[] = {0, 1, 7}; Client2 wire; wire.sCut = CUT[choice(sym_param("cuts", 3), "scut")]; wire.rCut = CUT[choice(sym_param("cuts", 3), "rcut")]; if (flag("partial")) wire.sMost = 3; NetMock::toConnect = &wire; NetMock::refuse = false; TcpServer<Server> tcp(server, 80); sym_check(NetMock::connectTo(wire.srv), "the server accepts"); SyncNetworkClient net("server", "80"); auto client = make(local, net);
	std::string t = symStr(1, "t"); sym_assume((unsigned char)t[0] < 0x80); int32_t a = (int32_t)(int8_t)sym_int(8, "a"); sym_assume(a >= 3 && a <= 9); bool fail = failing && flag("fail"), failed = false, last = false; local.set(t, true); sym_check(remote.log.size() == 1 && remote.log[0].method == 0 && eqBytes(remote.log[0].s, t) && remote.log[0].f, "a call is made remotely"); auto f0 = local.get.async(); auto f1 = local.sub.async(a, 3); auto f2 = local.fail.async(fail ? 1 : 3); if (flag("poll")) { sym_check(f1.is_ready(), "responses have come"); sym_check(f0.is_ready(), "responses have come"); }
	const int* order = ORDER[choice(sym_param("orders", 6), "order")]; for (int k = 0; k < 3; k++) switch (order[k]) { case 0: sym_check(eqBytes(f0.get(), t), "first result"); break; case 1: sym_check(f1.get() == a - 3, "second result"); break; case 2: try { last = f2.get(); } catch (const RemoteError&) { failed = true; } sym_check(failed == fail && last == !fail, "third result"); }
	Info i; i.count = a; i.label = t; Info r = local.info({1, 2}, i); sym_check(r.count == a + 2 && eqBytes(r.label, t + "!"), "further calls work"); sym_check(remote.log.size() == 5 && local.log.empty() && wire.in.empty() && wire.out.empty(), "each call is made once and each response is used"); sym_cover(fail ? "failure" : "results");
}
extern "C" void h_net_jsonrpc() { Api remote, local; JsonRpcServer<> server(remote); stack(server, remote, local, [](Api& a, ITcpClient& n) { return std::make_unique<JsonRpcClient<>>(a, n, "host"); }, true); }
extern "C" void h_net_binary() { Api remote, local; BinaryProtocolServer<> server(remote); stack(server, remote, local, [](Api& a, ITcpClient& n) { return std::make_unique<BinaryProtocolClient<>>(a, n); }, false); } // its failures end the connection
// ---- many responses, long ones
extern "C" void h_net_many() { // many requests without reading, responses in another order, read in a third one
	static const int N[] = {4, 8, 16, 17, 32, 64, 120}; int n = N[choice(7, "n")]; Far far; NetMock::toConnect = &far; NetMock::refuse = false; char sym = (char)sym_int(8, "c"); auto body = [&](int i) { std::string s(i % 3 * 40 % 100, char('a' + i % 26)); if (!s.empty()) s.back() = sym; return s; }; static const int STEP[] = {1, 7, 11, 13}; auto nth = [&](int kind, int k) { if (kind == 0) return k; if (kind == 1) return n - 1 - k; int s = kind == 2 ? 3 : 5; while (n % s == 0) s += 2; return (k * s + 1) % n; }; (void)STEP; int come = choice(4, "come"), read = choice(4, "read"); for (int k = 0; k < n; k++) far.incoming += message(nth(come, k) + 1, body(nth(come, k)));
	far.most = flag("partial") ? 1 : 1000; bool polls = flag("polls"); { SyncNetworkClient c("server", "80"); std::string q = "request"; c.writeRequest(std::span<char>(q.data(), q.size())); sym_check(far.sent == q, "a request is sent whole"); for (int k = 0; k < n; k++) { int i = nth(read, k); std::string got; if (polls) { far.visible = far.at + 60; if (take(c, i + 1, false, got)) sym_check(eqBytes(got, body(i)), "a response polled for is the right one"); } got = "x"; sym_check(take(c, i + 1, true, got) && eqBytes(got, body(i)), "each request gets its response"); } sym_check(far.at == far.incoming.size(), "everything was read"); std::string none; sym_check(!take(c, 121, false, none), "nothing is left"); } sym_check(!far.open, "the connection is closed at the end"); sym_cover("many");
}
struct Piecewise : Far { size_t piece = 1460; size_t readSome(char* p, size_t n, std::error_code& e) override { return Far::readSome(p, std::min(n, piece), e); } };
extern "C" void h_net_longer() { // long responses in pieces, several in one, to a request of any length
	static const int SIZE[] = {100, 1000, 2040, 4000, 8192, 20000, 65535, 65536, 70000}; static const size_t PIECE[] = {100000, 1460, 2048, 100}; Piecewise far; NetMock::toConnect = &far; NetMock::refuse = false; int a = choice(9, "size"), b = choice(3, "other"); int n[2] = {SIZE[a], SIZE[b * 2 + 1]}; far.piece = PIECE[choice(a > 5 ? 2 : 4, "piece")]; std::string s[2]; for (int i = 0; i < 2; i++) { s[i].resize(n[i]); for (int k = 0; k < n[i]; k++) s[i][k] = char('a' + (k * 7 + k / 256) % 26); s[i][n[i] - 1] = (char)sym_int(8, "last"); } bool swapped = flag("swapped");
	// a message is its token, its size as five digits and its contents
	auto text = [&](int i) { std::string d = decimal(n[i]); return std::string(1, char('1' + i)) + std::string(5 - d.size(), '0') + d + s[i]; }; far.incoming = swapped ? text(1) + text(0) : text(0) + text(1); SyncNetworkClient c("server", "80"); std::string q(n[1], 'q'); q.back() = s[0].back(); far.most = flag("partial") ? 999 : 1000000; c.writeRequest(std::span<char>(q.data(), q.size())); sym_check(eqBytes(far.sent, q), "a request is sent whole"); bool poll = flag("poll"); if (poll) far.visible = far.incoming.size() / 3;
	auto get = [&](int want, bool wait) { int used = 0; auto f = [&](std::span<char> in, bool) -> std::tuple<ServerReaction, RequestToken, int64_t> { if (in.size() < 6) return {ServerReaction::READ_ON, {}, 0}; int size = 0; for (int i = 1; i < 6; i++) size = size * 10 + in[i] - '0'; if ((int64_t)in.size() < size + 6) return {ServerReaction::READ_ON, {}, 0}; int who = in[0] - '1'; if (who != want) return {ServerReaction::WRONG_REPLY, {(uint32_t)who}, size + 6}; used++; sym_check(eqBytes(std::string_view(in.data() + 6, size), s[want]), "long responses come whole"); return {ServerReaction::OK, {(uint32_t)who}, size + 6}; }; if (wait) c.getResponse({(uint32_t)want}, f); else c.tryToGetResponse({(uint32_t)want}, f); return used; };
	if (poll) get(0, false); sym_check(get(1, true) == 1 && get(0, true) == 1, "each request gets its response"); sym_check(far.at == far.incoming.size(), "everything was read"); sym_cover("longer");
}
