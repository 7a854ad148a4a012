// A client and a server connected without a network; both streams may be cut into pieces
#pragma once
#include "util.hpp"
#include "bomba_core.hpp"
using namespace Bomba;
template <typename S> struct Served { // the server's end of a connection
	S session; std::string pending, out; bool closed = false;
	Served(S s) : session(std::move(s)) {}
	void feed(std::string_view piece) { pending += piece; while (!closed && !pending.empty()) { Exact in(pending); auto [reaction, used] = session.respond(std::span<char>(in.p, in.n), [&](std::span<const char> o) { out.append(o.data(), o.size()); }); pending.assign(in.p, in.n); if (reaction == ServerReaction::READ_ON) break; if (reaction != ServerReaction::OK || used <= 0) { closed = true; break; } pending.erase(0, used); } }
};
template <typename Server> struct Loop : ITcpClient { // a client's end, the server responds while it is waited for
	Server& server; std::string sent, buffer; std::map<uint32_t, std::string> found; size_t sendCut, readCut; Loop(Server& s, size_t a, size_t b) : server(s), sendCut(a), readCut(b) {}
	void writeRequest(std::span<char> w) override { sent.append(w.data(), w.size()); }
	bool more() { if (!sent.empty()) { size_t n = sendCut ? std::min(sent.size(), sendCut) : sent.size(); server.feed(std::string_view(sent).substr(0, n)); sent.erase(0, n); } size_t n = readCut ? std::min(server.out.size(), readCut) : server.out.size(); buffer += server.out.substr(0, n); server.out.erase(0, n); return n > 0 || !sent.empty(); }
	template <bool Wait> void search(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) {
		auto f = found.find(token.id); if (f != found.end()) { Exact in(f->second); reader(in.span(), true); if (Wait) found.erase(token.id); return; }
		while (true) { while (!buffer.empty()) { Exact in(buffer); auto [reaction, tok, size] = reader(in.span(), false); if (reaction == ServerReaction::READ_ON) break; if (reaction == ServerReaction::DISCONNECT) return; if (reaction == ServerReaction::WRONG_REPLY || !Wait) found[tok.id] = buffer.substr(0, size); buffer.erase(0, size); if (reaction == ServerReaction::OK) return; } if (!more()) { if (!Wait) return; remoteError("nothing comes"); } if (!Wait) { } }
	}
	void getResponse(RequestToken t, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> r) override { search<true>(t, r); }
	void tryToGetResponse(RequestToken t, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> r) override { search<false>(t, r); }
};
