// RPC over the binary protocol: calls, framing, independence of how the streams are cut, hostile input
#include "rpcapi.hpp"
#include "bomba_binary_protocol.hpp"

template <typename T> static T peek(std::string_view s, size_t at) { T v = 0; for (size_t i = 0; i < sizeof(T) && at + i < s.size(); i++) v |= T((uint64_t)(unsigned char)s[at + i] << (8 * i)); return v; }
template <typename T> static void put(std::string& s, T v) { for (size_t i = 0; i < sizeof(T); i++) s += char((uint64_t)v >> (8 * i)); }
// whole messages of a stream
template <typename Size> static bool messages(std::string_view s, std::vector<std::string_view>& out) {
	constexpr size_t H = 4 + sizeof(Size);
	while (!s.empty()) { if (s.size() < H) return false; uint64_t n = peek<Size>(s, 4); if (n < H || n > s.size()) return false; out.push_back(s.substr(0, n)); s.remove_prefix(n); }
	return true;
}
// a connection as a TCP server would serve it
template <typename S> struct Served {
	S session; std::string pending, out; bool closed = false; int answered = 0;
	Served(S s) : session(std::move(s)) {}
	void feed(std::string_view piece) {
		pending += piece;
		while (!closed && !pending.empty()) {
			Exact in(pending); auto [reaction, used] = session.respond(std::span<char>(in.p, in.n), [&](std::span<const char> o) { out.append(o.data(), o.size()); });
			if (reaction == ServerReaction::READ_ON) break;
			if (reaction == ServerReaction::DISCONNECT) { closed = true; break; }
			bool ok = reaction == ServerReaction::OK && used > 0 && used <= (int64_t)pending.size(); sym_check(ok, "a request takes some of the input"); if (!ok) { closed = true; break; } answered++;
			pending.erase(0, used);
		}
	}
};
// a client's connection: requests are recorded, responses come in pieces, each piece ending a read
struct Wire : ITcpClient {
	std::string sent, incoming; std::vector<size_t> cuts; size_t at = 0; std::string buffer; std::map<uint32_t, std::string> found; bool empty = false;
	void writeRequest(std::span<char> w) override { sent.append(w.data(), w.size()); }
	void getResponse(RequestToken token, Callback<std::tuple<ServerReaction, RequestToken, int64_t>(std::span<char>, bool)> reader) override {
		auto f = found.find(token.id); if (f != found.end()) { Exact in(f->second); reader(std::span<char>(in.p, in.n), true); found.erase(token.id); return; }
		while (true) {
			while (!buffer.empty()) {
				Exact in(buffer); auto [reaction, tok, size] = reader(std::span<char>(in.p, in.n), false);
				if (reaction == ServerReaction::READ_ON) break;
				if (reaction == ServerReaction::DISCONNECT) { empty = true; return; }
				bool ok = size > 0 && size <= (int64_t)buffer.size(); sym_check(ok, "a response takes some of the input"); if (!ok) return;
				if (reaction == ServerReaction::WRONG_REPLY) found[tok.id] = buffer.substr(0, size);
				buffer.erase(0, size);
				if (reaction == ServerReaction::OK) return;
			}
			if (at >= incoming.size()) { empty = true; return; }
			size_t to = incoming.size(); for (size_t c : cuts) if (c > at && c < to) to = c;
			buffer += incoming.substr(at, to - at); at = to;
		}
	}
};
struct Expected { Call call; std::string request, response; }; // request and response without header

template <typename Size, typename Client, typename Server> static void oneCall() {
	Api remote, local; Wire wire; Client client(local, wire); Server server(remote); Served c(server.getSession());
	int m = choice(7, "method"); bool async = flag("async"); Call want{m}; std::string args(1, char(m)), result; std::string text = m == 0 || m == 3 || m == 6 ? symStrUpTo(sym_param("n", 2), "text") : ""; remote.message = m == 2 ? symStrUpTo(sym_param("n", 2), "message") : "";
	int32_t a = (int32_t)sym_int(32, "a"); int16_t b = (int16_t)sym_int(16, "b"); bool f = flag("flag");
	// what the call has to send and receive, written out by hand
	if (m == 0) { want.s = text; want.f = f; put<Size>(args, text.size()); args += text; args += char(f); }
	if (m == 1) { want.a = a; want.b = b; put<uint32_t>(args, a); put<uint16_t>(args, b); put<uint32_t>(result, (uint32_t)a - (uint32_t)b); }
	if (m == 2) { put<Size>(result, remote.message.size()); result += remote.message; }
	std::vector<int16_t> v; if (m == 3) { v.assign(choice(3, "vs"), b); want.v = v; want.a = a; want.s = text; put<Size>(args, v.size()); for (auto x : v) put<uint16_t>(args, x); put<uint32_t>(args, a); put<Size>(args, text.size()); args += text; put<uint32_t>(result, (uint32_t)a + v.size()); put<Size>(result, text.size() + 1); result += text + "!"; }
	if (m == 5) { a = f ? 3 : 0; want.a = a; put<uint32_t>(args, a); result += char(f); }
	std::optional<std::string> o; if (m == 6) { if (f) o = text; want.a = f; want.s = f ? text : ""; args += char(f); if (f) { put<Size>(args, text.size()); args += text; } put<Size>(result, f ? 2 : 0); if (f) { put<Size>(result, text.size()); result += text; put<Size>(result, 1); result += "x"; } }
	std::string req, resp; put<uint32_t>(req, 0); put<Size>(req, 4 + sizeof(Size) + args.size()); req += args; put<uint32_t>(resp, 0); put<Size>(resp, 4 + sizeof(Size) + result.size()); resp += result;
	// the response is prepared in advance so that synchronous calls can be made
	c.feed(req); sym_check(!c.closed && c.pending.empty() && c.answered == 1, "the server reads exactly the request"); sym_check(eqBytes(c.out, resp), "the server sends exactly the response"); sym_check(remote.log.size() == 1 && remote.log[0] == want, "the method is called once with the arguments sent");
	wire.incoming = resp; size_t cut = sym_choice(resp.size(), "cut"); wire.cuts = {cut};
	bool same = true; Info inf; inf.count = a; inf.label = text; std::string s; int32_t n = 0; Info i; std::vector<std::string> l; bool ok = false;
	if (!async) { if (m == 0) local.set(text, f); if (m == 1) n = local.sub(a, b); if (m == 2) s = local.get(); if (m == 3) i = local.info(v, inf); if (m == 4) local.ping(); if (m == 5) ok = local.fail(a); if (m == 6) l = local.list(o); }
	else { if (m == 0) { auto x = local.set.async(text, f); x.get(); } if (m == 1) { auto x = local.sub.async(a, b); n = x.get(); } if (m == 2) { auto x = local.get.async(); s = x.get(); } if (m == 3) { auto x = local.info.async(v, inf); i = x.get(); } if (m == 4) { auto x = local.ping.async(); x.get(); } if (m == 5) { auto x = local.fail.async(a); ok = x.get(); } if (m == 6) { auto x = local.list.async(o); l = x.get(); } }
	sym_check(eqBytes(wire.sent, req), "the client sends exactly the request");
	if (m == 1) same = n == (int32_t)((uint32_t)a - (uint32_t)b); if (m == 2) same = eqBytes(s, remote.message); if (m == 3) same = i.count == (int32_t)((uint32_t)a + v.size()) && eqBytes(i.label, text + "!"); if (m == 5) same = ok == f; if (m == 6) same = l.size() == (f ? 2 : 0) && (!f || (eqBytes(l[0], text) && l[1] == "x"));
	sym_check(same, "the client returns what the method returned"); sym_check(local.log.empty(), "a remote call does not run locally"); sym_check(wire.buffer.empty() && wire.at == resp.size(), "the response is consumed exactly"); sym_cover(METHODS[m]);
}
extern "C" void h_binrpc_call() { oneCall<uint16_t, BinaryProtocolClient<>, BinaryProtocolServer<>>(); }
extern "C" void h_binrpc_call_u8() { oneCall<uint8_t, BinaryProtocolClient<uint8_t>, BinaryProtocolServer<uint8_t>>(); }
extern "C" void h_binrpc_call_i32() { oneCall<int32_t, BinaryProtocolClient<int32_t>, BinaryProtocolServer<int32_t>>(); }

extern "C" void h_binrpc_stream() { // several requests and responses, cut anywhere, responses read in any order
	static const int ORDER[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
	Api remote, local; Wire wire; BinaryProtocolClient<> client(local, wire); BinaryProtocolServer<> server(remote); Served c(server.getSession()); remote.message = symStrUpTo(2, "message");
	int32_t a = (int32_t)sym_int(32, "a"), a2 = (int32_t)sym_int(32, "a2"); bool middle = flag("middle"); bool bytewise = flag("bytewise");
	auto f0 = local.sub.async(a, 1); std::optional<Future<std::string>> f1; std::optional<Future<int32_t>> f1b; if (middle) f1.emplace(), *f1 = local.get.async(); else f1b.emplace(), *f1b = local.sub.async(5, 6); auto f2 = local.sub.async(a2, 2);
	std::vector<std::string_view> msgs; sym_check(messages<uint16_t>(wire.sent, msgs) && msgs.size() == 3, "three requests are sent"); for (size_t i = 0; i < msgs.size(); i++) sym_check(peek<uint32_t>(msgs[i], 0) == i, "requests have different identifiers");
	if (bytewise) for (char ch : wire.sent) c.feed(std::string_view(&ch, 1)); else { size_t x = sym_choice(wire.sent.size(), "cut"); c.feed(std::string_view(wire.sent).substr(0, x)); c.feed(std::string_view(wire.sent).substr(x)); }
	sym_check(!c.closed && c.pending.empty() && c.answered == 3, "each request is answered once"); std::vector<std::string_view> rs; sym_check(messages<uint16_t>(c.out, rs) && rs.size() == 3, "three responses are sent"); for (size_t i = 0; i < rs.size(); i++) sym_check(peek<uint32_t>(rs[i], 0) == i, "a response has the identifier of its request");
	// responses may be delivered in another order than sent
	bool swap = flag("swap"); wire.incoming = swap && rs.size() == 3 ? std::string(rs[2]) + std::string(rs[0]) + std::string(rs[1]) : c.out; if (bytewise) for (size_t i = 1; i < wire.incoming.size(); i++) wire.cuts.push_back(i); else wire.cuts = {sym_choice(wire.incoming.size(), "cut2")};
	const int* order = ORDER[choice(6, "order")];
	for (int k = 0; k < 3; k++) switch (order[k]) { case 0: sym_check(f0.get() == (int32_t)((uint32_t)a - 1), "response to the first request"); break; case 1: if (f1) sym_check(eqBytes(f1->get(), remote.message), "response to the second request"); else sym_check(f1b->get() == -1, "response to the second request"); break; case 2: sym_check(f2.get() == (int32_t)((uint32_t)a2 - 2), "response to the third request"); }
	sym_check(!wire.empty && wire.found.empty() && wire.buffer.empty(), "all responses are used"); sym_cover(bytewise ? "bytewise" : "cut");
}
extern "C" void h_binrpc_sessions() { // two clients of one server
	Api remote; BinaryProtocolServer<> server(remote); Served c1(server.getSession()), c2(server.getSession()); int32_t a = (int32_t)sym_int(32, "a"), b = (int32_t)sym_int(32, "b"); uint32_t id1 = (uint32_t)sym_int(32, "id1"), id2 = (uint32_t)sym_int(32, "id2"); std::string m1, m2; put<uint32_t>(m1, id1); put<uint16_t>(m1, 13); m1 += char(1); put<uint32_t>(m1, a); put<uint16_t>(m1, 1); put<uint32_t>(m2, id2); put<uint16_t>(m2, 13); m2 += char(1); put<uint32_t>(m2, b); put<uint16_t>(m2, 2);
	size_t x = sym_choice(13, "cut"), y = sym_choice(13, "cut2"); std::string_view v1 = m1, v2 = m2; c1.feed(v1.substr(0, x)); c2.feed(v2.substr(0, y)); c1.feed(v1.substr(x)); c2.feed(v2.substr(y)); std::string r1, r2; put<uint32_t>(r1, id1); put<uint16_t>(r1, 10); put<uint32_t>(r1, (uint32_t)a - 1); put<uint32_t>(r2, id2); put<uint16_t>(r2, 10); put<uint32_t>(r2, (uint32_t)b - 2);
	sym_check(eqBytes(c1.out, r1) && eqBytes(c2.out, r2), "each connection gets the response to its request with its identifier"); sym_check(!c1.closed && !c2.closed, "connections remain open"); sym_cover("sessions");
}
// Objects with many members, nested
struct Node : IRemoteCallable { std::vector<Node*> children; int called = 0, got = 0; void add(Node& n) { children.push_back(&n); setSelfAsParent(&n); }
	const IRemoteCallable* getChild(int i) const override { return i >= 0 && i < (int)children.size() ? children[i] : nullptr; } std::pair<std::string_view, int> childName(const IRemoteCallable* c) const override { for (size_t i = 0; i < children.size(); i++) if (children[i] == c) return {"", (int)i}; return {"", NO_SUCH_STRUCTURE}; }
	bool call(IStructuredInput* in, IStructuredOutput& out, Callback<> start, Callback<void(std::string_view)>, std::optional<UserId>) const override { auto self = const_cast<Node*>(this); self->called++; self->got = (int)in->readInt(SerialisationFlags::INT_32); start(); out.writeInt(SerialisationFlags::INT_32, -got); return true; } };
struct Tree { std::vector<std::unique_ptr<Node>> all; Node root; Node* leaf = nullptr; Node& make() { all.push_back(std::make_unique<Node>()); return *all.back(); }
	Tree(const std::vector<int>& at) { Node* here = &root; for (size_t d = 0; d < at.size(); d++) { Node* next = nullptr; int n = std::max(at[d] + 1, 2); for (int i = 0; i < n; i++) { Node& c = make(); here->add(c); if (i == at[d]) next = &c; } here = next; } leaf = here; } };
extern "C" void h_binrpc_tree() { // a method is reached through any indexes, as deep as supported
	static const int AT[] = {0, 1, 127, 128, 200, 255, 256, 300}; std::vector<int> at; int depth = 1 + choice(4, "depth"); int wide = choice(depth, "wide"); int big = AT[choice(8, "at")]; for (int i = 0; i < depth; i++) at.push_back(i == wide ? big : i == 0 ? 2 : (int)choice(2, "i")); Tree local(at), remote(at); Wire wire; BinaryProtocolClient<> client(local.root, wire); BinaryProtocolServer<> server(remote.root); Served c(server.getSession()); int32_t v = (int32_t)sym_int(32, "v"); bool refused = false; int32_t got = 0;
	try { auto token = client.send({}, local.leaf, [&](IStructuredOutput& o, RequestToken) { o.writeInt(SerialisationFlags::INT_32, v); }); c.feed(wire.sent); wire.incoming = c.out; client.getResponse(token, [&](IStructuredInput& in) { got = (int32_t)in.readInt(SerialisationFlags::INT_32); }); } catch (const std::logic_error&) { refused = true; }
	sym_check(refused == (depth > 3 || big > 255), "exactly what cannot be expressed is refused"); int total = 0; for (auto& n : remote.all) total += n->called; if (refused) { sym_check(total == 0 && wire.sent.empty(), "nothing is called instead"); sym_cover("refused"); return; } sym_check(total == 1 && remote.leaf->called == 1 && remote.leaf->got == v, "exactly the method is called"); sym_check(got == (int32_t)(0u - (uint32_t)v), "its result is returned"); sym_cover("called");
}
extern "C" void h_binrpc_hostile() { // any bytes sent to the server
	Api remote; BinaryProtocolServer<> server(remote); Served c(server.getSession()); size_t n = sym_choice(sym_param("n", 10) + 1, "len"); std::string t = symStr(n, "b"); bool thrown = false; std::string good; put<uint32_t>(good, 7); put<uint16_t>(good, 7); good += char(4);
	try { c.feed(t); } catch (...) { thrown = true; }
	sym_check(!thrown, "malformed input raises no exception"); std::vector<std::string_view> rs; sym_check(messages<uint16_t>(c.out, rs) && (int)rs.size() == c.answered, "only whole responses are sent, one per request"); sym_cover(c.closed ? "closed" : c.answered ? "answered" : "waits");
}
extern "C" void h_binrpc_hostile_args() { // a well framed message with any method and arguments
	Api remote; BinaryProtocolServer<> server(remote); Served c(server.getSession()); size_t n = sym_choice(sym_param("n", 6) + 1, "len"); std::string body = symStr(n, "b"), t; put<uint32_t>(t, 9); put<uint16_t>(t, 6 + n); t += body; bool thrown = false;
	try { c.feed(t); } catch (...) { thrown = true; }
	sym_check(!thrown, "malformed arguments raise no exception"); std::vector<std::string_view> rs; sym_check(messages<uint16_t>(c.out, rs) && rs.size() == (c.closed ? 0 : 1), "a message is either answered once or refused"); sym_check(c.closed || c.pending.empty(), "a message is consumed exactly"); sym_check(remote.log.size() <= 1, "called at most once"); sym_cover(c.closed ? "closed" : METHODS[remote.log.empty() ? 0 : remote.log[0].method]);
}
extern "C" void h_binrpc_client_hostile() { // any bytes sent to the client
	Api local; Wire wire; BinaryProtocolClient<> client(local, wire); size_t n = sym_choice(sym_param("n", 10) + 1, "len"); wire.incoming = symStr(n, "b"); int m = choice(3, "method"), outcome = 0; bool framed = flag("framed"); if (framed) { std::string h; put<uint32_t>(h, 0); put<uint16_t>(h, 6 + n); wire.incoming = h + wire.incoming; }
	try { if (m == 0) local.get(); else if (m == 1) { sym_check(framed ? true : true, ""); local.sub(1, 2); } else local.list("x"); } catch (const ParseError&) { outcome = 1; } catch (const RemoteError&) { outcome = 2; } catch (...) { outcome = 3; }
	sym_check(outcome < 3, "only the library's errors are reported"); if (outcome == 0) { std::vector<std::string_view> ms; sym_check(wire.incoming.size() >= 6, "a result needs a response"); } sym_cover(outcome == 0 ? "accepted" : outcome == 1 ? "ParseError" : "RemoteError");
}
// ---- long messages and many calls
template <typename Size, typename Client, typename Server> static void longCalls() {
	static const size_t N[] = {64, 128, 200, 245, 246, 249, 300, 1000, 2048, 4096, 32768, 65524, 65525, 65526, 65527, 65528, 70000}; size_t n = N[choice(17, "n")]; bool reply = flag("reply"); Api remote, local; Wire wire; Client client(local, wire); Server server(remote); Served c(server.getSession()); std::string text(n, 'x'); text[choice(2, "at") ? n - 1 : n / 2] = (char)sym_int(8, "c"); uint64_t most = sizeof(Size) == 4 ? 1 << 30 : sizeof(Size) == 2 ? 65535 : 255; size_t cut = 1 + 1459 * choice(2, "cut"); auto feed = [&] (std::string_view s) { if (cut == 1) { c.feed(s.substr(0, 5)); if (s.size() > 5) c.feed(s.substr(5)); } else for (size_t i = 0; i < s.size(); i += cut) c.feed(s.substr(i, cut)); };
	const size_t H = 4 + sizeof(Size); bool refused = false; std::string got;
	if (!reply) { bool fits = H + 1 + sizeof(Size) + n + 1 <= most; try { auto f = local.set.async(text, true); sym_check(fits, "a request that is too large is refused"); feed(wire.sent); sym_check(remote.log.size() == 1 && eqBytes(remote.message, text) && remote.log[0].f, "a long argument is received"); wire.incoming = c.out; f.get(); } catch (const std::logic_error&) { refused = true; } sym_check(refused == !fits, "exactly requests that are too large are refused"); if (refused) { sym_check(wire.sent.empty(), "nothing is sent of a refused request"); auto f = local.sub.async(7, 3); feed(wire.sent); wire.incoming = c.out; sym_check(f.get() == 4 && remote.log.size() == 1, "calls continue after a refused one"); } }
	else { remote.message = text; bool fits = H + sizeof(Size) + n <= most; auto f = local.get.async(); feed(wire.sent); if (!fits) { refused = true; sym_check(c.closed && c.out.empty(), "the connection is closed if the result is too large"); } else { sym_check(!c.closed && c.answered == 1, "answered"); wire.incoming = c.out; for (size_t i = 1460; i < wire.incoming.size() && cut > 1; i += 1460) wire.cuts.push_back(i); got = f.get(); sym_check(eqBytes(got, text), "a long result is received"); } }
	sym_cover(refused ? "refused" : "long");
}
extern "C" void h_binrpc_long() { switch (choice(3, "size")) { case 0: longCalls<uint16_t, BinaryProtocolClient<>, BinaryProtocolServer<>>(); break; case 1: longCalls<int32_t, BinaryProtocolClient<int32_t>, BinaryProtocolServer<int32_t>>(); break; case 2: longCalls<uint8_t, BinaryProtocolClient<uint8_t>, BinaryProtocolServer<uint8_t>>(); break; } }
extern "C" void h_binrpc_pending() { // many calls wait for their responses, which come in another order than they are asked for
	static const int N[] = {10, 17, 100, 255, 256, 257, 300}; int n = N[choice(7, "n")]; Api remote, local; Wire wire; BinaryProtocolClient<> client(local, wire); BinaryProtocolServer<> server(remote); Served c(server.getSession()); int32_t a = (int32_t)sym_int(32, "a"); std::vector<std::unique_ptr<Future<int32_t>>> fs; for (int i = 0; i < n; i++) fs.push_back(std::unique_ptr<Future<int32_t>>(new Future<int32_t>(local.sub.async(i == n / 2 ? a : i * 3, (int16_t)i))));
	c.feed(wire.sent); std::vector<std::string_view> rs; sym_check(messages<uint16_t>(c.out, rs) && (int)rs.size() == n && (int)remote.log.size() == n, "all calls are answered"); int step = flag("step") ? 7 : 1; bool back = flag("back"); std::string in; for (int i = 0; i < n; i++) in += rs[back ? n - 1 - i : i]; wire.incoming = in; bool front = flag("front"); std::vector<bool> done(n); int asked = 0; int i = front ? 0 : n - 1; while (asked < n) { while (done[i]) i = (i + 1) % n; sym_check(fs[i]->get() == (int32_t)((uint32_t)(i == n / 2 ? a : i * 3) - i), "each call gets its own result"); done[i] = true; asked++; i = (i + step) % n; }
	sym_check(wire.found.empty() && wire.buffer.empty() && !wire.empty, "all responses are used"); sym_cover("pending");
}
// arguments whose flags allow formats with names to leave them out
struct Flagged; static std::string flaggedSay(Flagged* f, bool a, int32_t n, bool b, std::string t, bool c);
struct Flagged : RpcObject<Flagged> { int calls = 0; bool a = false, b = false, c = false; int32_t n = 0; std::string t;
	RpcMember<[] (Flagged* p, bool a = name("a") | SerialisationFlags::OMIT_FALSE, int32_t n = name("n"), bool b = name("b"), std::string t = name("t"), bool c = name("c") | SerialisationFlags::OMIT_FALSE) { return flaggedSay(p, a, n, b, t, c); }> say = child<"say">; };
static std::string flaggedSay(Flagged* f, bool a, int32_t n, bool b, std::string t, bool c) { f->calls++; f->a = a; f->n = n; f->b = b; f->t = t; f->c = c; return t + (a ? "A" : "a") + (b ? "B" : "b") + (c ? "C" : "c"); }
template <typename Size, typename Client, typename Server> static void flagged() {
	Flagged remote, local; Wire wire; Client client(local, wire); Server server(remote); Served s(server.getSession()); bool a = flag("a"), b = flag("b"), c = flag("c"); int32_t n = (int32_t)sym_int(32, "n"); std::string t = symStrUpTo(2, "t"); auto f = local.say.async(a, n, b, t, c); std::string args(1, char(0)), req; args += char(a); put<uint32_t>(args, n); args += char(b); put<Size>(args, t.size()); args += t; args += char(c); put<uint32_t>(req, 0); put<Size>(req, 4 + sizeof(Size) + args.size()); req += args;
	sym_check(eqBytes(wire.sent, req), "the client sends exactly the request"); s.feed(req); sym_check(!s.closed && s.answered == 1 && remote.calls == 1 && remote.a == a && remote.b == b && remote.c == c && remote.n == n && eqBytes(remote.t, t), "the method is called with the arguments sent"); wire.incoming = s.out; bool lost = s.out.empty(); if (lost) return; sym_check(eqBytes(f.get(), t + (a ? "A" : "a") + (b ? "B" : "b") + (c ? "C" : "c")), "the client returns what the method returned"); sym_cover(a && c ? "all" : "some");
}
extern "C" void h_binrpc_flagged() { if (flag("big")) flagged<int32_t, BinaryProtocolClient<int32_t>, BinaryProtocolServer<int32_t>>(); else flagged<uint16_t, BinaryProtocolClient<>, BinaryProtocolServer<>>(); }
extern "C" void h_binrpc_wrap() { // a call waits for its response longer than numbers of some sizes last
	static const int N[] = {255, 32767, 65535}; int n = N[choice(3, "n")]; Api remote, local; Wire wire; BinaryProtocolClient<> client(local, wire); BinaryProtocolServer<> server(remote); Served c(server.getSession()); int32_t a = (int32_t)sym_int(32, "a"); auto first = local.sub.async(a, 1); std::string begin = wire.sent; IRpcResponder& sender = client; const IRemoteCallable* ping = &local.ping; for (int i = 0; i < n; i++) { wire.sent.clear(); sender.send({}, ping, [](IStructuredOutput&, RequestToken) {}); } wire.sent.clear(); auto last = local.sub.async(a, 2); begin += wire.sent; c.feed(begin);
	std::vector<std::string_view> rs; sym_check(messages<uint16_t>(c.out, rs) && (int)rs.size() == 2, "all calls are answered"); bool swapped = flag("swapped"); std::string in(rs[swapped]); in += rs[!swapped]; wire.incoming = in; bool reverse = flag("reverse"); bool ok = true; if (reverse) ok = last.get() == (int32_t)((uint32_t)a - 2); ok = ok && first.get() == (int32_t)((uint32_t)a - 1); if (!reverse) ok = ok && last.get() == (int32_t)((uint32_t)a - 2); sym_check(ok, "each call gets its own result"); sym_cover("wrap");
}
