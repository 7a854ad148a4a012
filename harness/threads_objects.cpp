// Several threads at a time, each with its own objects, or with its own session of a shared server
#include "util.hpp"
#include <filesystem>
#include <fstream>
#include <iostream>
#include "bomba_core.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
#include "bomba_json.hpp"
#include "bomba_json_rpc.hpp"
#include "bomba_json_wsp_description.hpp"
#include "bomba_binary_protocol.hpp"
#include "bomba_http.hpp"
#include "bomba_download_server.hpp"
#include "loop.hpp"
using namespace Bomba;
using Json = BasicJson<>;
using Bin = BinaryFormat<std::string, uint16_t>;
struct Leaf : Serialisable<Leaf> { int16_t n = key<"n"> = 3; std::string t = key<"t">; };
struct Node : Serialisable<Node> { std::unique_ptr<Node> left = key<"left">; int value = key<"value">; Leaf leaf = key<"leaf">; std::vector<std::string> list = key<"list">; };
// methods that have no state, so that an object of these may be called from any thread
struct Calc : RpcObject<Calc> {
	RpcMember<[] (int32_t a = name("a"), int16_t b = name("b")) { return (int32_t)((uint32_t)a - (uint32_t)b); }> sub = child<"sub">;
	RpcMember<[] (std::string t = name("t")) { return t + "!"; }> shout = child<"shout">;
	RpcMember<[] (bool f = name("f")) { if (f) remoteError("refused"); return true; }> fail = child<"fail">;
	RpcMember<[] (std::vector<Leaf> n = name("leaves")) { return Leaf(); }> tree = child<"tree">;
};
// the same methods, of classes of which no object was made before the threads start
template <int N> struct Fresh : RpcObject<Fresh<N>> {
	RpcMember<[] (int32_t a = name("a")) { return a + N; }> add = RpcObject<Fresh<N>>::template child<"add">;
	RpcMember<[] (std::string t = name("t")) { return t.size(); }> size = RpcObject<Fresh<N>>::template child<"size">;
};
struct Page : IHttpGetResponder, IHttpPostResponder {
	bool get(std::string_view path, IWriteStarter& w) override { if (path == "/none") return false; w.writeUnknownSize("text/plain", [&](GeneralisedBuffer& b) { b += "page "; b += path; }); return true; }
	bool post(std::string_view path, std::string_view, std::span<char> body, IWriteStarter& w) override { if (path == "/fail") throw std::runtime_error("failed"); w.writeKnownSize("text/plain", body.size(), [&](GeneralisedBuffer& b) { b += std::string_view(body.data(), body.size()); }); return true; }
};
template <typename S> static std::string served(S session, std::string in) { // the answers to a stream of requests
	std::string out; size_t at = 0; while (at < in.size()) { std::string rest = in.substr(at); Exact e(rest); auto [reaction, used] = session.respond(e.span(), [&](std::span<const char> o) { out.append(o.data(), o.size()); }); if (reaction != ServerReaction::OK || used <= 0) { out += reaction == ServerReaction::DISCONNECT ? "(closed)" : "(waits)"; break; } at += used; } return out;
}
static std::string post(std::string path, std::string body, std::string type = "application/json") { return "POST " + path + " HTTP/1.1\r\nContent-Type: " + type + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; }
static const int JOBS = 16; struct Shared { Calc* calc; JsonRpcServer<>* rpc; BinaryProtocolServer<>* binary; HttpServer<>* http; DynamicFileServer* files; HttpServer<>* forms; int job[4]; std::string text[4]; std::string got[4], alone[4]; bool threads; };
static std::string work(Shared& sh, int job, const std::string& t) {
	std::string out;
	switch (job) {
	case 0: { Node n; n.value = 5; n.leaf.t = t; n.list = {t, "b"}; n.left = std::make_unique<Node>(); n.left->leaf.n = 7; out = n.serialise<Json>(); Node m; m.value = 1; bool ok = m.deserialise<Json>(out); return out + (ok ? "+" : "-") + m.serialise<Json>(); }
	case 1: { Leaf n; n.t = t + "x"; n.n = -2; out = n.serialise<Bin>(); Leaf m; Exact e(out); bool ok = m.deserialise<Bin>(std::string_view(e)); return out + (ok ? "+" : "-") + m.t + std::to_string(m.n); }
	case 2: return describeInJsonWsp<std::string>(*sh.calc, "u", t);
	case 3: { Calc own; JsonRpcServer<> server(own); return served(server.getSession(), post("/", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"shout\",\"params\":{\"t\":\"" + t + "\"}}") + post("/", "{\"jsonrpc\":\"2.0\",\"id\":2,\"method\":\"none\"}")); }
	case 4: return served(sh.rpc->getSession(), post("/", "{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"sub\",\"params\":{\"b\":2,\"a\":5}}") + post("/", "[{\"jsonrpc\":\"2.0\",\"id\":\"" + t + "\",\"method\":\"fail\",\"params\":{\"f\":true}},{\"jsonrpc\":\"2.0\",\"id\":2,\"method\":\"shout\",\"params\":{\"t\":\"z\"}}]"));
	case 5: { std::string in("\x07\0\0\0\x0d\0\0\x05\0\0\0\x02\0", 13); in[7] = t[0]; return served(sh.binary->getSession(), in); }
	case 6: return served(sh.http->getSession(), "GET /" + t + " HTTP/1.1\r\n\r\n" + post("/", t + "body", "a/b") + post("/fail", "", "a/b") + "GET /none HTTP/1.1\r\n\r\n");
	case 7: { DynamicRpcObject root, sub; int calls = 0; sub.add("f", RpcLambdaHolder([&calls](int x = name("x")) { calls++; return x + 1; })); root.add(t, RpcLambdaHolder::nonOwning(sub)); Calc own; root.add("calc", RpcLambdaHolder::nonOwning(own)); return served(JsonRpcServer<>(root).getSession(), "") + describeInJsonWsp<std::string>(root, "u", "n") + std::to_string(own.sub(9, 4)) + std::to_string(calls); }
	case 8: { Fresh<1> f; Fresh<1>* g = new Fresh<1>(f); JsonRpcServer<> server(*g); out = served(server.getSession(), post("/", "{\"jsonrpc\":\"2.0\",\"id\":1,\"method\":\"add\",\"params\":{\"a\":4}}") + post("/", "{\"jsonrpc\":\"2.0\",\"id\":2,\"method\":\"size\",\"params\":{\"t\":\"" + t + "\"}}")); delete g; return out; }
	case 9: { Fresh<2> f; return describeInJsonWsp<std::string>(f, "u", "n") + std::to_string(f.add(3)); }
	case 10: { Calc remote, local; JsonRpcServer<> server(remote); using S = Served<JsonRpcServer<>::Session>; S c(server.getSession()); Loop<S> loop(c, 0, 0); JsonRpcClient<> client(local, loop, "host"); auto f = local.shout.async(t); out = "(" + std::to_string(local.sub(4, 1)); out += f.get(); try { local.fail(true); } catch (const RemoteError&) { out += "refused"; } return out; }
	case 11: { Calc remote, local; BinaryProtocolServer<> server(remote); using S = Served<BinaryProtocolServer<>::Session>; S c(server.getSession()); Loop<S> loop(c, 1, 3); BinaryProtocolClient<> client(local, loop); auto f = local.shout.async(t); out = "(" + std::to_string(local.sub(4, 1)); out += f.get(); try { local.fail(true); } catch (const RemoteError&) { out += "refused"; } return out; }
	case 12: return served(sh.http->getSession(), "GET /a HTTP/1.1\r\n\r\n") + served(HttpServer<>(*sh.files).getSession(), "GET /a.css HTTP/1.1\r\n\r\nGET /made HTTP/1.1\r\n\r\nGET /" + t + " HTTP/1.1\r\n\r\n");
	case 13: return served(sh.forms->getSession(), "GET /shout?t=" + t + "%26 HTTP/1.1\r\n\r\n" + post("/sub", "a=5&b=1", "application/x-www-form-urlencoded"));
	case 14: { { ExpandingBuffer<20> b; b += "a long text that must grow "; b += std::string_view(t); out = std::string(std::string_view(b)); } return out; }
	default: { try { out = "(" + sh.calc->shout(t) + std::to_string(sh.calc->sub(1, 2)) + (sh.calc->fail(false) ? "t" : "f"); sh.calc->fail(true); out += "no"; } catch (const std::exception& e) { out += e.what(); } return out; }
	}
}
static void worker(int t, void* p) { auto sh = (Shared*)p; sh->got[t] = work(*sh, sh->job[t], sh->text[t]); }
static const std::string ROOT = "/r/w"; static void fill() { FsMock::files.clear(); FsMock::touched.clear(); FsMock::record = false; for (auto d : {"/", "/r", "/r/w"}) FsMock::files[d].isDir = true; for (auto n : {"/index.html", "/a.css"}) FsMock::files[ROOT + n].contents = std::string("contents of ") + n; }
static void run(int threads) {
	Calc calc; JsonRpcServer<> rpc(calc); BinaryProtocolServer<> binary(calc); Page page; HttpServer<> http(page, page); fill(); DynamicFileServer files(ROOT); files.addGeneratedFile("made", false, [](Callback<void(std::span<const char>)> w) { w(std::span<const char>("made", 4)); }); RpcGetResponder<> getter(page, calc); HtmlPostResponder<> poster(calc); HttpServer<> forms(getter, poster); Shared sh{&calc, &rpc, &binary, &http, &files, &forms};
	for (int t = 0; t < threads; t++) { sh.job[t] = choice(JOBS, "job"); std::string s = symStr(1, "text"); sym_assume(s[0] >= 'a' && s[0] <= 'z' && (t == 0 || s[0] != sh.text[t - 1][0])); sh.text[t] = s; }
	sym_threads(threads, worker, &sh);
	for (int t = 0; t < threads; t++) { std::string alone = work(sh, sh.job[t], sh.text[t]); sym_check(eqBytes(sh.got[t], alone), "a thread gets what it gets alone"); sym_check(alone.size() > 4, "there is a result"); }
	sym_cover("together");
}
extern "C" void h_thread_objects2() { run(2); }
extern "C" void h_thread_objects3() { run(3); }
