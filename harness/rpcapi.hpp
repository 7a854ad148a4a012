// A remote interface used by the RPC harnesses: every kind of argument and result, and a record of what was called
#pragma once
#include "util.hpp"
#include "bomba_core.hpp"
#include "bomba_object.hpp"
#include "bomba_rpc_object.hpp"
#include "bomba_dynamic_object.hpp"
using namespace Bomba;

struct Info : Serialisable<Info> { int32_t count = key<"count">; std::string label = key<"label">; };
struct Call { int method = -1; int64_t a = 0, b = 0; std::string s; std::vector<int16_t> v; bool f = false; bool operator==(const Call& o) const { return method == o.method && a == o.a && b == o.b && f == o.f && eqBytes(s, o.s) && v == o.v; } };
struct Api;
inline void apiSet(Api* p, const std::string& m, bool loud);
inline int32_t apiSub(Api* p, int32_t a, int16_t b);
inline std::string apiGet(Api* p);
inline Info apiInfo(Api* p, const std::vector<int16_t>& v, const Info& i);
inline void apiPing(Api* p);
inline bool apiFail(Api* p, int kind);
inline std::vector<std::string> apiList(Api* p, const std::optional<std::string>& o);
struct Api : RpcObject<Api> {
	using RpcObject<Api>::childName; using RpcObject<Api>::getChild;
	std::vector<Call> log; std::string message;
	RpcMember<[] (Api* p, std::string m = name("message"), bool loud = name("loud")) { apiSet(p, m, loud); }> set = child<"set">;
	RpcMember<[] (Api* p, int32_t a = name("a"), int16_t b = name("b")) { return apiSub(p, a, b); }> sub = child<"sub">;
	RpcMember<[] (Api* p) { return apiGet(p); }> get = child<"get">;
	RpcMember<[] (Api* p, std::vector<int16_t> v = name("v"), Info i = name("info")) { return apiInfo(p, v, i); }> info = child<"info">;
	RpcMember<[] (Api* p) { apiPing(p); }> ping = child<"ping">;
	RpcMember<[] (Api* p, int32_t k = name("kind")) { return apiFail(p, k); }> fail = child<"fail">;
	RpcMember<[] (Api* p, std::optional<std::string> o = name("o")) { return apiList(p, o); }> list = child<"list">;
};
inline void apiSet(Api* p, const std::string& m, bool loud) { p->log.push_back({0, 0, 0, m, {}, loud}); p->message = m; }
inline int32_t apiSub(Api* p, int32_t a, int16_t b) { p->log.push_back({1, a, b, {}, {}}); return (int32_t)((uint32_t)a - (uint32_t)b); }
inline std::string apiGet(Api* p) { p->log.push_back({2}); return p->message; }
inline Info apiInfo(Api* p, const std::vector<int16_t>& v, const Info& i) { p->log.push_back({3, i.count, 0, i.label, v}); Info r; r.count = (int32_t)((uint32_t)i.count + v.size()); r.label = i.label + "!"; return r; }
inline void apiPing(Api* p) { p->log.push_back({4}); }
inline bool apiFail(Api* p, int kind) { p->log.push_back({5, kind}); if (kind == 1) throw std::runtime_error("failed"); if (kind == 2) remoteError("refused"); return kind == 3; }
inline std::vector<std::string> apiList(Api* p, const std::optional<std::string>& o) { p->log.push_back({6, o.has_value(), 0, o.value_or("")}); std::vector<std::string> r; if (o) r = {*o, "x"}; return r; }
static const char* METHODS[] = {"set", "sub", "get", "info", "ping", "fail", "list"};
