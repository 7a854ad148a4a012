// Reference reader of HTTP messages, strict about what the server or client has to write
#pragma once
#include <string>
#include <string_view>
#include <vector>
struct HttpMsg {
	std::string first, body; int code = 0; std::vector<std::pair<std::string, std::string>> headers;
	std::string header(std::string_view name) const { for (auto& [n, v] : headers) if (n == name) return v; return "(none)"; }
	int count(std::string_view name) const { int c = 0; for (auto& [n, v] : headers) c += n == name; return c; }
};
static bool parseHttp(std::string_view& t, HttpMsg& m, bool response) {
	auto end = t.find("\r\n"); if (end == t.npos) return false; m.first = std::string(t.substr(0, end)); t.remove_prefix(end + 2); int length = -1;
	while (true) {
		end = t.find("\r\n"); if (end == t.npos) return false; std::string_view line = t.substr(0, end); t.remove_prefix(end + 2); if (line.empty()) break;
		auto colon = line.find(':'); if (colon == line.npos || colon == 0) return false; std::string name(line.substr(0, colon)); for (char& c : name) { if (c <= ' ' || c >= 127) return false; if (c >= 'A' && c <= 'Z') c += 32; }
		std::string_view v = line.substr(colon + 1); while (!v.empty() && (v.front() == ' ' || v.front() == '\t')) v.remove_prefix(1); while (!v.empty() && (v.back() == ' ' || v.back() == '\t')) v.remove_suffix(1); if (v.find_first_of(std::string_view("\r\n\0", 3)) != v.npos) return false;
		if (name == "content-length") { if (length >= 0 || v.empty() || v.size() > 9) return false; length = 0; for (char c : v) { if (c < '0' || c > '9') return false; length = length * 10 + (c - '0'); } }
		m.headers.emplace_back(std::move(name), std::string(v));
	}
	if (response) { std::string_view f = m.first; if (f.substr(0, 9) != "HTTP/1.1 " || f.size() < 13 || f[12] != ' ') return false; for (int i = 9; i < 12; i++) { if (f[i] < '0' || f[i] > '9') return false; m.code = m.code * 10 + (f[i] - '0'); } if (m.code < 200 || m.code > 599) return false; if (length < 0) { if (m.code != 204) return false; length = 0; } }
	else if (length < 0) length = 0;
	if (t.size() < (size_t)length) return false; m.body = std::string(t.substr(0, length)); t.remove_prefix(length); return true;
}
static bool parseResponses(std::string_view t, std::vector<HttpMsg>& out) { while (!t.empty()) { out.emplace_back(); if (!parseHttp(t, out.back(), true)) return false; } return true; }
// names that differ from a known one, with values that would have a meaning under it
static std::string strangeName(const char* const* known, int count, std::string& value) {
	static const char* const VALUES[] = {"7", "close", "chunked", "t/q"}; int k = choice(count, "known"); std::string base = known[k]; bool cross = flag("crossed"); value = VALUES[cross ? (k + 1) % 4 : k]; int how = choice(9, "how"); size_t at = 0; if (how < 3) at = sym_choice(base.size() - 1, "at"); std::string n = base;
	if (how < 2) { char c = (char)sym_int(8, "letter"); sym_assume((unsigned char)c > ' ' && c != ':' && c != 127); if (how == 0) { char lower = c; if (lower >= 'A' && lower <= 'Z') lower += 32; sym_assume(lower != base[at]); n[at] = c; } else n.insert(at, 1, c); }
	if (how == 2) n.erase(at, 1); if (how == 3) n = "x-" + base; if (how == 4) n = base + "-x"; if (how == 5) n = base.substr(base.find('-') == base.npos ? 3 : base.find('-') + 1); if (how == 6) n = base.substr(0, base.find('-') == base.npos ? 3 : base.find('-')); if (how == 7) n = base + base; if (how == 8) n = base + "s";
	if (flag("capital") && n[0] >= 'a' && n[0] <= 'z') n[0] -= 32; return n;
}
