#pragma once
#include "util.hpp"
// ------------------------------------------------------------------ independent JSON reference
struct JVal { enum K { NUL, BOOL, NUM, STR, ARR, OBJ } k = NUL; bool b = false; std::string s; std::vector<JVal> a; std::vector<std::string> n; };  // a: elements or member values, n: member names
struct JRef { // strict RFC 8259 parser; ok = false on anything not allowed
	std::string_view t; size_t p = 0; bool ok = true;
	char cur() { if (p < t.size()) return t[p]; ok = false; return 0; }
	void ws() { while (p < t.size() && (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r')) p++; }
	bool lit(const char* w) { for (; *w; w++) { if (p >= t.size() || t[p] != *w) return ok = false; p++; } return true; }
	unsigned hex4() { unsigned v = 0; for (int i = 0; i < 4; i++) { unsigned char c = cur(); if (!ok) return 0; p++; unsigned d = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : 16; if (d > 15) { ok = false; return 0; } v = v * 16 + d; } return v; }
	static void utf8(std::string& r, unsigned v) { if (v < 0x80) r += (char)v; else if (v < 0x800) { r += (char)(0xc0 | v >> 6); r += (char)(0x80 | (v & 63)); } else if (v < 0x10000) { r += (char)(0xe0 | v >> 12); r += (char)(0x80 | (v >> 6 & 63)); r += (char)(0x80 | (v & 63)); } else { r += (char)(0xf0 | v >> 18); r += (char)(0x80 | (v >> 12 & 63)); r += (char)(0x80 | (v >> 6 & 63)); r += (char)(0x80 | (v & 63)); } }
	std::string str() {
		std::string r; if (cur() != '"') { ok = false; return r; } p++;
		for (;;) {
			if (p >= t.size()) { ok = false; return r; }
			unsigned char c = t[p++];
			if (c == '"') return r;
			if (c < 0x20) { ok = false; return r; }
			if (c != '\\') { r += (char)c; continue; }
			c = cur(); if (!ok) return r; p++;
			switch (c) { case '"': case '\\': case '/': r += (char)c; break; case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
			case 'u': { unsigned v = hex4(); if (v >= 0xd800 && v < 0xdc00) { if (p + 1 >= t.size() || t[p] != '\\' || t[p + 1] != 'u') { ok = false; return r; } p += 2; unsigned l = hex4(); if (l < 0xdc00 || l > 0xdfff) { ok = false; return r; } v = 0x10000 + ((v & 0x3ff) << 10) + (l & 0x3ff); } else if (v >= 0xdc00 && v < 0xe000) { ok = false; return r; } utf8(r, v); break; }
			default: ok = false; return r; }
		}
	}
	std::string num() { size_t b = p; auto dig = [&] { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }; if (p < t.size() && t[p] == '-') p++; if (!dig()) { ok = false; return ""; } if (t[p] == '0') p++; else while (dig()) p++; if (p < t.size() && t[p] == '.') { p++; if (!dig()) ok = false; while (dig()) p++; } if (p < t.size() && (t[p] == 'e' || t[p] == 'E')) { p++; if (p < t.size() && (t[p] == '+' || t[p] == '-')) p++; if (!dig()) ok = false; while (dig()) p++; } return std::string(t.substr(b, p - b)); }
	JVal val() {
		JVal v; ws(); char c = cur(); if (!ok) return v;
		if (c == '"') { v.k = JVal::STR; v.s = str(); }
		else if (c == '{') { v.k = JVal::OBJ; p++; ws(); if (cur() == '}') { p++; return v; } for (;;) { ws(); std::string n = str(); if (!ok) return v; ws(); if (cur() != ':') { ok = false; return v; } p++; JVal m = val(); if (!ok) return v; v.n.push_back(n); v.a.push_back(m); ws(); char d = cur(); p++; if (d == '}') return v; if (d != ',') { ok = false; return v; } } }
		else if (c == '[') { v.k = JVal::ARR; p++; ws(); if (cur() == ']') { p++; return v; } for (;;) { v.a.push_back(val()); if (!ok) return v; ws(); char d = cur(); p++; if (d == ']') return v; if (d != ',') { ok = false; return v; } } }
		else if (c == 't') { lit("true"); v.k = JVal::BOOL; v.b = true; } else if (c == 'f') { lit("false"); v.k = JVal::BOOL; } else if (c == 'n') lit("null");
		else { v.k = JVal::NUM; v.s = num(); }
		return v;
	}
	static bool parse(std::string_view t, JVal& v) { JRef r{t}; v = r.val(); if (!r.ok) return false; r.ws(); return r.p == t.size(); }
};
static const JVal* member(const JVal& v, std::string_view n) { for (size_t i = 0; i < v.n.size(); i++) if (eqBytes(v.n[i], n)) return &v.a[i]; return nullptr; }

