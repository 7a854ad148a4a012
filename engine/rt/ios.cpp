// Locales and streams of libstdc++.so: the classic locale only, with the facets that text streams of char need.
#include <string>
#include <cstring>
#define private public
#define protected public
#include <bits/localefwd.h>
#include <bits/locale_classes.h>
#include <bits/locale_facets.h>
#include <bits/ios_base.h>
#undef private
#undef protected
#include <ios>
#include <ostream>
#include <istream>
#include <sstream>
#include <iomanip>
namespace std {
size_t vfIds;
size_t locale::id::_M_id() const throw() { if (!_M_index) _M_index = ++vfIds; return _M_index - 1; }
locale::facet::~facet() {}
locale::facet* vfFacets[64]; const locale::facet* vfCaches[64];
static locale::_Impl* vfImpl();
locale::locale() throw() { _M_impl = vfImpl(); }
locale::locale(const locale& o) throw() { _M_impl = o._M_impl; }
locale::~locale() throw() {}
const locale& locale::operator=(const locale& o) throw() { return *this; }
bool locale::operator==(const locale&) const throw() { return true; }
string locale::name() const { return "C"; }
const locale& locale::classic() { static locale l; return l; }
locale locale::global(const locale& l) { return l; }
void locale::_Impl::_M_install_cache(const facet* c, size_t i) { vfCaches[i] = c; }
ctype<char>::ctype(const mask* t, bool, size_t r) : facet(r) { _M_table = t; _M_toupper = nullptr; _M_tolower = nullptr; _M_widen_ok = 0; _M_narrow_ok = 0; }
ctype<char>::~ctype() {}
char ctype<char>::do_toupper(char c) const { return c >= 'a' && c <= 'z' ? c - 32 : c; }
char ctype<char>::do_tolower(char c) const { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
const char* ctype<char>::do_toupper(char* a, const char* b) const { while (a < b) { *a = do_toupper(*a); a++; } return b; }
const char* ctype<char>::do_tolower(char* a, const char* b) const { while (a < b) { *a = do_tolower(*a); a++; } return b; }
void ctype<char>::_M_widen_init() const { for (int i = 0; i < 256; i++) const_cast<ctype*>(this)->_M_widen[i] = (char)i; const_cast<ctype*>(this)->_M_widen_ok = 1; }
void ctype<char>::_M_narrow_init() const { for (int i = 0; i < 256; i++) const_cast<ctype*>(this)->_M_narrow[i] = (char)i; const_cast<ctype*>(this)->_M_narrow_ok = 1; }
template <> void numpunct<char>::_M_initialize_numpunct(__c_locale) {
	if (!_M_data) _M_data = new __numpunct_cache<char>;
	_M_data->_M_grouping = ""; _M_data->_M_grouping_size = 0; _M_data->_M_use_grouping = false; _M_data->_M_decimal_point = '.'; _M_data->_M_thousands_sep = ',';
	for (size_t i = 0; i < __num_base::_S_oend; i++) _M_data->_M_atoms_out[i] = __num_base::_S_atoms_out[i];
	for (size_t i = 0; i < __num_base::_S_iend; i++) _M_data->_M_atoms_in[i] = __num_base::_S_atoms_in[i];
	_M_data->_M_truename = "true"; _M_data->_M_truename_size = 4; _M_data->_M_falsename = "false"; _M_data->_M_falsename_size = 5;
}
template <> numpunct<char>::~numpunct() { delete _M_data; }
const char* __num_base::_S_atoms_in = "-+xX0123456789abcdefABCDEF"; const char* __num_base::_S_atoms_out = "-+xX0123456789abcdef0123456789ABCDEF";
void __num_base::_S_format_float(const ios_base& io, char* f, char mod) throw() {
	ios_base::fmtflags fl = io.flags(); *f++ = '%'; if (fl & ios_base::showpos) *f++ = '+'; if (fl & ios_base::showpoint) *f++ = '#';
	ios_base::fmtflags ff = fl & ios_base::floatfield; if (ff != (ios_base::fixed | ios_base::scientific)) { *f++ = '.'; *f++ = '*'; } if (mod) *f++ = mod;
	if (ff == ios_base::fixed) *f++ = 'f'; else if (ff == ios_base::scientific) *f++ = (fl & ios_base::uppercase) ? 'E' : 'e'; else *f++ = (fl & ios_base::uppercase) ? 'G' : 'g'; *f = 0;
}
bool __verify_grouping(const char*, size_t, const string&) throw() { return true; }
const unsigned short vfMasks[257] = {};
struct VfImpl { alignas(16) char b[sizeof(locale::_Impl)]; }; static VfImpl vfI; static bool vfDone;
static locale::_Impl* vfImpl() {
	auto r = (locale::_Impl*)&vfI; if (vfDone) return r; vfDone = true;
	r->_M_refcount = 1; r->_M_facets_size = 64; *(const locale::facet***)&r->_M_facets = (const locale::facet**)vfFacets; *(const locale::facet***)&r->_M_caches = vfCaches;
	static unsigned short t[256]; for (int c = 0; c < 256; c++) { unsigned m = 0; bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9', pr = c >= 32 && c < 127; if (up) m |= ctype_base::upper | ctype_base::alpha; if (lo) m |= ctype_base::lower | ctype_base::alpha; if (di) m |= ctype_base::digit; if (di || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F')) m |= ctype_base::xdigit; if (c == ' ' || (c >= 9 && c <= 13)) m |= ctype_base::space; if (pr) m |= ctype_base::print; if (c == ' ' || c == 9) m |= ctype_base::blank; if (c < 32 || c == 127) m |= ctype_base::cntrl; if (pr && c != ' ' && !up && !lo && !di) m |= ctype_base::punct; t[c] = m; }
	vfFacets[ctype<char>::id._M_id()] = new ctype<char>(t, false, 1);
	vfFacets[numpunct<char>::id._M_id()] = new numpunct<char>((__numpunct_cache<char>*)nullptr, 1);
	vfFacets[num_put<char>::id._M_id()] = new num_put<char>(1);
	vfFacets[num_get<char>::id._M_id()] = new num_get<char>(1);
	return r;
}
locale::id ctype<char>::id;
ios_base::ios_base() throw() : _M_precision(), _M_width(), _M_flags(), _M_exception(), _M_streambuf_state(), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; _M_ios_locale = locale(); }
locale ios_base::imbue(const locale& l) throw() { return l; }
void ios_base::_M_call_callbacks(event) throw() {} void ios_base::_M_dispose_callbacks() throw() {}
__c_locale locale::facet::_S_get_c_locale() { return nullptr; }
void __throw_ios_failure(const char*) { throw runtime_error("ios failure"); }
template <> basic_istream<char>& operator>>(basic_istream<char>& in, string& s) {
	istream::sentry ok(in, false); if (!ok) return in; s.clear(); streamsize w = in.width(), n = 0; bool end = false;
	while (true) { int c = in.rdbuf()->sgetc(); if (c == -1) { end = true; break; } if (c == ' ' || (c >= 9 && c <= 13) || (w > 0 && n >= w)) break; s.push_back((char)c); n++; in.rdbuf()->sbumpc(); }
	in.width(0); if (end) in.setstate(ios_base::eofbit); if (!n) in.setstate(ios_base::failbit); return in;
}
template <> basic_istream<char>& getline(basic_istream<char>& in, string& s, char d) {
	istream::sentry ok(in, true); if (!ok) return in; s.clear(); bool any = false;
	while (true) { int c = in.rdbuf()->sbumpc(); if (c == -1) { in.setstate(any ? ios_base::eofbit : ios_base::eofbit | ios_base::failbit); return in; } any = true; if ((char)c == d) return in; s.push_back((char)c); }
}
}
extern "C" locale_t uselocale(locale_t) { return nullptr; }
extern "C" locale_t __uselocale(locale_t) { return nullptr; }
