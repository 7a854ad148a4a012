// Run-time support for symbolic execution: the parts of libc and libstdc++.so that are not in headers, written plainly.
// Everything of Bomba itself is executed from /repo's sources; this file only stands for the system libraries.
#define private public
#include <exception>
#undef private
#include <stdexcept>
#include <new>
#include <charconv>
#include <functional>
#include <system_error>
#include <string>
#include <map>
#include <cstring>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <typeinfo>
#include <ios>
#include <atomic>
#include <chrono>
#include <pthread.h>
#include <list>
#include <condition_variable>
#include <thread>
#include <memory>
extern "C" { uint64_t vf_thread_start(void (*)(void*), void*); void vf_thread_join(uint64_t); }
#include <mutex>
#include <ctime>

extern "C" int sym_native_ftoa(char* out, uint64_t bits, int isFloat);
extern "C" int sym_native_atof(const char* first, int n, uint64_t* bits, int* ec, int isFloat);

extern "C" {
size_t strlen(const char* s) { size_t n = 0; while (s[n]) n++; return n; }
void* vf_memchr(const void* p, int c, size_t n) __asm__("memchr");
void* vf_memchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (s[i] == (unsigned char)c) return (void*)(s + i); return nullptr; }
int strcmp(const char* a, const char* b) { while (*a && *a == *b) { a++; b++; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (a[i] != b[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; if (!a[i]) return 0; } return 0; }
char* vf_strchr(const char* s, int c) __asm__("strchr");
char* vf_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
char* strcpy(char* d, const char* s) { char* r = d; while ((*d++ = *s++)) ; return r; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isalpha(int c) { return isupper(c) || islower(c); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int isxdigit(int c) { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) { return c >= 32 && c < 127; }
int iscntrl(int c) { return c < 32 || c == 127; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
double floor(double x) { double t = (double)(long long)x; return t > x ? t - 1 : t; }
double trunc(double x) { return (double)(long long)x; }
int __gxx_personality_v0(...) { return 0; }
char __libc_single_threaded = 1;
static int vf_errno; int* __errno_location() { return &vf_errno; }
static void reverse(char* b, char* e) { while (b < --e) { char t = *b; *b++ = *e; *e = t; } }
// the conversions of printf: flags, width, precision, d i u o x X s c p f e g %
int vsnprintf(char* out, size_t cap, const char* f, va_list ap) {
	size_t n = 0; auto put = [&](char c) { if (n + 1 < cap) out[n] = c; n++; };
	for (; *f; f++) {
		if (*f != '%') { put(*f); continue; }
		f++; bool left = false, zero = false, alt = false; char plus = 0; int width = 0, prec = -1, len = 0;
		for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = '+'; else if (*f == ' ') { if (!plus) plus = ' '; } else if (*f == '#') alt = true; else break; }
		if (*f == '*') { width = va_arg(ap, int); if (width < 0) { left = true; width = -width; } f++; } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
		if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = va_arg(ap, int); f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
		for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j' || *f == 't' || *f == 'q') len = 8; else if (*f == 'h') len = len == 2 ? 1 : 2; else break; }
		char b[400]; int k = 0, sign = 0; const char* body = b; char conv = *f;
		auto digits = [&](unsigned long u, unsigned base, bool up) { do { unsigned d = u % base; b[k++] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; u /= base; } while (u); while (k < prec && k < 390) b[k++] = '0'; };
		switch (conv) {
		case 'd': case 'i': { long v = len == 8 ? va_arg(ap, long) : va_arg(ap, int); if (len == 1) v = (signed char)v; if (len == 2) v = (short)v; digits(v < 0 ? 0ul - (unsigned long)v : v, 10, false); char c = v < 0 ? '-' : plus; if (zero && !left && prec < 0) while (k < width - (c ? 1 : 0) && k < 390) b[k++] = '0'; if (c) b[k++] = c; reverse(b, b + k); break; }
		case 'u': case 'x': case 'X': case 'o': case 'p': { unsigned long u = len == 8 || conv == 'p' ? va_arg(ap, unsigned long) : va_arg(ap, unsigned); if (len == 1) u = (unsigned char)u; if (len == 2) u = (unsigned short)u; digits(u, conv == 'u' ? 10 : conv == 'o' ? 8 : 16, conv == 'X'); bool pre = conv == 'p' || (alt && u && conv != 'u' && conv != 'o'); if (zero && !left && prec < 0) while (k < width - (pre ? 2 : 0) && k < 390) b[k++] = '0'; if (pre) { b[k++] = conv == 'X' ? 'X' : 'x'; b[k++] = '0'; } reverse(b, b + k); break; }
		case 's': { body = va_arg(ap, const char*); if (!body) body = "(null)"; while ((prec < 0 || k < prec) && body[k]) k++; break; }
		case 'c': b[k++] = (char)va_arg(ap, int); break;
		case 'f': case 'F': case 'e': case 'E': case 'g': case 'G': { double d = va_arg(ap, double); uint64_t bits; memcpy(&bits, &d, 8); int fmt = (conv | 32) == 'e' ? 1 : (conv | 32) == 'f' ? 2 : 3; k = sym_native_ftoa(b + 1, bits, (fmt << 1) | ((prec < 0 ? 6 : prec) + 1) << 8); body = b + 1; if (plus && b[1] != '-') { b[0] = plus; body = b; k++; } if (conv < 'a') for (int i = 0; i < k; i++) ((char*)body)[i] = toupper(body[i]); if (zero && !left && k < width) { char* w = (char*)body; int sg = (*w == '-' || *w == '+' || *w == ' '); int add = width - k; memmove(w + sg + add, w + sg, k - sg); for (int i = 0; i < add; i++) w[sg + i] = '0'; k = width; } break; }
		case '%': b[k++] = '%'; break;
		default: put(conv); continue;
		}
		(void)sign; if (!left) for (int i = k; i < width; i++) put(' '); for (int i = 0; i < k; i++) put(body[i]); if (left) for (int i = k; i < width; i++) put(' ');
	}
	if (cap) out[n < cap ? n : cap - 1] = 0;
	return (int)n;
}
int snprintf(char* out, size_t cap, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, cap, f, ap); va_end(ap); return r; }
int sprintf(char* out, const char* f, ...) { va_list ap; va_start(ap, f); int r = vsnprintf(out, 1 << 20, f, ap); va_end(ap); return r; }
static unsigned long long strtox(const char* s, char** end, int base, bool& neg) {
	const char* p = s; while (isspace((unsigned char)*p)) p++; neg = false; if (*p == '-') { neg = true; p++; } else if (*p == '+') p++;
	if ((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
	unsigned long long v = 0; bool any = false, over = false; for (;; p++) { unsigned d; char c = *p; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break; if (d >= (unsigned)base) break; any = true; if (v > (~0ull - d) / base) over = true; v = v * base + d; }
	if (end) *end = (char*)(any ? p : s); if (over) { vf_errno = 34; return ~0ull; } return v;
}
unsigned long strtoul(const char* s, char** e, int base) { bool neg; unsigned long v = strtox(s, e, base, neg); return neg && v != ~0ul ? 0 - v : v; }
unsigned long long strtoull(const char* s, char** e, int base) { return strtoul(s, e, base); }
long strtol(const char* s, char** e, int base) { bool neg; unsigned long v = strtox(s, e, base, neg); if (!neg && v > 0x7fffffffffffffffull) { vf_errno = 34; return 0x7fffffffffffffffll; } if (neg && v > 0x8000000000000000ull) { vf_errno = 34; return (long)0x8000000000000000ull; } return neg ? (long)(0 - v) : (long)v; }
long long strtoll(const char* s, char** e, int base) { return strtol(s, e, base); }
int atoi(const char* s) { return (int)strtol(s, nullptr, 10); }
double strtod(const char* s, char** e) { while (isspace((unsigned char)*s)) s++; uint64_t bits = 0; int ec = 0; int used = sym_native_atof(s, (int)strlen(s), &bits, &ec, 0); if (e) *e = (char*)s + used; double d; memcpy(&d, &bits, 8); return d; }
float strtof(const char* s, char** e) { while (isspace((unsigned char)*s)) s++; uint64_t bits = 0; int ec = 0; int used = sym_native_atof(s, (int)strlen(s), &bits, &ec, 1); if (e) *e = (char*)s + used; float d; uint32_t b = (uint32_t)bits; memcpy(&d, &b, 4); return d; }
double atof(const char* s) { return strtod(s, nullptr); }
long atol(const char* s) { return strtol(s, nullptr, 10); }
long long atoll(const char* s) { return strtol(s, nullptr, 10); }

int vf_sscanf(const char* s, const char* f, ...) __asm__("__isoc23_sscanf"); int vf_sscanf2(const char* s, const char* f, ...) __asm__("sscanf");
static int scan(const char* s, const char* f, va_list ap) {
	int got = 0; const char* s0 = s;
	for (; *f; f++) {
		if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
		if (*f != '%') { if (*s != *f) return got ? got : *s ? 0 : -1; s++; continue; }
		f++; bool skip = false; if (*f == '*') { skip = true; f++; } int width = 0; while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0'); int len = 4;
		for (;; f++) { if (*f == 'l' || *f == 'z' || *f == 'j') len = 8; else if (*f == 'h') len = len == 2 ? 1 : 2; else break; }
		if (*f == '%') { if (*s != '%') return got; s++; continue; }
		if (*f == 'n') { *va_arg(ap, int*) = (int)(s - s0); continue; }
		if (*f != 'c') while (isspace((unsigned char)*s)) s++;
		if (!*s) return got ? got : -1;
		if (*f == 'c') { int n = width ? width : 1; char* p = skip ? nullptr : va_arg(ap, char*); for (int i = 0; i < n; i++) { if (!*s) return got; if (p) p[i] = *s; s++; } if (!skip) got++; continue; }
		if (*f == 's') { char* p = skip ? nullptr : va_arg(ap, char*); int k = 0; while (*s && !isspace((unsigned char)*s) && (!width || k < width)) { if (p) p[k] = *s; k++; s++; } if (p) p[k] = 0; if (!skip) got++; continue; }
		char b[70]; int k = 0; int w = width && width < 69 ? width : 69; while (s[k] && k < w) { b[k] = s[k]; k++; } b[k] = 0; char* e; int base = *f == 'x' || *f == 'X' ? 16 : *f == 'i' ? 0 : *f == 'o' ? 8 : 10;
		if (*f == 'f' || *f == 'g' || *f == 'e') { double d = strtod(b, &e); if (e == b) return got; s += e - b; if (!skip) { if (len == 8) *va_arg(ap, double*) = d; else *va_arg(ap, float*) = (float)d; got++; } continue; }
		unsigned long v = *f == 'd' || *f == 'i' ? (unsigned long)strtol(b, &e, base) : strtoul(b, &e, base); if (e == b) return got; s += e - b;
		if (!skip) { void* p = va_arg(ap, void*); if (len == 8) *(unsigned long*)p = v; else if (len == 4) *(unsigned*)p = (unsigned)v; else if (len == 2) *(unsigned short*)p = (unsigned short)v; else *(unsigned char*)p = (unsigned char)v; got++; }
	}
	return got;
}
int vf_sscanf(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
int vf_sscanf2(const char* s, const char* f, ...) { va_list ap; va_start(ap, f); int r = scan(s, f, ap); va_end(ap); return r; }
char* vf_strrchr(const char* s, int c) __asm__("strrchr");
char* vf_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
size_t wcslen(const wchar_t* s) { size_t n = 0; while (s[n]) n++; return n; }
div_t div(int a, int b) { return {a / b, a % b}; } ldiv_t ldiv(long a, long b) { return {a / b, a % b}; }
size_t strnlen(const char* s, size_t n) { size_t k = 0; while (k < n && s[k]) k++; return k; }
size_t strspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (!*p) break; } return n; }
size_t strcspn(const char* s, const char* a) { size_t n = 0; for (; s[n]; n++) { const char* p = a; while (*p && *p != s[n]) p++; if (*p) break; } return n; }
char* vf_strpbrk(const char* s, const char* a) __asm__("strpbrk"); char* vf_strpbrk(const char* s, const char* a) { s += strcspn(s, a); return *s ? (char*)s : nullptr; }
char* vf_strstr(const char* s, const char* a) __asm__("strstr"); char* vf_strstr(const char* s, const char* a) { size_t n = strlen(a); for (;; s++) { if (!strncmp(s, a, n)) return (char*)s; if (!*s) return nullptr; } }
int strcasecmp(const char* a, const char* b) { while (*a && tolower((unsigned char)*a) == tolower((unsigned char)*b)) { a++; b++; } return tolower((unsigned char)*a) - tolower((unsigned char)*b); }
int strncasecmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { int d = tolower((unsigned char)a[i]) - tolower((unsigned char)b[i]); if (d || !a[i]) return d; } return 0; }
char* strcat(char* d, const char* s) { strcpy(d + strlen(d), s); return d; }
char* strncat(char* d, const char* s, size_t n) { char* e = d + strlen(d); size_t i = 0; for (; i < n && s[i]; i++) e[i] = s[i]; e[i] = 0; return d; }
char* stpcpy(char* d, const char* s) { while ((*d = *s)) { d++; s++; } return d; }
void* vf_memrchr(const void* p, int c, size_t n) __asm__("memrchr"); void* vf_memrchr(const void* p, int c, size_t n) { const unsigned char* s = (const unsigned char*)p; while (n--) if (s[n] == (unsigned char)c) return (void*)(s + n); return nullptr; }
void* memmem(const void* h, size_t n, const void* a, size_t m) { for (size_t i = 0; i + m <= n; i++) if (!memcmp((const char*)h + i, a, m)) return (void*)((const char*)h + i); return nullptr; }
void* mempcpy(void* d, const void* s, size_t n) { memcpy(d, s, n); return (char*)d + n; }
char* strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)malloc(n); memcpy(p, s, n); return p; }
char* strndup(const char* s, size_t k) { size_t n = strnlen(s, k); char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
char* strtok_r(char* s, const char* d, char** save) { if (!s) s = *save; s += strspn(s, d); if (!*s) { *save = s; return nullptr; } char* e = s + strcspn(s, d); if (*e) *e++ = 0; *save = e; return s; }
char* strtok(char* s, const char* d) { static char* save; return strtok_r(s, d, &save); }
char* strerror(int) { static char t[] = "error"; return t; }
int ispunct(int c) { return isprint(c) && c != ' ' && !isalnum(c); }
int isgraph(int c) { return c > 32 && c < 127; }
int isblank(int c) { return c == ' ' || c == 9; }
static unsigned short vfCtype[384]; static int vfLower[384], vfUpper[384];
static void vfTables() { if (vfLower[0x80 + 'A']) return; for (int c = 0; c < 256; c++) { bool low = c < 128; vfLower[128 + c] = tolower(c); vfUpper[128 + c] = toupper(c); unsigned short m = 0; if (low && isupper(c)) m |= 1 << 8; if (low && islower(c)) m |= 1 << 9; if (low && isalpha(c)) m |= 1 << 10; if (low && isdigit(c)) m |= 1 << 11; if (low && isxdigit(c)) m |= 1 << 12; if (low && isspace(c)) m |= 1 << 13; if (low && isprint(c)) m |= 1 << 14; if (low && isgraph(c)) m |= 1 << 15; if (low && isblank(c)) m |= 1 << 0; if (low && iscntrl(c)) m |= 1 << 1; if (low && ispunct(c)) m |= 1 << 2; if (low && isalnum(c)) m |= 1 << 3; vfCtype[128 + c] = m; } }
const unsigned short** __ctype_b_loc() { static const unsigned short* p = vfCtype + 128; vfTables(); return &p; }
const int** __ctype_tolower_loc() { static const int* p = vfLower + 128; vfTables(); return &p; }
const int** __ctype_toupper_loc() { static const int* p = vfUpper + 128; vfTables(); return &p; }
void qsort(void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { char* p = (char*)b; for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(p + (j - 1) * w, p + j * w) > 0; j--) for (size_t k = 0; k < w; k++) { char t = p[j * w + k]; p[j * w + k] = p[(j - 1) * w + k]; p[(j - 1) * w + k] = t; } }
void* bsearch(const void* key, const void* b, size_t n, size_t w, int (*cmp)(const void*, const void*)) { for (size_t i = 0; i < n; i++) if (!cmp(key, (const char*)b + i * w)) return (void*)((const char*)b + i * w); return nullptr; }
void* aligned_alloc(size_t, size_t n) { return malloc(n); }
int posix_memalign(void** p, size_t, size_t n) { *p = malloc(n); return 0; }
char* getenv(const char*) { return nullptr; }
static unsigned vfRand = 1; int rand() { vfRand = vfRand * 1103515245u + 12345u; return (int)((vfRand >> 16) & 0x7fff); } void srand(unsigned s) { vfRand = s; }
static std::atomic<long> vfTime = 1700000000; time_t time(time_t* t) { long n = ++vfTime; if (t) *t = n; return n; }
int clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = ++vfTime; t->tv_nsec = 0; return 0; }
int fputs(const char*, FILE*) { return 1; } int fputc(int c, FILE*) { return c; } int putc(int c, FILE*) { return c; } void perror(const char*) {} size_t fwrite(const void*, size_t, size_t n, FILE*) { return n; } int vprintf(const char*, va_list) { return 1; } int vfprintf(FILE*, const char*, va_list) { return 1; }
char vf_std[3][256]; FILE* stdin = (FILE*)vf_std[0]; FILE* stdout = (FILE*)vf_std[1]; FILE* stderr = (FILE*)vf_std[2];
double vf_ceil(double x) __asm__("ceil"); double vf_ceil(double x) { return __builtin_ceil(x); }
long lround(double x) { return (long)__builtin_round(x); } long long llround(double x) { return (long long)__builtin_round(x); } long lrint(double x) { return (long)__builtin_rint(x); }
double fmod(double a, double b) { if (b == 0 || a != a || b != b) return 0.0 / (a - a + 0.0); double q = __builtin_trunc(a / b); return a - q * b; }
double ldexp(double x, int e) { while (e > 0) { x *= 2; e--; } while (e < 0) { x /= 2; e++; } return x; }
double frexp(double x, int* e) { *e = 0; if (x == 0 || x != x || x - x != 0) return x; double a = x < 0 ? -x : x; while (a >= 1) { a /= 2; ++*e; } while (a < 0.5) { a *= 2; --*e; } return x < 0 ? -a : a; }
double modf(double x, double* i) { *i = __builtin_trunc(x); return x - *i; }
int pthread_once(pthread_once_t* f, void (*fn)()) { if (!*f) { *f = 1; fn(); } return 0; }
void __cxa_bad_cast() { throw std::bad_cast(); }
void __cxa_bad_typeid() { throw std::bad_typeid(); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
struct VfTi { const void* v; const char* n; };
#define VF_TI(x, y) extern const VfTi vf_ti_##x __asm__("_ZTI" #x); const VfTi vf_ti_##x = {nullptr, #x};
VF_TI(v,) VF_TI(b,) VF_TI(c,) VF_TI(a,) VF_TI(h,) VF_TI(s,) VF_TI(t,) VF_TI(i,) VF_TI(j,) VF_TI(l,) VF_TI(m,) VF_TI(x,) VF_TI(y,) VF_TI(f,) VF_TI(d,) VF_TI(w,) VF_TI(Pc,) VF_TI(PKc,) VF_TI(Dn,) VF_TI(Pv,) VF_TI(PKv,)
int puts(const char*) { return 1; }
int printf(const char*, ...) { return 1; }
int fprintf(FILE*, const char*, ...) { return 1; }
int putchar(int c) { return c; }
int fflush(FILE*) { return 0; }
}

// ---- libstdc++: exceptions
extern "C" void* vf_exc_current(); extern "C" void vf_exc_ref(void*, int); extern "C" [[noreturn]] void vf_exc_rethrow(void*);
namespace std {
namespace __exception_ptr { void exception_ptr::_M_addref() noexcept { vf_exc_ref(_M_exception_object, 1); } void exception_ptr::_M_release() noexcept { vf_exc_ref(_M_exception_object, -1); } exception_ptr::exception_ptr(void* p) noexcept : _M_exception_object(p) {} void* exception_ptr::_M_get() const noexcept { return _M_exception_object; } }
exception_ptr current_exception() noexcept { return exception_ptr(vf_exc_current()); }
void rethrow_exception(exception_ptr p) { vf_exc_rethrow(p._M_get()); }
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
type_info::~type_info() {}
static const char* cowDup(const char* s, size_t n) { char* p = (char*)malloc(n + 1); memcpy(p, s, n); p[n] = 0; return p; }
__cow_string::__cow_string() { _M_p = cowDup("", 0); }
__cow_string::__cow_string(const std::string& s) { _M_p = cowDup(s.data(), s.size()); }
__cow_string::__cow_string(const char* s, size_t n) { _M_p = cowDup(s, n); }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = cowDup(o._M_p, strlen(o._M_p)); }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { if (this != &o) { free((void*)_M_p); _M_p = cowDup(o._M_p, strlen(o._M_p)); } return *this; }
__cow_string::~__cow_string() { free((void*)_M_p); }
__cow_string::__cow_string(__cow_string&& o) noexcept { _M_p = o._M_p; o._M_p = cowDup("", 0); }
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { auto t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define VF_EXC(T, B) T::T(const std::string& s) : B(s) {} T::T(const char* s) : B(s) {} T::~T() noexcept {}
logic_error::logic_error(const std::string& s) : _M_msg(s) {}
logic_error::logic_error(const char* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const std::string& s) : _M_msg(s) {}
runtime_error::runtime_error(const char* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return _M_msg._M_p; }
VF_EXC(domain_error, logic_error) VF_EXC(invalid_argument, logic_error) VF_EXC(length_error, logic_error) VF_EXC(out_of_range, logic_error)
VF_EXC(range_error, runtime_error) VF_EXC(overflow_error, runtime_error) VF_EXC(underflow_error, runtime_error)
void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_domain_error(const char* s) { throw domain_error(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_range_error(const char* s) { throw range_error(s); }
void __throw_overflow_error(const char* s) { throw overflow_error(s); }
void __throw_underflow_error(const char* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system error"); }

// ---- error categories, clocks and locks (one thread)
inline namespace _V2 {
error_category::~error_category() noexcept {}
error_condition error_category::default_error_condition(int c) const noexcept { return error_condition(c, *this); }
bool error_category::equivalent(int c, const error_condition& o) const noexcept { return default_error_condition(c) == o; }
bool error_category::equivalent(const error_code& c, int o) const noexcept { return *this == c.category() && c.value() == o; }
__cow_string error_category::_M_message(int c) const { return __cow_string("error", 5); }
namespace { struct VfCategory : error_category { const char* name() const noexcept override { return "category"; } std::string message(int c) const override { return "error"; } }; VfCategory vfSystem, vfGeneric; }
const error_category& system_category() noexcept { return vfSystem; }
const error_category& generic_category() noexcept { return vfGeneric; }
}
error_condition error_code::default_error_condition() const noexcept { return category().default_error_condition(value()); }
system_error::~system_error() noexcept {}
namespace chrono { inline namespace _V2 { static std::atomic<int64_t> vfNow = 1000; steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vfNow += 1000)); } system_clock::time_point system_clock::now() noexcept { return time_point(duration(vfNow += 1000)); } } }

// ---- lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { auto a = x._M_next; x._M_next = y._M_next; y._M_next = a; a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
}
nested_exception::~nested_exception() noexcept {}
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::notify_one() noexcept { pthread_cond_signal(_M_cond.native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(_M_cond.native_handle()); }
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(_M_cond.native_handle(), l.mutex()->native_handle()); }
thread::_State::~_State() = default;
void thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id(vf_thread_start([](void* p) { unique_ptr<_State> s((_State*)p); s->_M_run(); }, s.release())); }
void thread::join() { if (_M_id == id()) throw system_error(make_error_code(errc::invalid_argument)); vf_thread_join(_M_id._M_thread); _M_id = id(); }
void thread::detach() { _M_id = id(); }
unsigned thread::hardware_concurrency() noexcept { return 8; }
__thread void* __once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }

// ---- ordered containers: an unbalanced search tree has the same observable behaviour as the red-black one
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() {
	if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
	auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() {
	if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; // header
	if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
	auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
	x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; // the header alone is red
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
	else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
	auto minOf = [](_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; };
	auto maxOf = [](_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; };
	auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
	if (!z->_M_left) replace(z, z->_M_right); else if (!z->_M_right) replace(z, z->_M_left);
	else { auto y = minOf(z->_M_right); if (y->_M_parent != z) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } replace(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
	if (!h._M_parent) { h._M_left = h._M_right = &h; } else { h._M_left = minOf(h._M_parent); h._M_right = maxOf(h._M_parent); }
	return z;
}

// ---- unordered containers: any hash function is a correct one; this one never separates, so that lookups compare keys
size_t _Hash_bytes(const void*, size_t, size_t) { return 7; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 13 ? 13 : 2 * n + 1; const_cast<_Prime_rehash_policy*>(this)->_M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const { if (elt + ins > bkt || !_M_next_resize) { size_t b = _M_next_bkt(elt + ins); if (b > bkt) return {true, b}; } return {false, 0}; }
}

// ---- text conversion of floating-point numbers: done natively on concrete values (stated as a limit)
// The extent of the number is found by symbolic execution (the general format of from_chars), only its characters become concrete
static const char* numExtent(const char* f, const char* l) {
	auto digit = [](char c) { return c >= '0' && c <= '9'; };
	const char* p = f; if (p < l && *p == '-') p++;
	if (p < l && ((*p | 32) == 'i' || (*p | 32) == 'n')) { const char* w = (*p | 32) == 'i' ? "infinity" : "nan"; const char* q = p; while (q < l && *w && (*q | 32) == *w) { q++; w++; } if (q - p >= 8) return q; return q - p >= 3 ? p + 3 : f; }
	int d = 0; while (p < l && digit(*p)) { p++; d++; }
	if (p < l && *p == '.') { const char* q = p + 1; int e = 0; while (q < l && digit(*q)) { q++; e++; } if (d || e) p = q; d += e; }
	if (!d) return f;
	if (p < l && (*p | 32) == 'e') { const char* q = p + 1; if (q < l && (*q == '+' || *q == '-')) q++; if (q < l && digit(*q)) { while (q < l && digit(*q)) q++; p = q; } }
	return p;
}
from_chars_result from_chars(const char* f, const char* l, double& v, chars_format) noexcept { l = numExtent(f, l); if (l == f) return {f, errc::invalid_argument}; uint64_t bits = 0; int ec = 0; int u = sym_native_atof(f, (int)(l - f), &bits, &ec, 0); if (!ec) memcpy(&v, &bits, 8); return {f + u, (errc)ec}; }
from_chars_result from_chars(const char* f, const char* l, float& v, chars_format) noexcept { l = numExtent(f, l); if (l == f) return {f, errc::invalid_argument}; uint64_t bits = 0; int ec = 0; int u = sym_native_atof(f, (int)(l - f), &bits, &ec, 1); uint32_t b = (uint32_t)bits; if (!ec) memcpy(&v, &b, 4); return {f + u, (errc)ec}; }
static to_chars_result putNum(char* f, char* l, uint64_t bits, int isf) { char b[64]; int n = sym_native_ftoa(b, bits, isf); if (n > l - f) return {l, errc::value_too_large}; for (int i = 0; i < n; i++) f[i] = b[i]; return {f + n, errc()}; }
static to_chars_result putFmt(char* f, char* l, uint64_t bits, int isf, int fmt, int prec) { char b[1200]; int n = sym_native_ftoa(b, bits, isf | fmt << 1 | (prec + 1) << 8); if (n > l - f) return {l, errc::value_too_large}; for (int i = 0; i < n; i++) f[i] = b[i]; return {f + n, errc()}; }
to_chars_result to_chars(char* f, char* l, double v, chars_format c) noexcept { uint64_t b; memcpy(&b, &v, 8); return putFmt(f, l, b, 0, (int)c, -1); }
to_chars_result to_chars(char* f, char* l, double v, chars_format c, int p) noexcept { uint64_t b; memcpy(&b, &v, 8); return putFmt(f, l, b, 0, (int)c, p < 0 ? 6 : p); }
to_chars_result to_chars(char* f, char* l, float v, chars_format c) noexcept { uint32_t b; memcpy(&b, &v, 4); return putFmt(f, l, b, 1, (int)c, -1); }
to_chars_result to_chars(char* f, char* l, float v, chars_format c, int p) noexcept { uint32_t b; memcpy(&b, &v, 4); return putFmt(f, l, b, 1, (int)c, p < 0 ? 6 : p); }
to_chars_result to_chars(char* f, char* l, double v) noexcept { uint64_t b; memcpy(&b, &v, 8); return putNum(f, l, b, 0); }
to_chars_result to_chars(char* f, char* l, float v) noexcept { uint32_t b; memcpy(&b, &v, 4); return putNum(f, l, b, 1); }
}
