// Native side of the harness interface: replays one assignment of the symbolic inputs against the really compiled code.
// usage: <binary> ENTRY INPUTFILE [name=value ...]; INPUTFILE has one "name value" line per symbolic input, in creation order.
// Prints COVER/CONFIRMED lines; exit 0 when the run ends normally, 1 when an assertion fails; anything else is a crash.
#include "vf.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <new>
#include <dlfcn.h>
#include <unistd.h>
static std::vector<std::pair<std::string, unsigned long long>> in; static size_t pos; static std::map<std::string, long long> params; static uint64_t live;
static unsigned long long next(const char* name) {
	if (pos >= in.size()) { pos++; return 0; }
	if (in[pos].first != name) { printf("DIVERGED wanted %s, have %s\n", name, in[pos].first.c_str()); fflush(stdout); _exit(3); }
	return in[pos++].second;
}
extern "C" {
void sym_bytes(void* p, size_t n, const char* name) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(name); }
uint64_t sym_int(int w, const char* name) { uint64_t v = next(name); return w >= 64 ? v : v & ((1ull << w) - 1); }
uint64_t sym_choice(uint64_t n, const char* name) { uint64_t v = next(name); return v < n ? v : 0; }
void sym_assume(bool c) { if (!c) { printf("DIVERGED assumption not met\n"); fflush(stdout); _exit(3); } }
void sym_check(bool c, const char* tag) { if (!c) sym_fail(tag); }
void sym_fail(const char* tag) { printf("CONFIRMED %s\n", tag); fflush(stdout); _exit(1); }
void sym_cover(const char* tag) { printf("COVER %s\n", tag); fflush(stdout); }
int64_t sym_param(const char* name, int64_t def) { auto it = params.find(name); return it == params.end() ? def : it->second; }
uint64_t sym_live_allocs() { return live; }
void sym_done() { printf("DONE\n"); fflush(stdout); _exit(0); }
uint64_t sym_concretize(uint64_t v) { return v; }
void sym_note(const char* n, uint64_t v) { printf("NOTE %s %llu\n", n, (unsigned long long)v); }
int sym_is_engine() { return 0; }
}
// Threads under the schedule of the inputs: real threads, of which one runs at a time, switching where the symbolic executor does
// (this file is compiled without the thread sanitizer, so that it sees only the order that the locks give).
#include <pthread.h>
#include <thread>
#include <memory>
#include <system_error>
#include <linux/futex.h>
#include <sys/syscall.h>
#include <climits>
extern "C" void __tsan_acquire(void*) __attribute__((weak)); extern "C" void __tsan_release(void*) __attribute__((weak));
namespace { struct NThr { int status = 0; void* lock = nullptr; int mode = 0; bool granted = false; pthread_t id; void* mutex = nullptr; void (*fn)(void*) = nullptr; void* arg = nullptr; }; struct NLock { int owner = 0, count = 0, readers[6] = {}; };
NThr nt[6]; int nthreads; std::map<void*, NLock> nlocks; int turn; thread_local int self; void (*tfn)(int, void*); void* targ; }
static bool nfree(int t, void* a, int mode) { if (mode & 2) return true; NLock& l = nlocks[a]; if (l.owner) return l.owner == t && (mode & 4); if (mode & 1) return true; for (int r : l.readers) if (r) return false; return true; }
static void pass(int t) { __atomic_store_n(&turn, t, __ATOMIC_SEQ_CST); syscall(SYS_futex, &turn, FUTEX_WAKE, INT_MAX, nullptr, nullptr, 0); }
static void await(int t) { int v; while ((v = __atomic_load_n(&turn, __ATOMIC_SEQ_CST)) != t) syscall(SYS_futex, &turn, FUTEX_WAIT, v, nullptr, nullptr, 0); }
static void nschedule() {
	int can[6], n = 0; bool all = true; for (int t = 1; t <= nthreads; t++) { if (nt[t].status == 2) continue; all = false; if (nt[t].status == 0 || (nt[t].status == 1 && nfree(t, nt[t].lock, nt[t].mode)) || (nt[t].status == 4 && nt[nt[t].mode].status == 2)) can[n++] = t; }
	if (all) return pass(0); if (!n) sym_fail("the threads wait for each other forever");
	int t = can[n > 1 ? sym_choice(n, "schedule") : 0]; if (nt[t].status == 1) { nt[t].status = 0; nt[t].granted = true; } else if (nt[t].status == 4) nt[t].status = 0; pass(t);
}
static int nlock(void* a, int mode, pthread_mutex_t* m) {
	int t = self; if (!t) return 0; if (m && nlocks[a].owner == t && m->__data.__kind == 1) mode |= 4;
	nt[t].status = 1; nt[t].lock = a; nt[t].mode = mode; nschedule(); await(t); nt[t].granted = false;
	if (!nfree(t, a, mode & ~2)) return 16;
	NLock& l = nlocks[a]; if (mode & 1) l.readers[t]++; else { l.owner = t; l.count++; }
	if (__tsan_acquire) { __tsan_acquire(a); if (!(mode & 1)) __tsan_acquire((char*)a + 1); } return 0;
}
static int nunlock(void* a) {
	int t = self; if (!t) return 0; NLock& l = nlocks[a];
	if (l.owner == t) { if (__tsan_release) __tsan_release(a); if (!--l.count) l.owner = 0; } else if (l.readers[t]) { if (__tsan_release) __tsan_release((char*)a + 1); l.readers[t]--; } else sym_fail("a lock is unlocked that is not locked");
	return 0;
}
static void* nthread1(void* p) { self = (int)(intptr_t)p; await(self); nt[self].fn(nt[self].arg); nt[self].status = 2; nschedule(); self = 0; return nullptr; }
static void* nthread(void* p) { self = (int)(intptr_t)p; await(self); tfn(self - 1, targ); nt[self].status = 2; nschedule(); self = 0; return nullptr; }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t* m) noexcept { return nlock(m, 0, m); } int pthread_mutex_trylock(pthread_mutex_t* m) noexcept { return nlock(m, 2, m); } int pthread_mutex_unlock(pthread_mutex_t* m) noexcept { return nunlock(m); }
int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) noexcept { return nlock(m, 0, m); } int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) noexcept { return nlock(m, 0, m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) noexcept { return nlock(m, 1, nullptr); } int pthread_rwlock_wrlock(pthread_rwlock_t* m) noexcept { return nlock(m, 0, nullptr); } int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) noexcept { return nlock(m, 3, nullptr); } int pthread_rwlock_trywrlock(pthread_rwlock_t* m) noexcept { return nlock(m, 2, nullptr); } int pthread_rwlock_unlock(pthread_rwlock_t* m) noexcept { return nunlock(m); }
int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
	int t = self; if (!t) sym_fail("the threads wait for each other forever"); if (nlocks[m].owner != t) sym_fail("a lock is unlocked that is not locked"); nlocks[m].count = 1; nunlock(m);
	nt[t].status = 3; nt[t].lock = c; nt[t].mutex = m; nschedule(); await(t); nt[t].granted = false; nlocks[m].owner = t; nlocks[m].count = 1; if (__tsan_acquire) { __tsan_acquire(m); __tsan_acquire((char*)m + 1); } return 0;
}
static int nwake(void* c, bool all) { for (auto& x : nt) if (x.status == 3 && x.lock == c) { x.status = 1; x.lock = x.mutex; x.mode = 0; if (!all) break; } return 0; }
int pthread_cond_signal(pthread_cond_t* c) noexcept { return nwake(c, false); } int pthread_cond_broadcast(pthread_cond_t* c) noexcept { return nwake(c, true); }
static int nyield() { if (int t = self) { nschedule(); await(t); } return 0; }
int sched_yield() noexcept { return nyield(); } int nanosleep(const timespec*, timespec*) { return nyield(); } int usleep(useconds_t) { return nyield(); }
uint64_t vf_thread_start(void (*fn)(void*), void* arg) {
	if (!self) { self = turn = nthreads = 1; } int me = self, t = ++nthreads; if (t > 5) { printf("DIVERGED too many threads\n"); fflush(stdout); _exit(3); } nt[t] = NThr(); nt[t].fn = fn; nt[t].arg = arg; nt[t].status = 2;
	if (pthread_create(&nt[t].id, nullptr, nthread1, (void*)(intptr_t)t)) { printf("DIVERGED no thread\n"); fflush(stdout); _exit(3); } nt[t].status = 0; nschedule(); await(me); return t;
}
void vf_thread_join(uint64_t t) { if (t < 1 || (int)t > nthreads || (int)t == self) sym_fail("waits for the end of a wrong thread"); int me = self; if (nt[t].status != 2) { nt[me].status = 4; nt[me].mode = t; nschedule(); await(me); } pthread_join(nt[t].id, nullptr); }
void sym_threads(int n, void (*fn)(int, void*), void* arg) {
	nthreads = n; tfn = fn; targ = arg; turn = -1; for (auto& t : nt) t = NThr();
	for (int t = 1; t <= n; t++) if (pthread_create(&nt[t].id, nullptr, nthread, (void*)(intptr_t)t)) { printf("DIVERGED no thread\n"); fflush(stdout); _exit(3); }
	nschedule(); await(0); for (int t = 1; t <= n; t++) pthread_join(nt[t].id, nullptr);
	for (auto& l : nlocks) if (l.second.owner) sym_fail("a lock is left locked"); nlocks.clear();
}
}
void std::thread::_M_start_thread(_State_ptr s, void (*)()) { _M_id = id(vf_thread_start([](void* p) { std::unique_ptr<_State> s((_State*)p); s->_M_run(); }, s.release())); }
void std::thread::join() { if (_M_id == id()) throw std::system_error(std::make_error_code(std::errc::invalid_argument)); vf_thread_join(_M_id._M_thread); _M_id = id(); }
void std::thread::detach() { _M_id = id(); }
static void* get(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); memset(p, 0xFE, n); live++; return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
int main(int argc, char** argv) {
	if (argc < 3) return 4;
	for (int i = 3; i < argc; i++) { std::string a = argv[i]; size_t q = a.find('='); params[a.substr(0, q)] = atoll(a.c_str() + q + 1); }
	FILE* f = fopen(argv[2], "r"); if (!f) return 4;
	char nm[256]; unsigned long long v; while (fscanf(f, "%255s %llu", nm, &v) == 2) in.push_back({nm, v}); fclose(f);
	auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { printf("no entry %s\n", argv[1]); return 4; }
	alarm(20);
	live = 0; fn(); if (self == 1) for (int t = 2; t <= nthreads; t++) if (nt[t].status != 2) sym_fail("a thread is left running");
	printf("DONE\n"); fflush(stdout);
	_exit(0);
}
