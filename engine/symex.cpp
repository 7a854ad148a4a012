// Symbolic executor for LLVM bitcode (KLEE-class): executes the compiled code with symbolic bytes, forking at
// branches whose both sides are feasible and deciding feasibility, memory safety and assertions with Z3.
#include <cmath>
#include "expr.hpp"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/Support/CommandLine.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/IPO/AlwaysInliner.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/ModuleInliner.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Scalar/SimplifyCFG.h>
#include <llvm/Demangle/Demangle.h>
#include <map>
#include <set>
#include <deque>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <sys/prctl.h>
using namespace llvm;

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static const uint8_t UNINIT = 0xFE;

// ------------------------------------------------------------------ options and statistics
struct Opts {
	double timeLimit = 600; uint64_t maxSteps = 12000000; int workers = 8; int maxViol = 12; unsigned z3TimeoutMs = 60000; std::set<std::string> known;
	uint64_t memMB = 3500; std::string out, entry = "main"; std::map<std::string, int64_t> params; bool inlineIt = true; bool trace = false; double afterViol = 20;
} opt;
static double tStart;

struct Stats {
	uint64_t paths = 0, pathsDone = 0, infeasible = 0, forks = 0, steps = 0, queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0,
		asserts = 0, assertsQ = 0, memChecks = 0, limits = 0, maxConstraints = 0, maxVars = 0, maxPath = 0; double solverT = 0;
} st;

struct Violation { std::string kind, tag, loc; std::vector<std::pair<std::string, std::string>> inputs; };
static std::map<std::string, Violation> violations; // by kind|tag|loc
static std::map<std::string, uint64_t> covers, tagsChecked;
static std::map<std::string, uint64_t> problems;    // engine limits hit (path inconclusive)
static std::set<std::string> funcsRun;
static double firstViolT = 0;

// ------------------------------------------------------------------ values
struct Val { uint64_t c; E e; };
static inline Val cv(uint64_t c) { return {c, nullptr}; }
static inline Val ve(E e) { return isc(e) ? Val{e->c, nullptr} : Val{0, e}; }
static inline E ex(const Val& v, int w) { return v.e ? v.e : mkc(v.c, w); }

// ------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OK_GLOBAL, OK_CONST, OK_STACK, OK_HEAP, OK_NEW, OK_NEWARR, OK_EXC };
struct Obj {
	int ref = 0; uint64_t base, size; ObjKind kind; std::vector<uint8_t> d; std::vector<E> s; // s empty when everything is concrete
};
struct ObjP {
	Obj* p = nullptr;
	ObjP() = default; ObjP(Obj* o) : p(o) { if (p) p->ref++; }
	ObjP(const ObjP& o) : p(o.p) { if (p) p->ref++; } ObjP(ObjP&& o) noexcept : p(o.p) { o.p = nullptr; }
	ObjP& operator=(ObjP o) { std::swap(p, o.p); return *this; }
	~ObjP() { if (p && !--p->ref) delete p; }
	explicit operator bool() const { return p; }
};

// ------------------------------------------------------------------ decoded code
struct Opd { int v; }; // >= 0: register slot, < 0: constant pool -(v+1)
enum Op : uint16_t { O_BIN = 1, O_CMP, O_FCMP, O_FBIN, O_CAST, O_LOAD, O_STORE, O_GEP, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_INVOKE, O_RESUME, O_UNREACH,
	O_SELECT, O_EXTRACT, O_INSERT, O_LANDING, O_COPY, O_RMW, O_CMPXCHG, O_FNEG, O_UNSUP, O_NOP };
struct Leaf { int off; int w; };
struct Edge { int target; std::vector<std::pair<int, Opd>> copies; int landing = -1; };
struct Func;
struct CallX { Func* direct = nullptr; Opd target; std::vector<Opd> args; std::vector<int> argSlots; std::vector<int> byval; int nArgSlots = 0; int normal = -1, unwind = -1; int retSlots = 0; const CallBase* cb; int intr = 0; int retW = 0; };
struct GepX { uint64_t off; std::vector<std::pair<Opd, uint64_t>> idx; std::vector<int> iw; };
struct SwX { std::vector<std::pair<uint64_t, int>> cases; int def; };
struct LandX { std::vector<uint64_t> types; std::vector<uint8_t> isFilter; bool cleanup; };
struct Ins { Op op; uint8_t w = 0, w2 = 0; uint16_t sub = 0; int dst = -1; Opd a{0}, b{0}, c{0}; uint64_t imm = 0; void* x = nullptr; const Instruction* I = nullptr; };
struct Func {
	Function* f; std::string name; uint64_t addr; bool decoded = false; int builtin = 0; bool noted = false;
	std::vector<Ins> code; std::vector<Val> pool; std::vector<Edge> edges; std::vector<int> argSlots; int nslots = 0, nArgSlots = 0;
	std::vector<std::vector<Leaf>> leaves;
};

static LLVMContext lctx; static std::unique_ptr<Module> mod; static const DataLayout* DL;
static std::unordered_map<const Function*, Func*> funcOf; static std::unordered_map<uint64_t, Func*> funcAt;
static std::unordered_map<const GlobalVariable*, uint64_t> globalAddr;
static std::vector<ObjP> globalObjs; // sorted by base
static uint64_t nextGlobal = 0x10000000ull, nextFuncAddr = 0x100000ull;
static const uint64_t HEAP0 = 0x600000000000ull;

// ------------------------------------------------------------------ state
struct Frame { Func* f; int pc; int base; int retDst; int retSlots; int retPc; int allocaStart; int invokeUnwind; bool dropRet; uint64_t va = 0; };
struct ExcRec { uint64_t obj; uint64_t type; uint64_t dtor; int handlers; };
// threads: each has its own stack; locks, what a lock hands over (vector clocks), and who accessed what since (to find data races)
struct Thr { std::vector<Frame> fr; std::vector<Val> regs; std::vector<uint64_t> allocas; std::vector<ExcRec> caught; uint64_t curExc = 0, curType = 0, curDtor = 0; std::vector<std::pair<uint64_t, std::pair<int, int>>> jmps;
	std::array<uint32_t, 6> vc{}; int status = 0; uint64_t lock = 0; int mode = 0; bool granted = false; std::vector<std::pair<uint64_t, uint64_t>> tls; uint64_t mutex = 0; }; // status: 0 can run, 1 wants a lock, 2 ended, 3 waits to be notified, 4 waits for the end of another thread
struct Lock { uint64_t addr; int owner = 0, count = 0; std::array<int, 6> readers{}; std::array<uint32_t, 6> vcW{}, vcR{}; };
struct Shadow { int wt = 0; uint32_t wc = 0; std::array<uint32_t, 6> rc{}; };
struct SymRec { std::string name; int var; int w; };
struct State {
	std::vector<Frame> fr; std::vector<Val> regs; std::vector<ObjP> mem; std::vector<std::pair<int, ObjP>> gmem; // overlay for written globals
	std::vector<uint64_t> allocas; uint64_t nextAddr = HEAP0; std::vector<E> cons; std::shared_ptr<Model> model; std::vector<SymRec> syms;
	uint64_t steps = 0; std::vector<ExcRec> caught; uint64_t curExc = 0, curType = 0, curDtor = 0; std::vector<std::pair<uint64_t, std::pair<uint64_t, uint64_t>>> liveExc; /* obj -> type,dtor */ std::vector<std::pair<uint64_t, int>> excRefs; // held by exception_ptr
	std::vector<std::string> covers; int depth = 0; int64_t liveHeap = 0; int expectTag = 0;
	std::vector<std::pair<uint64_t, std::pair<int, int>>> jmps; // jmp_buf address -> (frame depth, pc)
	int lastObj = -1;
	std::vector<Thr> thr; int cur = 0; std::vector<Lock> locks; std::unordered_map<uint64_t, Shadow> shadow; // thr is empty while only one thread runs
};
static bool atomicAccess;
static void race(State& s, uint64_t a, uint64_t n, bool write);
typedef std::unique_ptr<State> SP;
static std::deque<SP> work;
struct EndPath {}; // thrown to finish the current path
struct ForkRestart {};

static std::string locOf(const Instruction* I) {
	// innermost source location that lies in the code under test, if any
	if (!I) return "?";
	DebugLoc d = I->getDebugLoc();
	std::string first;
	DILocation* l = d.get();
	while (l) {
		std::string f = l->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1);
		std::string s = f + ":" + std::to_string(l->getLine());
		if (first.empty()) first = s;
		l = l->getInlinedAt();
	}
	return first.empty() ? "?" : first;
}
static const Instruction* insOf(State& s, int depth = 0) {
	if ((int)s.fr.size() <= depth) return nullptr; auto& f = s.fr[s.fr.size() - 1 - depth]; int pc = f.pc; if (pc > 0 && depth == 0) pc--; else if (pc > 0) pc--; return f.f->code.empty() ? nullptr : f.f->code[std::min<int>(pc, f.f->code.size() - 1)].I;
}
static bool inRepo(DILocation* l) { std::string f = l->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); return f.rfind("bomba_", 0) == 0 || f.rfind("tls_", 0) == 0; }
static std::string where(State& s) { // nearest location inside the code under test on the call stack
	for (int d = 0; d < (int)s.fr.size(); d++) {
		const Instruction* I = insOf(s, d); if (!I) continue;
		for (DILocation* l = I->getDebugLoc().get(); l; l = l->getInlinedAt())
			if (inRepo(l)) { std::string f = l->getFilename().str(); size_t p = f.rfind('/'); if (p != std::string::npos) f = f.substr(p + 1); return f + ":" + std::to_string(l->getLine()); }
	}
	return locOf(insOf(s));
}
static std::string stackOf(State& s) {
	std::string r; for (int d = 0; d < (int)s.fr.size() && d < 14; d++) { r += "   " + demangle(s.fr[s.fr.size() - 1 - d].f->name).substr(0, 120) + " @ "; for (DILocation* l = insOf(s, d) ? insOf(s, d)->getDebugLoc().get() : nullptr; l; l = l->getInlinedAt()) r += l->getFilename().str() + ":" + std::to_string(l->getLine()) + " < "; r += "\n"; }
	return r;
}

// ------------------------------------------------------------------ solver
static Z3Trans* zt; static Z3_solver zsolver, zsolverHard;
struct CacheEnt { int res; std::vector<std::pair<int, uint64_t>> vals; };
struct VHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 7; for (auto x : v) h = ExprPool::mix(h, x); return h; } };
static std::unordered_map<std::vector<uint32_t>, CacheEnt, VHash> qcache;
static void initSolver() {
	zt = new Z3Trans();
	zsolver = Z3_mk_simple_solver(zt->ctx); Z3_solver_inc_ref(zt->ctx, zsolver);
	Z3_params p = Z3_mk_params(zt->ctx); Z3_params_inc_ref(zt->ctx, p);
	Z3_params_set_uint(zt->ctx, p, Z3_mk_string_symbol(zt->ctx, "timeout"), opt.z3TimeoutMs);
	Z3_solver_set_params(zt->ctx, zsolver, p);
	Z3_tactic t = Z3_mk_tactic(zt->ctx, "qfbv"); Z3_tactic_inc_ref(zt->ctx, t);
	zsolverHard = Z3_mk_solver_from_tactic(zt->ctx, t); Z3_solver_inc_ref(zt->ctx, zsolverHard);
	Z3_solver_set_params(zt->ctx, zsolverHard, p);
}
// is there a model of (slice of cons relevant to cond) and cond?  1 sat, 0 unsat, -1 unknown; on sat fills newModel
static int solve(State& s, E cond, std::shared_ptr<Model>& newModel) {
	if (isc(cond)) { if (!cond->c) return 0; newModel = s.model; return 1; }
	if (evalE(cond, *s.model)) { st.modelHits++; newModel = s.model; return 1; }
	VarBits need = *cond->vars; std::vector<uint32_t> key; std::vector<E> slice; std::vector<char> in(s.cons.size(), 0);
	bool ch = true;
	while (ch) { ch = false; for (size_t i = 0; i < s.cons.size(); i++) if (!in[i] && s.cons[i]->vars->intersects(need)) { in[i] = 1; slice.push_back(s.cons[i]); if (!s.cons[i]->vars->subsetOf(need)) { need.merge(*s.cons[i]->vars); ch = true; } } }
	slice.push_back(cond);
	for (E e : slice) key.push_back(e->id);
	std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = qcache.find(key);
	if (it == qcache.end()) {
		double t0 = nowS(); st.queries++;
		bool hard = false; for (E e : slice) hard |= e->hard;
		Z3_solver zs = hard ? zsolverHard : zsolver;
		Z3_solver_reset(zt->ctx, zs);
		if (hard) { // the constraints that give the bounds are asserted as they are, the others under these bounds
			CtxRewriter cr; for (E e : slice) cr.learn(e);
			for (E e : slice) { Z3_solver_assert(zt->ctx, zs, zt->B(cr.rewrite(e))); if (!e->hard) Z3_solver_assert(zt->ctx, zs, zt->B(e)); }
		} else
		for (E e : slice) Z3_solver_assert(zt->ctx, zs, zt->B(e));
		Z3_lbool r = Z3_solver_check(zt->ctx, zs);
		CacheEnt ce;
		if (r == Z3_L_TRUE) {
			ce.res = 1; st.sat++;
			Z3_model m = Z3_solver_get_model(zt->ctx, zs); Z3_model_inc_ref(zt->ctx, m);
			for (auto& sr : s.syms) if (need.w[sr.var / 64] >> (sr.var % 64) & 1) {
				Z3_ast v = nullptr; uint64_t u = 0;
				if (Z3_model_eval(zt->ctx, m, zt->V(mkvar(sr.var, sr.w)), true, &v)) Z3_get_numeral_uint64(zt->ctx, v, (uint64_t*)&u);
				ce.vals.push_back({sr.var, u});
			}
			Z3_model_dec_ref(zt->ctx, m);
		} else if (r == Z3_L_FALSE) { ce.res = 0; st.unsat++; } else { ce.res = -1; st.unknown++; }
		st.solverT += nowS() - t0;
		if (getenv("SYMEX_SLOW") && nowS() - t0 > atof(getenv("SYMEX_SLOW"))) { static int n; char fn[64]; snprintf(fn, 64, "/tmp/slow.%d.%d.smt2", getpid(), n++); FILE* f = fopen(fn, "w"); fprintf(f, "; %.2f s, result %d\n%s(check-sat)\n", nowS() - t0, ce.res, Z3_solver_to_string(zt->ctx, zsolver)); fclose(f); }
		it = qcache.emplace(key, std::move(ce)).first;
	} else st.cacheHits++;
	if (it->second.res == 1) {
		auto m = std::make_shared<Model>(*s.model);
		for (auto& kv : it->second.vals) { if (m->size() <= (size_t)kv.first) m->resize(kv.first + 1, 0); (*m)[kv.first] = kv.second; }
		newModel = m;
		if (!evalE(cond, *m)) { problems["engine: model does not satisfy query"]++; return -1; }
	}
	return it->second.res;
}
static void addCons(State& s, E c) {
	if (isc(c)) return;
	if (c->k == AND && c->w == 1) { addCons(s, c->a); addCons(s, c->b); return; }
	for (E e : s.cons) if (e == c) return;
	s.cons.push_back(c);
	st.maxConstraints = std::max<uint64_t>(st.maxConstraints, s.cons.size());
}

static int knownViol = 0;
static void emit(State& s, const std::string& kind, const std::string& tag, const Model& m, const std::string& loc) {
	std::string k = kind + "|" + tag + "|" + loc;
	if (violations.count(k)) return;
	Violation v{kind, tag, loc, {}};
	for (auto& sr : s.syms) { char b[32]; uint64_t x = ((size_t)sr.var < m.size() ? m[sr.var] : 0) & maskw(sr.w); snprintf(b, 32, "%llu", (unsigned long long)x); v.inputs.push_back({sr.name, b}); }
	violations[k] = v;
	if (opt.trace) fprintf(stderr, "VIOL %s\n%s", k.c_str(), stackOf(s).c_str());
	if (opt.known.count(tag)) knownViol++; else if (!firstViolT) firstViolT = nowS();
}
[[noreturn]] static void fail(State& s, const std::string& kind, const std::string& tag) { emit(s, kind, tag, *s.model, where(s)); throw EndPath(); }
[[noreturn]] static void problem(State& s, const std::string& what) { problems[what + " @ " + where(s)]++; if (opt.trace) fprintf(stderr, "PROBLEM %s\n%s", what.c_str(), stackOf(s).c_str()); throw EndPath(); }

static SP clone(State& s) { return std::make_unique<State>(s); }

// Decide cond: true / false; forks a sibling when both are feasible. The sibling resumes at pc `otherPc` semantics decided by caller.
// Returns the chosen value for this state; `sib` receives the other state (constraint already added) or null.
static bool branch(State& s, E cond, SP& sib) {
	if (isc(cond)) return cond->c;
	bool cur = evalE(cond, *s.model);
	E pos = cur ? cond : mknot(cond), neg = cur ? mknot(cond) : cond;
	std::shared_ptr<Model> nm; int r = solve(s, neg, nm);
	if (r == -1) problem(s, "solver gave no answer (branch)");
	if (r == 1) { sib = clone(s); sib->model = nm; addCons(*sib, neg); st.forks++; addCons(s, pos); s.depth++; sib->depth = s.depth; }
	return cur;
}
// fork so that the sibling re-executes the current instruction (pc already advanced by one)
static bool branchRedo(State& s, E cond) {
	SP sib; bool v = branch(s, cond, sib);
	if (sib) { sib->fr.back().pc--; sib->steps--; work.push_back(std::move(sib)); }
	return v;
}
// fix an expression to one concrete value; siblings re-execute this instruction
static uint64_t concretize(State& s, E e) {
	if (isc(e)) return e->c;
	if (opt.trace) fprintf(stderr, "CONCRETISE\n%s", stackOf(s).c_str());
	uint64_t v = evalE(e, *s.model);
	branchRedo(s, mkeq(e, mkc(v, e->w))); // model satisfies equality, so the current state takes it
	return v;
}
static uint64_t cval(State& s, Val& v, int w) { if (!v.e) return v.c; uint64_t r = concretize(s, v.e); v = cv(r); return r; }

// ------------------------------------------------------------------ memory access
static Obj* findObj(State& s, uint64_t addr, int& where) { // where >= 0 heap index; < -1 : global index encoded
	if (addr >= HEAP0) {
		int lo = 0, hi = (int)s.mem.size() - 1, f = -1;
		if (s.lastObj >= 0 && s.lastObj < (int)s.mem.size() && s.mem[s.lastObj]) { Obj* o = s.mem[s.lastObj].p; if (addr >= o->base && addr - o->base < o->size) { where = s.lastObj; return o; } }
		while (lo <= hi) { int mid = (lo + hi) / 2; if (s.mem[mid].p->base <= addr) { f = mid; lo = mid + 1; } else hi = mid - 1; }
		if (f < 0) return nullptr; Obj* o = s.mem[f].p; if (addr - o->base > o->size) return nullptr; where = f; s.lastObj = f; return o;
	}
	int lo = 0, hi = (int)globalObjs.size() - 1, f = -1;
	while (lo <= hi) { int mid = (lo + hi) / 2; if (globalObjs[mid].p->base <= addr) { f = mid; lo = mid + 1; } else hi = mid - 1; }
	if (f < 0) return nullptr;
	Obj* o = globalObjs[f].p; if (addr - o->base > o->size) return nullptr;
	where = -2 - f;
	auto it = std::lower_bound(s.gmem.begin(), s.gmem.end(), f, [](auto& a, int b) { return a.first < b; });
	if (it != s.gmem.end() && it->first == f) return it->second.p;
	return o;
}
static Obj* writable(State& s, int wh) {
	if (wh >= 0) { Obj* o = s.mem[wh].p; if (o->ref > 1) { Obj* n = new Obj(*o); n->ref = 0; s.mem[wh] = ObjP(n); return n; } return o; }
	int f = -2 - wh;
	auto it = std::lower_bound(s.gmem.begin(), s.gmem.end(), f, [](auto& a, int b) { return a.first < b; });
	if (it == s.gmem.end() || it->first != f) { Obj* n = new Obj(*globalObjs[f].p); n->ref = 0; it = s.gmem.insert(it, {f, ObjP(n)}); return n; }
	if (it->second.p->ref > 1) { Obj* n = new Obj(*it->second.p); n->ref = 0; it->second = ObjP(n); }
	return it->second.p;
}
static uint64_t allocObj(State& s, uint64_t size, ObjKind k) {
	Obj* o = new Obj; o->base = s.nextAddr; o->size = size; o->kind = k; o->d.assign(size, UNINIT);
	s.nextAddr += ((size + 31) & ~15ull) + 32; s.mem.push_back(ObjP(o));
	return o->base;
}
static void removeObj(State& s, int idx) { s.mem.erase(s.mem.begin() + idx); s.lastObj = -1; }

// Resolve an access of n bytes; returns object index and a (possibly symbolic) offset. Forks / reports as needed.
static Obj* access(State& s, Val& addr, uint64_t n, int& wh, E& symOff, uint64_t& off, bool write) {
	symOff = nullptr;
	uint64_t a = addr.e ? evalE(addr.e, *s.model) : addr.c;
	Obj* o = findObj(s, a, wh);
	auto bad = [&](Obj* o) {
		std::string k = a < 4096 ? "null-dereference" : !o ? "invalid-access" : write ? "out-of-bounds-write" : "out-of-bounds-read";
		if (o && o->kind == OK_STACK) k += "(stack)"; else if (o && (o->kind == OK_GLOBAL || o->kind == OK_CONST)) k += "(global)";
		fail(s, "memory", k);
	};
	if (!addr.e) {
		if (!o || a - o->base + n > o->size) bad(o);
		if (write && o->kind == OK_CONST) fail(s, "memory", "write-to-constant");
		if (s.cur && !atomicAccess && o->kind != OK_CONST) race(s, a, n, write);
		off = a - o->base; return o;
	}
	st.memChecks++;
	if (!o || a - o->base + n > o->size) { // out of bounds is feasible (the model shows it); other models may be fine
		emit(s, "memory", std::string(write ? "out-of-bounds-write" : "out-of-bounds-read"), *s.model, where(s));
		if (!o) throw EndPath();
		E inb = mkbin(ULE, mkbin(SUB, addr.e, mkc(o->base, 64)), mkc(o->size >= n ? o->size - n : 0, 64));
		if (o->size < n) throw EndPath();
		SP sib; branch(s, inb, sib); // model takes the bad side
		if (sib) { sib->fr.back().pc--; sib->steps--; work.push_back(std::move(sib)); }
		throw EndPath();
	}
	E rel = mkbin(SUB, addr.e, mkc(o->base, 64));
	E inb = mkbin(ULE, rel, mkc(o->size - n, 64));
	if (!isc(inb)) branchRedo(s, inb); // siblings (outside this object) re-execute and report
	if (write && o->kind == OK_CONST) fail(s, "memory", "write-to-constant");
	symOff = rel; off = 0;
	return o;
}
static void race(State& s, uint64_t a, uint64_t n, bool write) {
	auto& vc = s.thr[s.cur].vc; int me = s.cur;
	for (uint64_t i = a; i < a + n; i++) {
		Shadow& h = s.shadow[i];
		if (h.wt && h.wt != me && h.wc > vc[h.wt]) fail(s, "race", "data race");
		if (!write) { h.rc[me] = vc[me]; continue; }
		for (int t = 1; t < 6; t++) if (t != me && h.rc[t] > vc[t]) fail(s, "race", "data race");
		h.wt = me; h.wc = vc[me];
	}
}
static inline E byteE(Obj* o, uint64_t i) { if (!o->s.empty() && o->s[i]) return o->s[i]; return mkc(o->d[i], 8); }
static Val loadAt(Obj* o, uint64_t off, int nb) {
	bool sym = false;
	if (!o->s.empty()) for (int i = 0; i < nb; i++) if (o->s[off + i]) { sym = true; break; }
	if (!sym) { uint64_t v = 0; memcpy(&v, &o->d[off], nb); return cv(v); }
	E r = byteE(o, off + nb - 1);
	for (int i = nb - 2; i >= 0; i--) r = mkconcat(r, byteE(o, off + i));
	return ve(r);
}
static E readTree(Obj* o, E off, uint64_t lo, uint64_t hi, int nb) { // balanced selection over offsets [lo, hi]
	if (lo == hi) { Val v = loadAt(o, lo, nb); return ex(v, nb * 8); }
	uint64_t mid = lo + (hi - lo) / 2;
	E a = readTree(o, off, lo, mid, nb), b = readTree(o, off, mid + 1, hi, nb);
	return mkite(mkbin(ULE, off, mkc(mid, 64)), a, b);
}
static void setByte(Obj* o, uint64_t i, E e) {
	if (isc(e)) { o->d[i] = e->c; if (!o->s.empty()) o->s[i] = nullptr; return; }
	if (o->s.empty()) o->s.assign(o->size, nullptr);
	o->s[i] = e;
}
static bool symRange(State& s, E off, uint64_t max, uint64_t& lo, uint64_t& hi) {
	urange(off, lo, hi); if (hi > max) hi = max; if (lo > max) lo = 0;
	return hi - lo <= 4096;
}
static Val loadMem(State& s, Val addr, int w) {
	int nb = (w + 7) / 8; int wh; E so; uint64_t off;
	Obj* o = access(s, addr, nb, wh, so, off, false);
	Val v;
	if (!so) v = loadAt(o, off, nb);
	else {
		uint64_t lo, hi; symRange(s, so, o->size - nb, lo, hi);
		if (hi - lo > 600) { // narrow by concretisation when the object is large
			uint64_t c = concretize(s, so); v = loadAt(o, c, nb);
		} else v = ve(readTree(o, so, lo, hi, nb));
	}
	if (w % 8) { if (v.e) v = ve(mkextract(v.e, 0, w)); else v.c &= maskw(w); }
	return v;
}
static void storeAt(Obj* o, uint64_t off, const Val& v, int nb) {
	if (!v.e) { memcpy(&o->d[off], &v.c, nb); if (!o->s.empty()) for (int i = 0; i < nb; i++) o->s[off + i] = nullptr; return; }
	for (int i = 0; i < nb; i++) setByte(o, off + i, mkextract(v.e, i * 8, 8));
}
static void storeMem(State& s, Val addr, Val v, int w) {
	int nb = (w + 7) / 8; int wh; E so; uint64_t off;
	if (w % 8) { if (v.e) v = ve(mkzext(v.e, nb * 8)); else v.c &= maskw(w); }
	Obj* o = access(s, addr, nb, wh, so, off, true);
	if (so) {
		uint64_t lo, hi; symRange(s, so, o->size - nb, lo, hi);
		if (nb == 1 && hi - lo <= 64) {
			o = writable(s, wh);
			for (uint64_t i = lo; i <= hi; i++) setByte(o, i, mkite(mkeq(so, mkc(i, 64)), ex(v, 8), byteE(o, i)));
			return;
		}
		off = concretize(s, so);
	}
	o = writable(s, wh);
	storeAt(o, off, v, nb);
}

// ------------------------------------------------------------------ decoding
static int scalarW(Type* t) {
	if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isHalfTy()) return 16;
	return 0;
}
static bool flat(Type* t, std::vector<Leaf>& out, int off = 0) {
	if (t->isVoidTy()) return true;
	if (int w = scalarW(t)) { if (w > 64) return false; out.push_back({off, w}); return true; }
	if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) if (!flat(st->getElementType(i), out, off + sl->getElementOffset(i))) return false; return true; }
	if (auto at = dyn_cast<ArrayType>(t)) { int es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) if (!flat(at->getElementType(), out, off + i * es)) return false; return true; }
	return false;
}
static int flatCount(Type* t) { std::vector<Leaf> l; if (!flat(t, l)) return -1; return l.size(); }
static int flatIndex(Type* t, ArrayRef<unsigned> idx) {
	int r = 0;
	for (unsigned i : idx) {
		if (auto st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; j++) r += flatCount(st->getElementType(j)); t = st->getElementType(i); }
		else { auto at = cast<ArrayType>(t); r += i * flatCount(at->getElementType()); t = at->getElementType(); }
	}
	return r;
}
static Func* getFunc(Function* f);
static bool constVal(const Constant* c, std::vector<Val>& out);
static uint64_t constPtr(const Constant* c) {
	std::vector<Val> v; if (!constVal(c, v) || v.size() != 1) { fprintf(stderr, "ENGINE: constant pointer\n"); c->print(errs()); _exit(96); } return v[0].c;
}
static bool constVal(const Constant* c, std::vector<Val>& out) {
	if (auto ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out.push_back(cv(ci->getZExtValue())); return true; }
	if (auto cf = dyn_cast<ConstantFP>(c)) { auto bits = cf->getValueAPF().bitcastToAPInt(); if (bits.getBitWidth() > 64) return false; out.push_back(cv(bits.getZExtValue())); return true; }
	if (isa<ConstantPointerNull>(c)) { out.push_back(cv(0)); return true; }
	if (isa<UndefValue>(c)) { std::vector<Leaf> l; if (!flat(c->getType(), l)) return false; for (auto& x : l) out.push_back(cv(0xFEFEFEFEFEFEFEFEull & maskw(x.w))); return true; }
	if (isa<ConstantAggregateZero>(c)) { std::vector<Leaf> l; if (!flat(c->getType(), l)) return false; for (size_t i = 0; i < l.size(); i++) out.push_back(cv(0)); return true; }
	if (auto ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); i++) if (!constVal(ca->getOperand(i), out)) return false; return true; }
	if (auto cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); i++) if (!constVal(cd->getElementAsConstant(i), out)) return false; return true; }
	if (auto f = dyn_cast<Function>(c)) { out.push_back(cv(getFunc(const_cast<Function*>(f))->addr)); return true; }
	if (auto ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee(), out);
	if (auto g = dyn_cast<GlobalVariable>(c)) { out.push_back(cv(globalAddr.at(g))); return true; }
	if (auto ce = dyn_cast<ConstantExpr>(c)) {
		if (auto gep = dyn_cast<GEPOperator>(ce)) { APInt off(64, 0); if (!gep->accumulateConstantOffset(*DL, off)) return false; out.push_back(cv(constPtr(cast<Constant>(gep->getPointerOperand())) + off.getSExtValue())); return true; }
		std::vector<Val> a, b; if (!constVal(ce->getOperand(0), a) || a.size() != 1) return false;
		if (ce->getNumOperands() > 1 && (!constVal(ce->getOperand(1), b) || b.size() != 1)) return false;
		int w = scalarW(ce->getType());
		switch (ce->getOpcode()) {
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: out.push_back(cv(a[0].c & maskw(w))); return true;
		case Instruction::Add: out.push_back(cv((a[0].c + b[0].c) & maskw(w))); return true;
		case Instruction::Sub: out.push_back(cv((a[0].c - b[0].c) & maskw(w))); return true;
		case Instruction::ICmp: { auto p = (CmpInst::Predicate)ce->getPredicate(); if (p == CmpInst::ICMP_EQ) { out.push_back(cv(a[0].c == b[0].c)); return true; } if (p == CmpInst::ICMP_NE) { out.push_back(cv(a[0].c != b[0].c)); return true; } return false; }
		default: return false;
		}
	}
	return false;
}
static void initBytes(const Constant* c, std::vector<uint8_t>& d, uint64_t off) {
	if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c) || isa<ConstantPointerNull>(c)) return; // zero
	Type* t = c->getType();
	if (auto cd = dyn_cast<ConstantDataSequential>(c)) { StringRef r = cd->getRawDataValues(); memcpy(&d[off], r.data(), r.size()); return; }
	if (isa<ConstantAggregate>(c)) {
		if (auto st = dyn_cast<StructType>(t)) { auto sl = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) initBytes(cast<Constant>(c->getOperand(i)), d, off + sl->getElementOffset(i)); return; }
		if (auto at = dyn_cast<ArrayType>(t)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) initBytes(cast<Constant>(c->getOperand(i)), d, off + i * es); return; }
	}
	if (auto ci = dyn_cast<ConstantInt>(c)) if (ci->getBitWidth() > 64) { unsigned n = DL->getTypeStoreSize(t); for (unsigned i = 0; i < n; i++) d[off + i] = ci->getValue().extractBitsAsZExtValue(std::min(8u, ci->getBitWidth() - i * 8), i * 8); return; }
	std::vector<Val> v; if (!constVal(c, v) || v.size() != 1) { fprintf(stderr, "ENGINE: unsupported initialiser "); c->print(errs()); fprintf(stderr, "\n"); _exit(96); }
	memcpy(&d[off], &v[0].c, DL->getTypeStoreSize(t));
}

enum Builtin { B_NONE, B_UNKNOWN, B_MALLOC, B_CALLOC, B_REALLOC, B_FREE, B_NEW, B_NEWARR, B_DELETE, B_DELARR, B_MEMCMP, B_ABORT, B_TERMINATE, B_PUREVIRT,
	B_EXC_CURRENT, B_EXC_REF, B_EXC_RETHROW, B_CXA_ALLOC, B_CXA_FREE, B_CXA_THROW, B_CXA_RETHROW, B_CXA_BEGIN, B_CXA_END, B_CXA_GETPTR, B_GUARD_ACQ, B_GUARD_REL, B_NOP, B_RET0, B_SETJMP, B_LONGJMP, B_UNCAUGHT, B_EXIT,
	B_SYM_BYTES, B_SYM_INT, B_SYM_ASSUME, B_SYM_CHECK, B_SYM_COVER, B_SYM_CHOICE, B_SYM_FAIL, B_SYM_PARAM, B_SYM_LIVE, B_SYM_DONE, B_SYM_ISSYM, B_SYM_CONC, B_SYM_NOTE, B_THREAD_ID, B_IS_ENGINE, B_FTOCHARS, B_FFROMCHARS, B_DYNCAST, B_TLS, B_MATH1, B_MATH2, B_THREADS, B_LOCK_M, B_TRYLOCK_M, B_LOCK_W, B_TRYLOCK_W, B_LOCK_R, B_TRYLOCK_R, B_UNLOCK, B_THR_START, B_THR_JOIN, B_COND_WAIT, B_COND_SIGNAL, B_COND_ALL, B_YIELD };
static const std::map<std::string, int> builtinNames = {
	{"malloc", B_MALLOC}, {"calloc", B_CALLOC}, {"realloc", B_REALLOC}, {"free", B_FREE}, {"_Znwm", B_NEW}, {"_Znam", B_NEWARR}, {"_ZnwmSt11align_val_t", B_NEW}, {"_ZnamSt11align_val_t", B_NEWARR},
	{"_ZnwmRKSt9nothrow_t", B_NEW}, {"_ZnamRKSt9nothrow_t", B_NEWARR},
	{"_ZdlPv", B_DELETE}, {"_ZdlPvm", B_DELETE}, {"_ZdaPv", B_DELARR}, {"_ZdaPvm", B_DELARR}, {"_ZdlPvSt11align_val_t", B_DELETE}, {"_ZdlPvmSt11align_val_t", B_DELETE}, {"_ZdaPvSt11align_val_t", B_DELARR},
	{"_ZdlPvRKSt9nothrow_t", B_DELETE},
	{"memcmp", B_MEMCMP}, {"bcmp", B_MEMCMP}, {"abort", B_ABORT}, {"_ZSt9terminatev", B_TERMINATE}, {"__cxa_pure_virtual", B_PUREVIRT}, {"exit", B_EXIT}, {"_exit", B_EXIT}, {"__assert_fail", B_ABORT}, {"_ZSt21__glibcxx_assert_failPKciS0_S0_", B_ABORT},
	{"__cxa_allocate_exception", B_CXA_ALLOC}, {"__cxa_free_exception", B_CXA_FREE}, {"__cxa_throw", B_CXA_THROW}, {"__cxa_rethrow", B_CXA_RETHROW}, {"__cxa_begin_catch", B_CXA_BEGIN}, {"__cxa_end_catch", B_CXA_END}, {"__cxa_get_exception_ptr", B_CXA_GETPTR},
	{"__cxa_guard_acquire", B_GUARD_ACQ}, {"__cxa_guard_release", B_GUARD_REL}, {"__cxa_guard_abort", B_NOP}, {"__cxa_atexit", B_RET0}, {"__cxa_thread_atexit", B_RET0}, {"atexit", B_RET0},
	{"vf_exc_current", B_EXC_CURRENT}, {"vf_exc_ref", B_EXC_REF}, {"vf_exc_rethrow", B_EXC_RETHROW}, {"_setjmp", B_SETJMP}, {"setjmp", B_SETJMP}, {"__sigsetjmp", B_SETJMP}, {"longjmp", B_LONGJMP}, {"_longjmp", B_LONGJMP}, {"_ZSt19uncaught_exceptionsv", B_UNCAUGHT}, {"_ZSt18uncaught_exceptionv", B_UNCAUGHT},
	{"sym_bytes", B_SYM_BYTES}, {"sym_int", B_SYM_INT}, {"sym_assume", B_SYM_ASSUME}, {"sym_check", B_SYM_CHECK}, {"sym_cover", B_SYM_COVER}, {"sym_choice", B_SYM_CHOICE}, {"sym_fail", B_SYM_FAIL}, {"sym_param", B_SYM_PARAM}, {"sym_live_allocs", B_SYM_LIVE}, {"sym_done", B_SYM_DONE}, {"sym_is_symbolic", B_SYM_ISSYM}, {"sym_concretize", B_SYM_CONC}, {"sym_note", B_SYM_NOTE},
	{"sym_is_engine", B_IS_ENGINE}, {"__dynamic_cast", B_DYNCAST},
	{"pow", B_MATH2}, {"hypot", B_MATH2}, {"atan2", B_MATH2}, {"exp", B_MATH1}, {"log", B_MATH1}, {"log10", B_MATH1}, {"log2", B_MATH1}, {"sqrt", B_MATH1}, {"cbrt", B_MATH1}, {"exp2", B_MATH1},
	{"sym_native_ftoa", B_FTOCHARS}, {"sym_native_atof", B_FFROMCHARS},
	{"sym_threads", B_THREADS}, {"pthread_mutex_lock", B_LOCK_M}, {"pthread_mutex_clocklock", B_LOCK_M}, {"pthread_mutex_timedlock", B_LOCK_M}, {"pthread_mutex_unlock", B_UNLOCK}, {"pthread_rwlock_rdlock", B_LOCK_R}, {"pthread_rwlock_wrlock", B_LOCK_W}, {"pthread_rwlock_unlock", B_UNLOCK}, {"pthread_rwlock_trywrlock", B_TRYLOCK_W}, {"pthread_rwlock_tryrdlock", B_TRYLOCK_R}, {"pthread_mutex_trylock", B_TRYLOCK_M},
	{"__pthread_key_create", B_RET0}, {"pthread_rwlock_init", B_RET0}, {"pthread_rwlock_destroy", B_RET0}, {"pthread_mutex_init", B_RET0}, {"pthread_cond_init", B_RET0}, {"pthread_cond_destroy", B_RET0}, {"pthread_cond_signal", B_COND_SIGNAL}, {"pthread_cond_broadcast", B_COND_ALL}, {"pthread_cond_wait", B_COND_WAIT}, {"vf_thread_start", B_THR_START}, {"vf_thread_join", B_THR_JOIN}, {"sched_yield", B_YIELD}, {"nanosleep", B_YIELD}, {"usleep", B_YIELD}, {"pthread_mutex_destroy", B_RET0},
	{"_ZNSt8ios_base4InitC1Ev", B_NOP}, {"_ZNSt8ios_base4InitD1Ev", B_NOP}, {"_ZSt21ios_base_library_initv", B_NOP},
};
static Func* getFunc(Function* f) {
	auto it = funcOf.find(f); if (it != funcOf.end()) return it->second;
	Func* r = new Func; r->f = f; r->name = f->getName().str(); r->addr = nextFuncAddr; nextFuncAddr += 16;
	auto b = builtinNames.find(r->name);
	if (b != builtinNames.end()) r->builtin = b->second; else if (f->isDeclaration()) r->builtin = B_UNKNOWN;
	funcOf[f] = r; funcAt[r->addr] = r; return r;
}

static void decode(Func* F) {
	F->decoded = true;
	Function* f = F->f;
	std::unordered_map<const Value*, int> slot; int n = 0;
	auto reserve = [&](const Value* v) { int c = flatCount(v->getType()); if (c < 0) c = 1; slot[v] = n; n += c; };
	for (auto& a : f->args()) { F->argSlots.push_back(n); reserve(&a); }
	F->nArgSlots = n;
	std::unordered_map<const BasicBlock*, int> bbIdx;
	for (auto& bb : *f) for (auto& I : bb) if (!I.getType()->isVoidTy()) reserve(&I);
	F->nslots = n;
	std::unordered_map<const Constant*, int> cidx;
	auto opd = [&](const Value* v) -> Opd {
		auto it = slot.find(v); if (it != slot.end()) return {it->second};
		if (auto c = dyn_cast<Constant>(v)) {
			auto ci = cidx.find(c); if (ci != cidx.end()) return {ci->second};
			std::vector<Val> vals; if (!constVal(c, vals)) { vals.assign(std::max(1, flatCount(c->getType())), cv(0)); }
			int p = -(int)F->pool.size() - 1; for (auto& x : vals) F->pool.push_back(x); if (vals.empty()) F->pool.push_back(cv(0)); cidx[c] = p; return {p};
		}
		return {-1000000000};
	};
	struct Fix { int edge; const BasicBlock* bb; }; std::vector<Fix> fixes;
	auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
		int id = F->edges.size(); F->edges.emplace_back(); Edge& e = F->edges.back();
		for (auto& phi : to->phis()) { int c = flatCount(phi.getType()); Opd o = opd(phi.getIncomingValueForBlock(from)); for (int i = 0; i < c; i++) e.copies.push_back({slot[&phi] + i, o.v >= 0 ? Opd{o.v + i} : Opd{o.v - i}}); }
		fixes.push_back({id, to}); return id;
	};
	auto leavesId = [&](Type* t) { std::vector<Leaf> l; if (!flat(t, l)) return -1; F->leaves.push_back(l); return (int)F->leaves.size() - 1; };
	for (auto& bb : *f) {
		bbIdx[&bb] = F->code.size();
		for (auto& I : bb) {
			if (isa<PHINode>(I)) continue;
			if (isa<DbgInfoIntrinsic>(I)) continue;
			Ins x; x.I = &I; x.op = O_UNSUP; if (slot.count(&I)) x.dst = slot[&I];
			if (int w = scalarW(I.getType())) x.w = w;
			bool vec = I.getType()->isVectorTy() || scalarW(I.getType()) > 64; for (auto& o : I.operands()) if (o->getType()->isVectorTy() || scalarW(o->getType()) > 64) vec = true;
			if (vec) { F->code.push_back(x); continue; }
			if (auto bo = dyn_cast<BinaryOperator>(&I)) {
				x.a = opd(bo->getOperand(0)); x.b = opd(bo->getOperand(1)); x.op = O_BIN;
				switch (bo->getOpcode()) {
				case Instruction::Add: x.sub = ADD; break; case Instruction::Sub: x.sub = SUB; break; case Instruction::Mul: x.sub = MUL; break;
				case Instruction::UDiv: x.sub = UDIV; break; case Instruction::SDiv: x.sub = SDIV; break; case Instruction::URem: x.sub = UREM; break; case Instruction::SRem: x.sub = SREM; break;
				case Instruction::And: x.sub = AND; break; case Instruction::Or: x.sub = OR; break; case Instruction::Xor: x.sub = XOR; break;
				case Instruction::Shl: x.sub = SHL; break; case Instruction::LShr: x.sub = LSHR; break; case Instruction::AShr: x.sub = ASHR; break;
				case Instruction::FAdd: x.sub = FADD; x.op = O_FBIN; break; case Instruction::FSub: x.sub = FSUB; x.op = O_FBIN; break; case Instruction::FMul: x.sub = FMUL; x.op = O_FBIN; break; case Instruction::FDiv: x.sub = FDIV; x.op = O_FBIN; break;
				default: x.op = O_UNSUP;
				}
			} else if (auto ic = dyn_cast<ICmpInst>(&I)) { x.op = O_CMP; x.a = opd(ic->getOperand(0)); x.b = opd(ic->getOperand(1)); x.w = scalarW(ic->getOperand(0)->getType()); x.sub = ic->getPredicate(); }
			else if (auto fc = dyn_cast<FCmpInst>(&I)) { x.op = O_FCMP; x.a = opd(fc->getOperand(0)); x.b = opd(fc->getOperand(1)); x.w = scalarW(fc->getOperand(0)->getType()); x.sub = fc->getPredicate(); }
			else if (auto ci = dyn_cast<CastInst>(&I)) { x.op = O_CAST; x.a = opd(ci->getOperand(0)); x.w2 = scalarW(ci->getSrcTy()); x.sub = ci->getOpcode(); if (!x.w || !x.w2) x.op = O_UNSUP; }
			else if (auto li = dyn_cast<LoadInst>(&I)) { x.op = O_LOAD; x.sub = li->isAtomic(); x.a = opd(li->getPointerOperand()); if (!x.w) { x.imm = leavesId(li->getType()); if ((int)x.imm < 0) x.op = O_UNSUP; } }
			else if (auto si = dyn_cast<StoreInst>(&I)) { x.op = O_STORE; x.sub = si->isAtomic(); x.a = opd(si->getPointerOperand()); x.b = opd(si->getValueOperand()); x.w = scalarW(si->getValueOperand()->getType()); if (!x.w) { x.imm = leavesId(si->getValueOperand()->getType()); if ((int)x.imm < 0) x.op = O_UNSUP; } }
			else if (auto gi = dyn_cast<GetElementPtrInst>(&I)) {
				x.op = O_GEP; x.a = opd(gi->getPointerOperand()); auto g = new GepX; g->off = 0;
				for (auto it = gep_type_begin(gi), e = gep_type_end(gi); it != e; ++it) {
					Value* idx = it.getOperand();
					if (StructType* st = it.getStructTypeOrNull()) { g->off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
					uint64_t sz = DL->getTypeAllocSize(it.getIndexedType());
					if (auto c = dyn_cast<ConstantInt>(idx)) g->off += sz * c->getSExtValue();
					else { g->idx.push_back({opd(idx), sz}); g->iw.push_back(scalarW(idx->getType())); }
				}
				x.x = g;
			} else if (auto ai = dyn_cast<AllocaInst>(&I)) { x.op = O_ALLOCA; x.imm = DL->getTypeAllocSize(ai->getAllocatedType()); x.a = opd(ai->getArraySize()); }
			else if (auto br = dyn_cast<BranchInst>(&I)) {
				if (br->isConditional()) { x.op = O_CBR; x.a = opd(br->getCondition()); int e1 = edge(&bb, br->getSuccessor(0)), e2 = edge(&bb, br->getSuccessor(1)); x.b.v = e1; x.c.v = e2; }
				else { x.op = O_BR; x.b.v = edge(&bb, br->getSuccessor(0)); }
			} else if (auto sw = dyn_cast<SwitchInst>(&I)) {
				x.op = O_SWITCH; x.a = opd(sw->getCondition()); x.w = scalarW(sw->getCondition()->getType()); auto s = new SwX; std::map<const BasicBlock*, int> em;
				auto ed = [&](const BasicBlock* t) { auto it = em.find(t); if (it != em.end()) return it->second; return em[t] = edge(&bb, t); };
				s->def = ed(sw->getDefaultDest()); for (auto& c : sw->cases()) s->cases.push_back({c.getCaseValue()->getZExtValue(), ed(c.getCaseSuccessor())}); x.x = s;
			} else if (auto ri = dyn_cast<ReturnInst>(&I)) { x.op = O_RET; if (ri->getReturnValue()) { x.a = opd(ri->getReturnValue()); x.imm = flatCount(ri->getReturnValue()->getType()); } }
			else if (isa<UnreachableInst>(I)) x.op = O_UNREACH;
			else if (auto se = dyn_cast<SelectInst>(&I)) { x.op = O_SELECT; x.a = opd(se->getCondition()); x.b = opd(se->getTrueValue()); x.c = opd(se->getFalseValue()); x.imm = leavesId(se->getType()); x.w2 = se->getType()->isPointerTy(); }
			else if (auto ev = dyn_cast<ExtractValueInst>(&I)) { x.op = O_EXTRACT; Opd o = opd(ev->getAggregateOperand()); int i = flatIndex(ev->getAggregateOperand()->getType(), ev->getIndices()); x.a = o.v >= 0 ? Opd{o.v + i} : Opd{o.v - i}; x.imm = flatCount(ev->getType()); }
			else if (auto iv = dyn_cast<InsertValueInst>(&I)) { x.op = O_INSERT; x.a = opd(iv->getAggregateOperand()); x.b = opd(iv->getInsertedValueOperand()); x.c.v = flatIndex(iv->getType(), iv->getIndices()); x.imm = flatCount(iv->getType()); x.sub = flatCount(iv->getInsertedValueOperand()->getType()); }
			else if (auto fi = dyn_cast<FreezeInst>(&I)) { x.op = O_COPY; x.a = opd(fi->getOperand(0)); x.imm = flatCount(fi->getType()); }
			else if (isa<FenceInst>(I)) x.op = O_NOP;
			else if (I.getOpcode() == Instruction::FNeg) { x.op = O_FNEG; x.a = opd(I.getOperand(0)); }
			else if (auto lp = dyn_cast<LandingPadInst>(&I)) {
				x.op = O_LANDING; auto l = new LandX; l->cleanup = lp->isCleanup();
				for (unsigned i = 0; i < lp->getNumClauses(); i++) { l->isFilter.push_back(lp->isFilter(i)); l->types.push_back(lp->isFilter(i) ? 0 : constPtr(lp->getClause(i))); }
				x.x = l;
			} else if (auto rs = dyn_cast<ResumeInst>(&I)) { x.op = O_RESUME; x.a = opd(rs->getValue()); }
			else if (auto rmw = dyn_cast<AtomicRMWInst>(&I)) { x.op = O_RMW; x.a = opd(rmw->getPointerOperand()); x.b = opd(rmw->getValOperand()); x.sub = rmw->getOperation(); }
			else if (auto cx = dyn_cast<AtomicCmpXchgInst>(&I)) { x.op = O_CMPXCHG; x.a = opd(cx->getPointerOperand()); x.b = opd(cx->getCompareOperand()); x.c = opd(cx->getNewValOperand()); x.w = scalarW(cx->getCompareOperand()->getType()); }
			else if (auto cb = dyn_cast<CallBase>(&I)) {
				auto c = new CallX; c->cb = cb; x.x = c; x.op = isa<InvokeInst>(I) ? O_INVOKE : O_CALL;
				c->retSlots = std::max(0, flatCount(cb->getType())); c->retW = scalarW(cb->getType());
				Value* tv = cb->getCalledOperand()->stripPointerCasts();
				if (auto ga = dyn_cast<GlobalAlias>(tv)) tv = ga->getAliaseeObject();
				if (auto fn = dyn_cast<Function>(tv)) { if (fn->isIntrinsic()) c->intr = fn->getIntrinsicID(); else c->direct = getFunc(fn); } else if (isa<InlineAsm>(tv)) c->intr = -1; else c->target = opd(tv);
				if (c->intr != Intrinsic::experimental_noalias_scope_decl)
				for (unsigned i = 0; i < cb->arg_size(); i++) {
					Value* a = cb->getArgOperand(i); if (a->getType()->isMetadataTy()) { continue; }
					c->args.push_back(opd(a)); c->argSlots.push_back(std::max(1, flatCount(a->getType())));
					c->byval.push_back(cb->isByValArgument(i) ? (int)DL->getTypeAllocSize(cb->getParamByValType(i)) : 0);
				}
				if (auto inv = dyn_cast<InvokeInst>(&I)) { c->normal = edge(&bb, inv->getNormalDest()); c->unwind = edge(&bb, inv->getUnwindDest()); }
			}
			F->code.push_back(x);
		}
	}
	for (auto& fx : fixes) F->edges[fx.edge].target = bbIdx[fx.bb];
}

// ------------------------------------------------------------------ interpreter
static inline Val& reg(State& s, int slot) { return s.regs[s.fr.back().base + slot]; }
static inline Val get(State& s, Opd o, int i = 0) { return o.v >= 0 ? s.regs[s.fr.back().base + o.v + i] : s.fr.back().f->pool[-o.v - 1 + i]; }
static std::vector<Val> tmpv;
static void takeEdge(State& s, int id) {
	Frame& f = s.fr.back(); Edge& e = f.f->edges[id];
	if (!e.copies.empty()) { tmpv.clear(); for (auto& c : e.copies) tmpv.push_back(get(s, c.second)); for (size_t i = 0; i < e.copies.size(); i++) reg(s, e.copies[i].first) = tmpv[i]; }
	f.pc = e.target;
}
static void popFrameMem(State& s) {
	Frame& f = s.fr.back();
	for (size_t i = f.allocaStart; i < s.allocas.size(); i++) { int wh; uint64_t a = s.allocas[i];
		int lo = 0, hi = (int)s.mem.size() - 1, fi = -1; while (lo <= hi) { int mid = (lo + hi) / 2; if (s.mem[mid].p->base <= a) { fi = mid; lo = mid + 1; } else hi = mid - 1; }
		if (fi >= 0 && s.mem[fi].p->base == a) removeObj(s, fi); (void)wh; }
	s.allocas.resize(f.allocaStart); s.regs.resize(f.base);
}
static void pushFrame(State& s, Func* F, int retDst, int retSlots, int unwind, bool dropRet = false) {
	if (!F->decoded) decode(F);
	if (!F->noted) { F->noted = true; funcsRun.insert(F->name); }
	if (s.fr.size() > 3000) fail(s, "recursion", "stack-overflow");
	Frame nf{F, 0, (int)s.regs.size(), retDst, retSlots, 0, (int)s.allocas.size(), unwind, dropRet};
	s.regs.resize(s.regs.size() + F->nslots, cv(0xFEFEFEFEFEFEFEFEull)); s.fr.push_back(nf);
}
static std::string cstr(State& s, uint64_t a, int max = 200) { std::string r; int wh; Obj* o = findObj(s, a, wh); if (!o) return r; for (uint64_t i = a - o->base; i < o->size && (int)r.size() < max; i++) { if (!o->s.empty() && o->s[i]) { r += '?'; continue; } if (!o->d[i]) break; r += (char)o->d[i]; } return r; }

// --- RTTI
static std::string typeName(State& s, uint64_t ti) { Val v = loadMem(s, cv(ti + 8), 64); return v.e ? "?" : cstr(s, v.c); }
static uint64_t vtSI, vtVMI, vtClass;
static bool derivesFrom(State& s, uint64_t t, uint64_t base) {
	if (t == base) return true;
	uint64_t vt = loadMem(s, cv(t), 64).c;
	if (vt == vtSI && vtSI) return derivesFrom(s, loadMem(s, cv(t + 16), 64).c, base);
	if (vt == vtVMI && vtVMI) { uint32_t n = loadMem(s, cv(t + 20), 32).c; for (uint32_t i = 0; i < n; i++) if (derivesFrom(s, loadMem(s, cv(t + 24 + 16 * i), 64).c, base)) return true; }
	return typeName(s, t) == typeName(s, base);
}
static bool handlerIn(State& s, Func* F, int pc, uint64_t type, int& sel, bool& cleanup) {
	// find landing pad instruction at edge target
	Ins& l = F->code[pc]; if (l.op != O_LANDING) { return false; }
	LandX* lx = (LandX*)l.x; cleanup = lx->cleanup; sel = 0;
	for (size_t i = 0; i < lx->types.size(); i++) {
		if (lx->isFilter[i]) { sel = -1; return true; }
		if (lx->types[i] == 0 || derivesFrom(s, type, lx->types[i])) { sel = lx->types[i] == 0 ? 1 : (int)(lx->types[i] & 0x7fffffff); return true; }
	}
	return false;
}
static void unwind(State& s, uint64_t exc, uint64_t type, uint64_t dtor) {
	// phase 1: is there a handler?
	bool found = false;
	for (int i = (int)s.fr.size() - 1; i > 0 && !found; i--) { int u = s.fr[i].invokeUnwind; if (u >= 0) { Func* F = s.fr[i - 1].f; int sel; bool c; if (handlerIn(s, F, F->edges[u].target, type, sel, c)) found = true; } }
	if (!found) fail(s, "uncaught-exception", demangle("_Z" + typeName(s, type)) == "" ? "?" : typeName(s, type));
	while (true) {
		int u = s.fr.back().invokeUnwind;
		popFrameMem(s); s.fr.pop_back();
		if (s.fr.empty()) throw EndPath();
		if (u < 0) continue;
		Func* F = s.fr.back().f; int sel = 0; bool cleanup = false; bool h = handlerIn(s, F, F->edges[u].target, type, sel, cleanup);
		if (!h && !cleanup) continue;
		takeEdge(s, u);
		Ins& l = F->code[s.fr.back().pc];
		reg(s, l.dst) = cv(exc); reg(s, l.dst + 1) = cv((uint32_t)sel);
		s.fr.back().pc++;
		s.curExc = exc; s.curType = type; s.curDtor = dtor;
		return;
	}
}
static int& excRefs(State& s, uint64_t e) { for (auto& r : s.excRefs) if (r.first == e) return r.second; s.excRefs.push_back({e, 0}); return s.excRefs.back().second; }
static void destroyExc(State& s, uint64_t e) {
	uint64_t dtor = 0; for (size_t i = 0; i < s.liveExc.size(); i++) if (s.liveExc[i].first == e) { dtor = s.liveExc[i].second.second; s.liveExc.erase(s.liveExc.begin() + i); break; }
	if (dtor) { auto it = funcAt.find(dtor); if (it != funcAt.end()) { Func* D = it->second; if (D->builtin == B_NONE) { pushFrame(s, D, -1, 0, -1, true); s.regs[s.fr.back().base] = cv(e); } else problem(s, "exception destructor without body: " + D->name); } }
}
static std::pair<uint64_t, uint64_t> excInfo(State& s, uint64_t exc) { for (auto& l : s.liveExc) if (l.first == exc) return l.second; return {0, 0}; }

static void freePtr(State& s, Val pv, ObjKind a, ObjKind b) {
	uint64_t p = cval(s, pv, 64); if (!p) return;
	int wh; Obj* o = findObj(s, p, wh);
	if (!o || wh < 0) fail(s, "memory", "invalid-free");
	if (o->base != p || (o->kind != OK_HEAP && o->kind != OK_NEW && o->kind != OK_NEWARR)) fail(s, "memory", "invalid-free");
	if (o->kind != a) fail(s, "memory", "mismatched-free"); (void)b; if (s.cur && o->size) race(s, o->base, o->size, true);
	removeObj(s, wh); s.liveHeap--;
}
static uint64_t dynBase(State& s, uint64_t ti, uint64_t dst, int64_t off, bool& ok); // for __dynamic_cast
static uint64_t dynBase(State& s, uint64_t ti, uint64_t dst, int64_t off, bool& ok) {
	if (ti == dst || typeName(s, ti) == typeName(s, dst)) { ok = true; return off; }
	uint64_t vt = loadMem(s, cv(ti), 64).c;
	if (vt == vtSI && vtSI) return dynBase(s, loadMem(s, cv(ti + 16), 64).c, dst, off, ok);
	if (vt == vtVMI && vtVMI) { uint32_t n = loadMem(s, cv(ti + 20), 32).c; for (uint32_t i = 0; i < n; i++) { int64_t fl = (int64_t)loadMem(s, cv(ti + 24 + 16 * i + 8), 64).c; uint64_t r = dynBase(s, loadMem(s, cv(ti + 24 + 16 * i), 64).c, dst, off + (fl >> 8), ok); if (ok) return r; } }
	return 0;
}
struct Sample { std::vector<std::pair<std::string, std::string>> inputs; std::vector<std::string> covers; };
static std::map<std::string, std::vector<Sample>> samples; // a few completed paths per set of covered points, for native replay
static void pathEnd(State& s) {
	st.pathsDone++;
	{
		std::string k; for (auto& c : s.covers) { k += c; k += ';'; }
		if (samples.size() < 64 || samples.count(k)) { auto& v = samples[k]; if (v.size() < 2) { Sample sm; sm.covers = s.covers; const Model& m = *s.model; for (auto& sr : s.syms) { uint64_t x = ((size_t)sr.var < m.size() ? m[sr.var] : 0) & maskw(sr.w); sm.inputs.push_back({sr.name, std::to_string(x)}); } v.push_back(sm); } }
	}
	for (auto& c : s.covers) covers[c]++;
	st.maxVars = std::max<uint64_t>(st.maxVars, s.syms.size());
	throw EndPath();
}
static void newSym(State& s, const std::string& name, int w, E& out) { int v = s.syms.size(); s.syms.push_back({name, v, w}); out = mkvar(v, w); auto m = std::make_shared<Model>(*s.model); m->resize(std::max<size_t>(m->size(), v + 1), 0); (*m)[v] = 0; s.model = m; }

static void doCheck(State& s, E cond, const std::string& tag) {
	st.asserts++; tagsChecked[tag]++;
	if (isc(cond)) { if (!cond->c) fail(s, "check", tag); return; }
	st.assertsQ++;
	E neg = mknot(cond); std::shared_ptr<Model> nm; int r = solve(s, neg, nm);
	if (r == -1) problem(s, "solver gave no answer (assertion " + tag + ")");
	if (r == 1) {
		emit(s, "check", tag, *nm, where(s));
		std::shared_ptr<Model> pm; if (solve(s, cond, pm) != 1) throw EndPath();
		s.model = pm;
	}
	addCons(s, cond);
}

// returns true when the call has been completed (result stored); otherwise a frame was pushed
static void finishCall(State& s, Ins& I, CallX* c, Val r) { if (I.dst >= 0 && c->retSlots == 1) { if (!r.e && c->retW) r.c &= maskw(c->retW); reg(s, I.dst) = r; } if (c->normal >= 0) takeEdge(s, c->normal); }

static void memcpySym(State& s, Val dst, Val src, uint64_t n) {
	if (!n) return;
	uint64_t d = cval(s, dst, 64), a = cval(s, src, 64);
	int w1, w2; E so; uint64_t o1, o2; Val sv = cv(a), dv = cv(d);
	Obj* so_ = access(s, sv, n, w1, so, o1, false);
	std::vector<uint8_t> tb(so_->d.begin() + o1, so_->d.begin() + o1 + n); std::vector<E> ts; if (!so_->s.empty()) ts.assign(so_->s.begin() + o1, so_->s.begin() + o1 + n);
	access(s, dv, n, w2, so, o2, true);
	Obj* t = writable(s, w2);
	memcpy(&t->d[o2], tb.data(), n);
	if (!ts.empty()) { if (t->s.empty()) { bool any = false; for (E e : ts) if (e) any = true; if (any) t->s.assign(t->size, nullptr); } if (!t->s.empty()) std::copy(ts.begin(), ts.end(), t->s.begin() + o2); }
	else if (!t->s.empty()) std::fill(t->s.begin() + o2, t->s.begin() + o2 + n, nullptr);
}

static void callBuiltin(State& s, Ins& I, CallX* c, Func* F);
static uint64_t CV1(State& s, Val v) { return cval(s, v, 32); }
static void callIntrinsic(State& s, Ins& I, CallX* c) {
	auto A = [&](int i) { return get(s, c->args[i]); };
	int w = c->retW;
	auto wOf = [&](int i) { return scalarW(c->cb->getArgOperand(i)->getType()); };
	switch (c->intr) {
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::stackrestore: case Intrinsic::var_annotation:
		return finishCall(s, I, c, cv(0));
	case Intrinsic::invariant_start: case Intrinsic::stacksave: return finishCall(s, I, c, cv(0));
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::ptr_annotation: return finishCall(s, I, c, A(0));
	case Intrinsic::threadlocal_address: { // each thread has its own copy, which starts as the program's initial one
		Val tv = A(0); uint64_t a = cval(s, tv, 64); if (!s.cur) return finishCall(s, I, c, cv(a));
		for (auto& t : s.thr[s.cur].tls) if (t.first == a) return finishCall(s, I, c, cv(t.second));
		int wh; Obj* o = findObj(s, a, wh); if (!o || wh >= 0) problem(s, "thread-local variable of an unknown kind"); std::vector<uint8_t> init = globalObjs[-2 - wh].p->d; uint64_t n = allocObj(s, o->size, OK_GLOBAL); s.mem.back().p->d = init; s.thr[s.cur].tls.push_back({a, n}); return finishCall(s, I, c, cv(n)); }
	case Intrinsic::is_constant: return finishCall(s, I, c, cv(0));
	case Intrinsic::objectsize: return finishCall(s, I, c, cv(maskw(w)));
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Val n = A(2); uint64_t nn = cval(s, n, 64); memcpySym(s, A(0), A(1), nn); return finishCall(s, I, c, cv(0)); }
	case Intrinsic::memset: {
		Val n = A(2), p = A(0); uint64_t nn = cval(s, n, 64); if (!nn) return finishCall(s, I, c, cv(0)); uint64_t d = cval(s, p, 64); Val b = A(1); int wh; E so; uint64_t off; Val dv = cv(d); access(s, dv, nn, wh, so, off, true); Obj* o = writable(s, wh);
		for (uint64_t i = 0; i < nn; i++) setByte(o, off + i, ex(b, 8)); return finishCall(s, I, c, cv(0)); }
	case Intrinsic::vastart: memcpySym(s, A(0), cv(s.fr.back().va), 24); return finishCall(s, I, c, cv(0));
	case Intrinsic::vacopy: memcpySym(s, A(0), A(1), 24); return finishCall(s, I, c, cv(0));
	case Intrinsic::vaend: return finishCall(s, I, c, cv(0));
	case Intrinsic::floor: case Intrinsic::ceil: case Intrinsic::trunc: case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::round: case Intrinsic::roundeven: case Intrinsic::sqrt: case Intrinsic::copysign: case Intrinsic::fmuladd: case Intrinsic::fma: case Intrinsic::minnum: case Intrinsic::maxnum: case Intrinsic::pow: case Intrinsic::exp: case Intrinsic::log: case Intrinsic::log10: case Intrinsic::log2: {
		double v[3] = {0, 0, 0}; for (size_t i = 0; i < c->args.size() && i < 3; i++) { Val x = A(i); uint64_t b = cval(s, x, wOf(i)); if (wOf(i) == 32) { float f; uint32_t u = b; memcpy(&f, &u, 4); v[i] = f; } else memcpy(&v[i], &b, 8); }
		double r = 0; switch (c->intr) { case Intrinsic::floor: r = ::floor(v[0]); break; case Intrinsic::ceil: r = ::ceil(v[0]); break; case Intrinsic::trunc: r = ::trunc(v[0]); break; case Intrinsic::rint: case Intrinsic::nearbyint: r = ::rint(v[0]); break; case Intrinsic::roundeven: r = ::rint(v[0]); break; case Intrinsic::round: r = ::round(v[0]); break; case Intrinsic::sqrt: r = w == 32 ? ::sqrtf(v[0]) : ::sqrt(v[0]); break;
		case Intrinsic::copysign: r = ::copysign(v[0], v[1]); break; case Intrinsic::fmuladd: r = w == 32 ? (float)v[0] * (float)v[1] + (float)v[2] : v[0] * v[1] + v[2]; break; case Intrinsic::fma: r = ::fma(v[0], v[1], v[2]); break; case Intrinsic::minnum: r = ::fmin(v[0], v[1]); break; case Intrinsic::maxnum: r = ::fmax(v[0], v[1]); break; case Intrinsic::pow: r = ::pow(v[0], v[1]); break; case Intrinsic::exp: r = ::exp(v[0]); break; case Intrinsic::log: r = ::log(v[0]); break; case Intrinsic::log10: r = ::log10(v[0]); break; default: r = ::log2(v[0]); }
		uint64_t o = 0; if (w == 32) { float f = (float)r; memcpy(&o, &f, 4); } else memcpy(&o, &r, 8); return finishCall(s, I, c, cv(o)); }
	case Intrinsic::is_fpclass: case Intrinsic::lround: case Intrinsic::llround: case Intrinsic::lrint: case Intrinsic::llrint: {
		Val x = A(0); uint64_t b = cval(s, x, wOf(0)); double v; if (wOf(0) == 32) { float f; uint32_t u = b; memcpy(&f, &u, 4); v = f; } else memcpy(&v, &b, 8);
		if (c->intr != Intrinsic::is_fpclass) return finishCall(s, I, c, cv((uint64_t)(c->intr == Intrinsic::lround || c->intr == Intrinsic::llround ? ::llround(v) : ::llrint(v))));
		uint64_t m = CV1(s, A(1)); bool neg = std::signbit(v); int cl = std::fpclassify(v); if (wOf(0) == 32) cl = std::fpclassify((float)v); int bit = cl == FP_NAN ? (wOf(0) == 64 ? ((b >> 51) & 1 ? 1 : 0) : ((b >> 22) & 1 ? 1 : 0)) : cl == FP_INFINITE ? (neg ? 2 : 9) : cl == FP_NORMAL ? (neg ? 3 : 8) : cl == FP_SUBNORMAL ? (neg ? 4 : 7) : (neg ? 5 : 6);
		return finishCall(s, I, c, cv((m >> bit) & 1)); }
	case Intrinsic::trap: case Intrinsic::debugtrap: fail(s, "trap", "llvm.trap");
	case Intrinsic::eh_typeid_for: { uint64_t t = A(0).c; return finishCall(s, I, c, cv(t & 0x7fffffff)); }
	case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: {
		E a = ex(A(0), w), b = ex(A(1), w); K k = (c->intr == Intrinsic::umin || c->intr == Intrinsic::umax) ? ULT : SLT; E lt = mkbin(k, a, b); bool mn = c->intr == Intrinsic::umin || c->intr == Intrinsic::smin; return finishCall(s, I, c, ve(mn ? mkite(lt, a, b) : mkite(lt, b, a))); }
	case Intrinsic::abs: { E a = ex(A(0), w); return finishCall(s, I, c, ve(mkite(mkbin(SLT, a, mkc(0, w)), mkbin(SUB, mkc(0, w), a), a))); }
	case Intrinsic::bswap: { E a = ex(A(0), w); E r = mkextract(a, 0, 8); for (int i = 1; i < w / 8; i++) r = mkconcat(r, mkextract(a, i * 8, 8)); return finishCall(s, I, c, ve(r)); }
	case Intrinsic::ctpop: { E a = ex(A(0), w); E r = mkc(0, w); for (int i = 0; i < w; i++) r = mkbin(ADD, r, mkzext(mkextract(a, i, 1), w)); return finishCall(s, I, c, ve(r)); }
	case Intrinsic::ctlz: { E a = ex(A(0), w); E r = mkc(w, w); for (int i = 0; i < w; i++) r = mkite(mkextract(a, i, 1), mkc(w - 1 - i, w), r); return finishCall(s, I, c, ve(r)); }
	case Intrinsic::cttz: { E a = ex(A(0), w); E r = mkc(w, w); for (int i = w - 1; i >= 0; i--) r = mkite(mkextract(a, i, 1), mkc(i, w), r); return finishCall(s, I, c, ve(r)); }
	case Intrinsic::fshl: case Intrinsic::fshr: { E a = ex(A(0), w), b = ex(A(1), w); Val sh = A(2); uint64_t n = cval(s, sh, w) % w; if (c->intr == Intrinsic::fshr) n = (w - n) % w, n = n ? n : (uint64_t)0; if (!n) return finishCall(s, I, c, ve(c->intr == Intrinsic::fshl ? a : b)); return finishCall(s, I, c, ve(mkbin(OR, mkbin(SHL, a, mkc(n, w)), mkbin(LSHR, b, mkc(w - n, w))))); }
	case Intrinsic::fabs: { E a = ex(A(0), w); return finishCall(s, I, c, ve(mkbin(AND, a, mkc(maskw(w) >> 1, w)))); }
	case Intrinsic::uadd_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
		int ww = wOf(0); E a = ex(A(0), ww), b = ex(A(1), ww); E r, o;
		switch (c->intr) {
		case Intrinsic::uadd_with_overflow: r = mkbin(ADD, a, b); o = mkbin(ULT, r, a); break;
		case Intrinsic::usub_with_overflow: r = mkbin(SUB, a, b); o = mkbin(ULT, a, b); break;
		case Intrinsic::sadd_with_overflow: { r = mkbin(ADD, a, b); E sa = mkbin(SLT, a, mkc(0, ww)), sb = mkbin(SLT, b, mkc(0, ww)), sr = mkbin(SLT, r, mkc(0, ww)); o = mkand(mkeq(sa, sb), mknot(mkeq(sa, sr))); break; }
		case Intrinsic::ssub_with_overflow: { r = mkbin(SUB, a, b); E sa = mkbin(SLT, a, mkc(0, ww)), sb = mkbin(SLT, b, mkc(0, ww)), sr = mkbin(SLT, r, mkc(0, ww)); o = mkand(mknot(mkeq(sa, sb)), mknot(mkeq(sa, sr))); break; }
		case Intrinsic::umul_with_overflow: { r = mkbin(MUL, a, b); if (ww <= 32) o = mknot(mkeq(mkextract(mkbin(MUL, mkzext(a, 64), mkzext(b, 64)), ww, 64 - ww), mkc(0, 64 - ww)));
			else { // 64 bit
				if (isc(b) && b->c) o = mkbin(ULT, mkc(maskw(ww) / b->c, ww), a); else if (isc(a) && a->c) o = mkbin(ULT, mkc(maskw(ww) / a->c, ww), b); else if (isc(a) || isc(b)) o = mkc(0, 1); else o = mkand(mknot(mkeq(b, mkc(0, ww))), mknot(mkeq(mkbin(UDIV, r, b), a))); } break; }
		default: { r = mkbin(MUL, a, b); if (ww <= 32) { E p = mkbin(MUL, mksext(a, 64), mksext(b, 64)); o = mknot(mkeq(p, mksext(r, 64))); } else { if (isc(a)) std::swap(a, b); if (!isc(b)) problem(s, "smul overflow of two symbolic values"); int64_t k = (int64_t)b->c; if (k == 0 || k == 1) o = mkc(0, 1); else if (k > 0) o = mkor(mkbin(SLT, mkc(INT64_MAX / k, 64), a), mkbin(SLT, a, mkc(INT64_MIN / k, 64))); else o = mkor(mkbin(SLT, mkc(k == -1 ? INT64_MAX : INT64_MIN / k, 64), a), mkbin(SLT, a, mkc(INT64_MAX / k, 64))); } }
		}
		reg(s, I.dst) = ve(r); reg(s, I.dst + 1) = ve(o); if (c->normal >= 0) takeEdge(s, c->normal); return; }
	case Intrinsic::usub_sat: { E a = ex(A(0), w), b = ex(A(1), w); return finishCall(s, I, c, ve(mkite(mkbin(ULT, a, b), mkc(0, w), mkbin(SUB, a, b)))); }
	case Intrinsic::uadd_sat: { E a = ex(A(0), w), b = ex(A(1), w); E r = mkbin(ADD, a, b); return finishCall(s, I, c, ve(mkite(mkbin(ULT, r, a), mkc(maskw(w), w), r))); }
	case -1: return finishCall(s, I, c, cv(0)); // inline asm: none expected beyond compiler barriers
	default: problem(s, "unsupported intrinsic " + c->cb->getCalledFunction()->getName().str());
	}
}
static void enterCall(State& s, Ins& I, CallX* c, Func* F) {
	if (F->builtin > B_UNKNOWN || (F->builtin == B_UNKNOWN)) { callBuiltin(s, I, c, F); return; }
	if (!F->decoded) decode(F);
	size_t need = 0; for (int n : c->argSlots) need += n;
	if ((int)need < F->nArgSlots) problem(s, "call with too few arguments: " + F->name);
	tmpv.clear();
	for (size_t i = 0; i < c->args.size() && (int)tmpv.size() < F->nArgSlots; i++) {
		if (c->byval[i]) { Val src = get(s, c->args[i]); uint64_t a = allocObj(s, c->byval[i], OK_STACK); std::vector<Val> keep = tmpv; memcpySym(s, cv(a), src, c->byval[i]); tmpv = keep; tmpv.push_back(cv(a)); /* freed with callee frame */ s.allocas.push_back(a); }
		else for (int k = 0; k < c->argSlots[i]; k++) tmpv.push_back(get(s, c->args[i], k));
	}
	int nby = 0; for (int b : c->byval) if (b) nby++;
	pushFrame(s, F, I.dst, c->retSlots, c->unwind);
	s.fr.back().allocaStart -= nby;
	int base = s.fr.back().base; for (int i = 0; i < F->nArgSlots; i++) s.regs[base + i] = tmpv[i];
	if (F->f->isVarArg()) { // the register save area and the arguments beyond it, as the x86-64 ABI lays them out
		std::vector<Val> named = tmpv; unsigned nfix = F->f->arg_size(); int gp = 0, fp = 0; uint64_t over = 176;
		uint64_t a = allocObj(s, 24 + 176 + 16 * c->args.size(), OK_STACK); s.allocas.push_back(a); uint64_t area = a + 24; int gp0 = 0, fp0 = 0;
		auto callerGet = [&](Opd o) { Frame& f = s.fr[s.fr.size() - 2]; return o.v >= 0 ? s.regs[f.base + o.v] : f.f->pool[-o.v - 1]; };
		for (unsigned i = 0; i < c->args.size(); i++) {
			Type* t = c->cb->getArgOperand(i)->getType(); int w = scalarW(t); bool f = t->isFloatingPointTy(); if (i == nfix) { gp0 = gp; fp0 = fp; }
			if (i < nfix) { (f ? fp : gp)++; continue; }
			if (!w || w > 64) problem(s, "variable argument of an unsupported type");
			uint64_t at = f ? (fp < 8 ? 48 + 16 * fp : over) : (gp < 6 ? 8 * gp : over); if (at == over) over += 8; (f ? fp : gp)++;
			storeMem(s, cv(area + at), callerGet(c->args[i]), w);
		}
		if (c->args.size() == nfix) { gp0 = gp; fp0 = fp; }
		storeMem(s, cv(a), cv(std::min(gp0, 6) * 8), 32); storeMem(s, cv(a + 4), cv(48 + 16 * std::min(fp0, 8)), 32); storeMem(s, cv(a + 8), cv(area + 176), 64); storeMem(s, cv(a + 16), cv(area), 64); s.fr.back().va = a;
	}
}
static void lockCall(State& s, Ins& I, CallX* c, uint64_t a, int mode); static void unlockCall(State& s, Ins& I, CallX* c, uint64_t a); static void threadsStart(State& s, int n, Func* f, uint64_t arg); static void threadEnd(State& s); static void threadNew(State& s, Ins& I, CallX* c, Func* f, uint64_t arg); static void threadJoin(State& s, Ins& I, CallX* c, int t); static void condWait(State& s, Ins& I, CallX* c, uint64_t a, uint64_t m); static void condWake(State& s, uint64_t a, bool all); static void swapThread(State& s, Thr& t); static void schedule(State& s); static void syncAt(State& s, uint64_t a, bool rel);
static void callBuiltin(State& s, Ins& I, CallX* c, Func* F) {
	auto A = [&](int i) { return get(s, c->args[i]); };
	auto CV = [&](int i) { Val v = A(i); return cval(s, v, 64); };
	switch (F->builtin) {
	case B_MALLOC: case B_NEW: case B_NEWARR: {
		uint64_t n = CV(0); if (n > (1ull << 26)) { if (F->builtin == B_MALLOC) return finishCall(s, I, c, cv(0)); fail(s, "memory", "huge-allocation"); }
		s.liveHeap++; return finishCall(s, I, c, cv(allocObj(s, n, F->builtin == B_MALLOC ? OK_HEAP : F->builtin == B_NEW ? OK_NEW : OK_NEWARR))); }
	case B_CALLOC: { uint64_t n = CV(0) * CV(1); if (n > (1ull << 26)) return finishCall(s, I, c, cv(0)); s.liveHeap++; uint64_t a = allocObj(s, n, OK_HEAP); std::fill(s.mem.back().p->d.begin(), s.mem.back().p->d.end(), 0); return finishCall(s, I, c, cv(a)); }
	case B_REALLOC: { uint64_t p = CV(0), n = CV(1); s.liveHeap++; uint64_t a = allocObj(s, n, OK_HEAP); if (p) { int wh; Obj* o = findObj(s, p, wh); if (!o || o->base != p) fail(s, "memory", "invalid-free"); memcpySym(s, cv(a), cv(p), std::min(n, o->size)); freePtr(s, cv(p), OK_HEAP, OK_HEAP); } return finishCall(s, I, c, cv(a)); }
	case B_FREE: freePtr(s, A(0), OK_HEAP, OK_HEAP); return finishCall(s, I, c, cv(0));
	case B_DELETE: freePtr(s, A(0), OK_NEW, OK_NEW); return finishCall(s, I, c, cv(0));
	case B_DELARR: freePtr(s, A(0), OK_NEWARR, OK_NEWARR); return finishCall(s, I, c, cv(0));
	case B_MEMCMP: {
		uint64_t n = CV(2); if (!n) return finishCall(s, I, c, cv(0)); uint64_t p = CV(0), q = CV(1); int w1, w2; E so; uint64_t o1, o2; Val pv = cv(p), qv = cv(q);
		Obj* a = access(s, pv, n, w1, so, o1, false); Obj* b = access(s, qv, n, w2, so, o2, false);
		E r = mkc(0, 32); bool allc = true;
		for (uint64_t i = n; i-- > 0;) { E x = byteE(a, o1 + i), y = byteE(b, o2 + i); E ne = mknot(mkeq(x, y)); r = mkite(ne, mkite(mkbin(ULT, x, y), mkc(~0ull, 32), mkc(1, 32)), r); } (void)allc;
		return finishCall(s, I, c, ve(r)); }
	case B_ABORT: fail(s, "abort", F->name);
	case B_TERMINATE: fail(s, "terminate", "std::terminate");
	case B_PUREVIRT: fail(s, "terminate", "pure virtual call");
	case B_EXIT: { if (CV(0) == 0) pathEnd(s); fail(s, "exit", "exit"); }
	case B_NOP: case B_RET0: return finishCall(s, I, c, cv(0));
	case B_CXA_ALLOC: { uint64_t n = CV(0); return finishCall(s, I, c, cv(allocObj(s, n, OK_EXC))); }
	case B_CXA_FREE: { int wh; uint64_t p = CV(0); if (findObj(s, p, wh) && wh >= 0) removeObj(s, wh); return finishCall(s, I, c, cv(0)); }
	case B_CXA_THROW: { uint64_t e = CV(0), t = CV(1), d = CV(2); s.liveExc.push_back({e, {t, d}});
		if (c->unwind >= 0) { pushFrame(s, F, -1, 0, c->unwind); } else pushFrame(s, F, -1, 0, -1);
		unwind(s, e, t, d); return; }
	case B_CXA_RETHROW: { if (s.caught.empty()) fail(s, "terminate", "rethrow without exception"); ExcRec r = s.caught.back(); s.caught.back().handlers = -s.caught.back().handlers; pushFrame(s, F, -1, 0, c->unwind); unwind(s, r.obj, r.type, r.dtor); return; }
	case B_CXA_BEGIN: { uint64_t e = CV(0); bool f = false; for (auto& r : s.caught) if (r.obj == e) { r.handlers = std::abs(r.handlers) + 1; f = true; } if (!f) { auto i = excInfo(s, e); s.caught.push_back({e, i.first, i.second, 1}); } auto tn = typeName(s, excInfo(s, e).first); return finishCall(s, I, c, !tn.empty() && tn[0] == 'P' ? loadMem(s, cv(e), 64) : cv(e)); }
	case B_CXA_GETPTR: return finishCall(s, I, c, A(0));
	case B_CXA_END: {
		if (s.caught.empty()) return finishCall(s, I, c, cv(0));
		ExcRec& r = s.caught.back(); bool rethrown = r.handlers < 0; r.handlers = std::abs(r.handlers) - 1;
		if (rethrown) { if (r.handlers == 0) s.caught.pop_back(); else r.handlers = -r.handlers; return finishCall(s, I, c, cv(0)); }
		if (r.handlers > 0) return finishCall(s, I, c, cv(0));
		ExcRec q = r; s.caught.pop_back();
		finishCall(s, I, c, cv(0));
		if (excRefs(s, q.obj) > 0) excRefs(s, q.obj)--; else destroyExc(s, q.obj);
		return; }
	case B_EXC_CURRENT: { if (s.caught.empty()) return finishCall(s, I, c, cv(0)); uint64_t e = s.caught.back().obj; excRefs(s, e)++; return finishCall(s, I, c, cv(e)); }
	case B_EXC_REF: { uint64_t e = CV(0); int d = (int)CV(1); finishCall(s, I, c, cv(0)); int& r = excRefs(s, e); r += d; if (r < 0) { r = 0; destroyExc(s, e); } return; }
	case B_EXC_RETHROW: { uint64_t e = CV(0); excRefs(s, e)++; auto i = excInfo(s, e); pushFrame(s, F, -1, 0, c->unwind); unwind(s, e, i.first, i.second); return; }
	case B_UNCAUGHT: return finishCall(s, I, c, cv(0));
	case B_GUARD_ACQ: { atomicAccess = true; syncAt(s, CV(0), false); Val g = loadMem(s, A(0), 8); atomicAccess = false; return finishCall(s, I, c, cv(g.c == 0)); }
	case B_GUARD_REL: atomicAccess = true; syncAt(s, CV(0), true); storeMem(s, A(0), cv(1), 8); atomicAccess = false; return finishCall(s, I, c, cv(0));
	case B_SETJMP: { uint64_t b = CV(0); bool f = false; for (auto& j : s.jmps) if (j.first == b) { j.second = {(int)s.fr.size(), s.fr.back().pc}; f = true; } if (!f) s.jmps.push_back({b, {(int)s.fr.size(), s.fr.back().pc}}); if (c->normal >= 0) problem(s, "setjmp in invoke"); return finishCall(s, I, c, cv(0)); }
	case B_LONGJMP: {
		uint64_t b = CV(0), v = CV(1); int fd = -1, pc = 0; for (auto& j : s.jmps) if (j.first == b) { fd = j.second.first; pc = j.second.second; }
		if (fd < 0 || fd > (int)s.fr.size()) fail(s, "longjmp", "invalid longjmp");
		while ((int)s.fr.size() > fd) { popFrameMem(s); s.fr.pop_back(); }
		s.fr.back().pc = pc; Ins& J = s.fr.back().f->code[pc - 1]; if (J.dst >= 0) reg(s, J.dst) = cv((v & 0xffffffff) ? v & 0xffffffff : 1); return; }
	case B_DYNCAST: {
		uint64_t p = CV(0), dst = CV(2); uint64_t vt = loadMem(s, cv(p), 64).c; int64_t top = (int64_t)loadMem(s, cv(vt - 16), 64).c; uint64_t ti = loadMem(s, cv(vt - 8), 64).c; bool ok = false; uint64_t off = dynBase(s, ti, dst, 0, ok); return finishCall(s, I, c, cv(ok ? p + top + off : 0)); }
	// ---- harness interface
	case B_SYM_BYTES: { // sym_bytes(void* p, size_t n, const char* name)
		uint64_t p = CV(0), n = CV(1); std::string nm = cstr(s, CV(2)); for (uint64_t i = 0; i < n; i++) { E v; newSym(s, nm, 8, v); storeMem(s, cv(p + i), ve(v), 8); } return finishCall(s, I, c, cv(0)); }
	case B_SYM_INT: { std::string nm = cstr(s, CV(1)); E v; int w = (int)CV(0); newSym(s, nm, w, v); return finishCall(s, I, c, ve(mkzext(v, 64))); }
	case B_SYM_CHOICE: { // sym_choice(n, name): fork over 0..n-1
		uint64_t n = CV(0); std::string nm = cstr(s, CV(1)); E v; newSym(s, nm, 32, v); addCons(s, mkbin(ULT, v, mkc(n, 32)));
		// fork all values; siblings receive the result directly
		for (uint64_t i = 1; i < n; i++) { SP k = clone(s); auto m = std::make_shared<Model>(*k->model); (*m)[v->c] = i; k->model = m; addCons(*k, mkeq(v, mkc(i, 32))); k->depth++; st.forks++; finishCall(*k, I, c, cv(i)); work.push_back(std::move(k)); }
		addCons(s, mkeq(v, mkc(0, 32))); s.depth++; return finishCall(s, I, c, cv(0)); }
	case B_THR_START: { uint64_t f = CV(0), a = CV(1); auto it = funcAt.find(f); if (it == funcAt.end()) problem(s, "a thread without a function"); threadNew(s, I, c, it->second, a); return; }
	case B_THR_JOIN: threadJoin(s, I, c, (int)CV(0)); return;
	case B_COND_WAIT: { uint64_t a = CV(0), m = CV(1); condWait(s, I, c, a, m); return; }
	case B_COND_SIGNAL: condWake(s, CV(0), false); return finishCall(s, I, c, cv(0));
	case B_COND_ALL: condWake(s, CV(0), true); return finishCall(s, I, c, cv(0));
	case B_YIELD: finishCall(s, I, c, cv(0)); if (s.cur) { int t = s.cur; swapThread(s, s.thr[t]); s.cur = 0; schedule(s); } return;
	case B_THREADS: { uint64_t n = CV(0), f = CV(1), a = CV(2); auto it = funcAt.find(f); if (it == funcAt.end()) problem(s, "threads without a function"); finishCall(s, I, c, cv(0)); threadsStart(s, (int)n, it->second, a); return; }
	case B_LOCK_M: return lockCall(s, I, c, CV(0), 0); case B_TRYLOCK_M: return lockCall(s, I, c, CV(0), 2);
	case B_LOCK_W: return lockCall(s, I, c, CV(0), 8); case B_TRYLOCK_W: return lockCall(s, I, c, CV(0), 10); case B_LOCK_R: return lockCall(s, I, c, CV(0), 1); case B_TRYLOCK_R: return lockCall(s, I, c, CV(0), 3);
	case B_UNLOCK: return unlockCall(s, I, c, CV(0));
	case B_SYM_CONC: { Val v = A(0); uint64_t r = cval(s, v, 64); return finishCall(s, I, c, cv(r)); }
	case B_SYM_ASSUME: { Val v = A(0); E cnd = ex(v, scalarW(c->cb->getArgOperand(0)->getType())); cnd = mknot(mkeq(cnd, mkc(0, cnd->w))); if (isc(cnd)) { if (!cnd->c) { st.infeasible++; throw EndPath(); } return finishCall(s, I, c, cv(0)); }
		std::shared_ptr<Model> nm; int r = solve(s, cnd, nm); if (r == -1) problem(s, "solver gave no answer (assume)"); if (r == 0) { st.infeasible++; throw EndPath(); } s.model = nm; addCons(s, cnd); return finishCall(s, I, c, cv(0)); }
	case B_SYM_CHECK: { Val v = A(0); std::string tag = cstr(s, CV(1)); E cnd = ex(v, scalarW(c->cb->getArgOperand(0)->getType())); cnd = mknot(mkeq(cnd, mkc(0, cnd->w))); doCheck(s, cnd, tag); return finishCall(s, I, c, cv(0)); }
	case B_SYM_FAIL: { std::string tag = cstr(s, CV(0)); st.asserts++; fail(s, "check", tag); }
	case B_SYM_COVER: { s.covers.push_back(cstr(s, CV(0))); return finishCall(s, I, c, cv(0)); }
	case B_SYM_NOTE: { if (opt.trace) { Val v = A(1); fprintf(stderr, "NOTE %s %llu%s\n", cstr(s, CV(0)).c_str(), (unsigned long long)(v.e ? evalE(v.e, *s.model) : v.c), v.e ? " (sym)" : ""); } return finishCall(s, I, c, cv(0)); }
	case B_SYM_PARAM: { std::string nm = cstr(s, CV(0)); auto it = opt.params.find(nm); return finishCall(s, I, c, cv(it == opt.params.end() ? CV(1) : (uint64_t)it->second)); }
	case B_SYM_LIVE: return finishCall(s, I, c, cv(s.liveHeap));
	case B_SYM_DONE: pathEnd(s); return;
	case B_SYM_ISSYM: return finishCall(s, I, c, cv(A(0).e != nullptr));
	case B_IS_ENGINE: return finishCall(s, I, c, cv(1));
	case B_MATH1: case B_MATH2: { // mathematical functions of concrete values
		double x, y = 0; uint64_t b = CV(0); memcpy(&x, &b, 8); if (F->builtin == B_MATH2) { b = CV(1); memcpy(&y, &b, 8); } double r = 0; auto& n = F->name;
		if (n == "pow") r = ::pow(x, y); else if (n == "hypot") r = ::hypot(x, y); else if (n == "atan2") r = ::atan2(x, y); else if (n == "exp") r = ::exp(x); else if (n == "log") r = ::log(x); else if (n == "log10") r = ::log10(x); else if (n == "log2") r = ::log2(x); else if (n == "sqrt") r = ::sqrt(x); else if (n == "cbrt") r = ::cbrt(x); else r = ::exp2(x);
		memcpy(&b, &r, 8); return finishCall(s, I, c, cv(b)); }
	case B_FTOCHARS: { // int sym_native_ftoa(char* out24, uint64_t bits, int isFloat): shortest representation; the value must be concrete
		uint64_t bits = CV(1); int isf = (int)CV(2); char b[1200]; int n; int fmt = (isf >> 1) & 7, prec = (isf >> 8) - 1; isf &= 1; auto cf = (std::chars_format)fmt;
		if (fmt) { double d; if (isf) { float f; uint32_t u = bits; memcpy(&f, &u, 4); auto r = prec < 0 ? std::to_chars(b, b + 1200, f, cf) : std::to_chars(b, b + 1200, f, cf, prec); n = r.ptr - b; } else { memcpy(&d, &bits, 8); auto r = prec < 0 ? std::to_chars(b, b + 1200, d, cf) : std::to_chars(b, b + 1200, d, cf, prec); n = r.ptr - b; } }
		else if (isf) { float f; uint32_t u = bits; memcpy(&f, &u, 4); auto r = std::to_chars(b, b + 1200, f); n = r.ptr - b; } else { double d; memcpy(&d, &bits, 8); auto r = std::to_chars(b, b + 1200, d); n = r.ptr - b; }
		uint64_t p = CV(0); for (int i = 0; i < n; i++) storeMem(s, cv(p + i), cv((uint8_t)b[i]), 8); return finishCall(s, I, c, cv(n)); }
	case B_FFROMCHARS: { // int sym_native_atof(const char* first, int n, uint64_t* bits, int* ec, int isFloat): characters are fixed to concrete values (forking)
		uint64_t p = CV(0); int n = (int)CV(1); std::string t; for (int i = 0; i < n; i++) { Val v = loadMem(s, cv(p + i), 8); t += (char)cval(s, v, 8); }
		int isf = (int)CV(4); uint64_t bits = 0; int ec, used; if (isf) { float f = 0; auto r = std::from_chars(t.data(), t.data() + t.size(), f); ec = (int)r.ec; used = r.ptr - t.data(); uint32_t u; memcpy(&u, &f, 4); bits = u; } else { double d = 0; auto r = std::from_chars(t.data(), t.data() + t.size(), d); ec = (int)r.ec; used = r.ptr - t.data(); memcpy(&bits, &d, 8); }
		storeMem(s, cv(CV(2)), cv(bits), 64); storeMem(s, cv(CV(3)), cv(ec), 32); return finishCall(s, I, c, cv(used)); }
	default: problem(s, "call of a function without a body: " + demangle(F->name));
	}
}
// --- threads
static Lock& lockAt(State& s, uint64_t a) { for (auto& l : s.locks) if (l.addr == a) return l; s.locks.push_back({a}); return s.locks.back(); }
static void joinVC(std::array<uint32_t, 6>& a, const std::array<uint32_t, 6>& b) { for (int i = 0; i < 6; i++) a[i] = std::max(a[i], b[i]); }
struct Atomic { // atomic operations order what surrounds them (they are not points where the schedule can change: a stated limit)
	bool on; Atomic(State& s, bool a, Val& p, bool acq, bool rel) : on(a && s.cur) { if (!on) return; atomicAccess = true; uint64_t x = p.e ? evalE(p.e, *s.model) : p.c; Lock& l = lockAt(s, x | 1ull << 63); auto& vc = s.thr[s.cur].vc; if (acq) joinVC(vc, l.vcW); if (rel) { joinVC(l.vcW, vc); vc[s.cur]++; } }
	~Atomic() { atomicAccess = false; }
};
static void swapThread(State& s, Thr& t) { s.fr.swap(t.fr); s.regs.swap(t.regs); s.allocas.swap(t.allocas); s.caught.swap(t.caught); s.jmps.swap(t.jmps); std::swap(s.curExc, t.curExc); std::swap(s.curType, t.curType); std::swap(s.curDtor, t.curDtor); }
static bool lockFree(State& s, int t, uint64_t a, int mode) { // mode: 0 exclusive, 1 shared, +2 try, +4 recursive
	if (mode & 2) return true; Lock& l = lockAt(s, a); if (l.owner) return l.owner == t && (mode & 4); if (mode & 1) return true; for (int r : l.readers) if (r) return false; return true;
}
static void toThread(State& s, int t) { swapThread(s, s.thr[t]); s.cur = t; if (s.thr[t].status == 1) { s.thr[t].status = 0; s.thr[t].granted = true; } else if (s.thr[t].status == 4) s.thr[t].status = 0; }
static void schedule(State& s) { // no thread is current; any thread that can go on may be the next one
	std::vector<int> can; bool all = true; for (size_t t = 1; t < s.thr.size(); t++) { auto& x = s.thr[t]; if (x.status == 2) continue; all = false; if (x.status == 0 || (x.status == 1 && lockFree(s, t, x.lock, x.mode)) || (x.status == 4 && s.thr[x.mode].status == 2)) can.push_back(t); }
	if (all) { swapThread(s, s.thr[0]); s.cur = 0; s.thr.clear(); s.shadow.clear(); for (auto& l : s.locks) if (l.owner) { s.locks.clear(); fail(s, "check", "a lock is left locked"); } s.locks.clear(); return; }
	if (can.empty()) { for (size_t t = 1; t < s.thr.size(); t++) if (s.thr[t].status != 2) { toThread(s, t); break; } fail(s, "check", "the threads wait for each other forever"); }
	if (can.size() > 1) {
		E v; newSym(s, "schedule", 32, v); addCons(s, mkbin(ULT, v, mkc(can.size(), 32)));
		for (size_t i = 1; i < can.size(); i++) { SP k = clone(s); auto m = std::make_shared<Model>(*k->model); (*m)[v->c] = i; k->model = m; addCons(*k, mkeq(v, mkc(i, 32))); k->depth++; st.forks++; toThread(*k, can[i]); work.push_back(std::move(k)); }
		addCons(s, mkeq(v, mkc(0, 32))); s.depth++;
	}
	toThread(s, can[0]);
}
static void threadsStart(State& s, int n, Func* f, uint64_t arg) {
	if (!s.thr.empty() || n < 1 || n > 5) problem(s, "threads started by threads, or too many");
	s.thr.resize(n + 1); swapThread(s, s.thr[0]); s.thr[0].vc[0] = 1;
	for (int t = 1; t <= n; t++) { pushFrame(s, f, -1, 0, -1, true); s.regs[0] = cv(t - 1); s.regs[1] = cv(arg); s.thr[t].vc[t] = 1; swapThread(s, s.thr[t]); }
	schedule(s);
}
static void threadEnd(State& s) { int t = s.cur; swapThread(s, s.thr[t]); s.thr[t].status = 2; s.cur = 0; schedule(s); }
static void threadNew(State& s, Ins& I, CallX* c, Func* f, uint64_t arg) { // started by std::thread; the thread that runs so far becomes the first one
	if (s.thr.empty()) { s.thr.resize(2); s.thr[0].status = 9; s.cur = 1; s.thr[1].vc[1] = 1; } int me = s.cur, t = s.thr.size(); if (t > 5) problem(s, "too many threads");
	finishCall(s, I, c, cv(t)); s.thr.push_back({}); swapThread(s, s.thr[me]); s.thr[t].vc = s.thr[me].vc; s.thr[t].vc[t] = 1; s.thr[me].vc[me]++;
	pushFrame(s, f, -1, 0, -1, true); s.regs[0] = cv(arg); swapThread(s, s.thr[t]); s.cur = 0; schedule(s);
}
static void threadJoin(State& s, Ins& I, CallX* c, int t) {
	if (t < 1 || t >= (int)s.thr.size() || t == s.cur) fail(s, "check", "waits for the end of a wrong thread"); Thr& x = s.thr[s.cur];
	if (s.thr[t].status == 2) { joinVC(x.vc, s.thr[t].vc); return finishCall(s, I, c, cv(0)); }
	s.fr.back().pc--; x.status = 4; x.mode = t; swapThread(s, x); s.cur = 0; schedule(s);
}
static void condWait(State& s, Ins& I, CallX* c, uint64_t a, uint64_t m) {
	int t = s.cur; if (!t) fail(s, "check", "the threads wait for each other forever"); Thr& x = s.thr[t]; Lock& l = lockAt(s, m);
	if (x.granted) { x.granted = false; joinVC(x.vc, l.vcW); joinVC(x.vc, l.vcR); l.owner = t; l.count = 1; return finishCall(s, I, c, cv(0)); }
	if (l.owner != t) fail(s, "check", "a lock is unlocked that is not locked");
	joinVC(l.vcW, x.vc); x.vc[t]++; l.owner = l.count = 0; s.fr.back().pc--; x.status = 3; x.lock = a; x.mutex = m; swapThread(s, x); s.cur = 0; schedule(s);
}
static void condWake(State& s, uint64_t a, bool all) { for (auto& x : s.thr) if (x.status == 3 && x.lock == a) { x.status = 1; x.lock = x.mutex; x.mode = 0; if (!all) return; } }
static void syncAt(State& s, uint64_t a, bool rel) { if (!s.cur) return; Lock& l = lockAt(s, a | 1ull << 63); auto& vc = s.thr[s.cur].vc; if (rel) { joinVC(l.vcW, vc); vc[s.cur]++; } else joinVC(vc, l.vcW); }
static void lockCall(State& s, Ins& I, CallX* c, uint64_t a, int mode) {
	int t = s.cur; if (!t) return finishCall(s, I, c, cv(0));
	if (!(mode & 1) && lockAt(s, a).owner == t && !(mode & 8)) { Val kind = loadMem(s, cv(a + 16), 32); if (!kind.e && kind.c == 1) mode |= 4; }
	mode &= 7; Thr& x = s.thr[t];
	if (!x.granted) { s.fr.back().pc--; x.status = 1; x.lock = a; x.mode = mode; swapThread(s, x); s.cur = 0; schedule(s); return; }
	x.granted = false; Lock& l = lockAt(s, a);
	if (!lockFree(s, t, a, mode & ~2)) return finishCall(s, I, c, cv(16)); // EBUSY
	joinVC(x.vc, l.vcW); if (mode & 1) l.readers[t]++; else { joinVC(x.vc, l.vcR); l.owner = t; l.count++; }
	finishCall(s, I, c, cv(0));
}
static void unlockCall(State& s, Ins& I, CallX* c, uint64_t a) {
	int t = s.cur; if (!t) return finishCall(s, I, c, cv(0)); Lock& l = lockAt(s, a); auto& vc = s.thr[t].vc;
	if (l.owner == t) { joinVC(l.vcW, vc); if (!--l.count) l.owner = 0; } else if (l.readers[t]) { joinVC(l.vcR, vc); l.readers[t]--; } else fail(s, "check", "a lock is unlocked that is not locked");
	vc[t]++; finishCall(s, I, c, cv(0));
}
static void doCmp(State& s, Ins& I) {
	Val a = get(s, I.a), b = get(s, I.b); int w = I.w;
	auto P = (CmpInst::Predicate)I.sub;
	if (!a.e && !b.e) {
		uint64_t x = a.c & maskw(w), y = b.c & maskw(w); bool r = false;
		switch (P) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break;
		case CmpInst::ICMP_SLT: r = sx(x, w) < sx(y, w); break; case CmpInst::ICMP_SLE: r = sx(x, w) <= sx(y, w); break; case CmpInst::ICMP_SGT: r = sx(x, w) > sx(y, w); break; case CmpInst::ICMP_SGE: r = sx(x, w) >= sx(y, w); break; default: break; }
		reg(s, I.dst) = cv(r); return;
	}
	E x = ex(a, w), y = ex(b, w), r;
	switch (P) { case CmpInst::ICMP_EQ: r = mkeq(x, y); break; case CmpInst::ICMP_NE: r = mknot(mkeq(x, y)); break; case CmpInst::ICMP_ULT: r = mkbin(ULT, x, y); break; case CmpInst::ICMP_ULE: r = mkbin(ULE, x, y); break; case CmpInst::ICMP_UGT: r = mkbin(ULT, y, x); break; case CmpInst::ICMP_UGE: r = mkbin(ULE, y, x); break;
	case CmpInst::ICMP_SLT: r = mkbin(SLT, x, y); break; case CmpInst::ICMP_SLE: r = mkbin(SLE, x, y); break; case CmpInst::ICMP_SGT: r = mkbin(SLT, y, x); break; default: r = mkbin(SLE, y, x); break; }
	reg(s, I.dst) = ve(r);
}
static void doFcmp(State& s, Ins& I) {
	Val a = get(s, I.a), b = get(s, I.b); int w = I.w; E x = ex(a, w), y = ex(b, w);
	E uno = mkfp(FUNO, x, y, 1), r; auto P = (CmpInst::Predicate)I.sub;
	auto base = [&](int q) -> E { switch (q) { case 1: return mkfp(FEQ, x, y, 1); case 2: return mkfp(FLT, y, x, 1); case 3: return mkfp(FLE, y, x, 1); case 4: return mkfp(FLT, x, y, 1); case 5: return mkfp(FLE, x, y, 1); case 6: return mkand(mknot(mkfp(FEQ, x, y, 1)), mknot(uno)); case 7: return mknot(uno); default: return mkc(0, 1); } };
	int p = (int)P; // FCMP_FALSE=0, OEQ=1, OGT=2, OGE=3, OLT=4, OLE=5, ONE=6, ORD=7, UNO=8, UEQ=9, ..., UNE=14, TRUE=15
	if (p == 15) r = mkc(1, 1); else if (p == 8) r = uno; else if (p < 8) r = base(p); else r = mkor(uno, base(p - 8));
	reg(s, I.dst) = ve(r);
}
static void doCast(State& s, Ins& I) {
	Val a = get(s, I.a); int w = I.w, w2 = I.w2;
	switch (I.sub) {
	case Instruction::Trunc: reg(s, I.dst) = a.e ? ve(mkextract(a.e, 0, w)) : cv(a.c & maskw(w)); return;
	case Instruction::ZExt: reg(s, I.dst) = a.e ? ve(mkzext(a.e, w)) : cv(a.c & maskw(w2)); return;
	case Instruction::SExt: reg(s, I.dst) = a.e ? ve(mksext(a.e, w)) : cv((uint64_t)sx(a.c, w2) & maskw(w)); return;
	case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::AddrSpaceCast:
		if (a.e && w != w2) { reg(s, I.dst) = ve(w < w2 ? mkextract(a.e, 0, w) : mkzext(a.e, w)); return; }
		reg(s, I.dst) = a.e ? a : cv(a.c & maskw(w)); return;
	case Instruction::FPExt: case Instruction::FPTrunc: reg(s, I.dst) = ve(mkfp(FCVT, ex(a, w2), nullptr, w)); return;
	case Instruction::FPToSI: reg(s, I.dst) = ve(mkfp(FTOSI, ex(a, w2), nullptr, w)); return;
	case Instruction::FPToUI: reg(s, I.dst) = ve(mkfp(FTOUI, ex(a, w2), nullptr, w)); return;
	case Instruction::SIToFP: reg(s, I.dst) = ve(mkfp(SITOF, ex(a, w2), nullptr, w)); return;
	case Instruction::UIToFP: reg(s, I.dst) = ve(mkfp(UITOF, ex(a, w2), nullptr, w)); return;
	default: problem(s, "cast");
	}
}
static int sinceCheck = 0;
static void step(State& s) {
	Frame& f = s.fr.back(); Ins& I = f.f->code[f.pc]; f.pc++; s.steps++; st.steps++;
	switch (I.op) {
	case O_BIN: {
		Val a = get(s, I.a), b = get(s, I.b); K k = (K)I.sub;
		if ((k == UDIV || k == SDIV || k == UREM || k == SREM)) {
			E z = mkeq(ex(b, I.w), mkc(0, I.w)); if (branchRedo(s, z)) fail(s, "arith", "division-by-zero");
		}
		if (!a.e && !b.e) reg(s, I.dst) = cv(evalBin(k, a.c & maskw(I.w), b.c & maskw(I.w), I.w)); else reg(s, I.dst) = ve(mkbin(k, ex(a, I.w), ex(b, I.w))); break; }
	case O_FBIN: { Val a = get(s, I.a), b = get(s, I.b); reg(s, I.dst) = ve(mkfp((K)I.sub, ex(a, I.w), ex(b, I.w), I.w)); break; }
	case O_FNEG: { Val a = get(s, I.a); reg(s, I.dst) = ve(mkbin(XOR, ex(a, I.w), mkc(1ull << (I.w - 1), I.w))); break; }
	case O_CMP: doCmp(s, I); break;
	case O_FCMP: doFcmp(s, I); break;
	case O_CAST: doCast(s, I); break;
	case O_LOAD: {
		Val p = get(s, I.a); Atomic at(s, I.sub, p, true, false);
		if (I.w) { Val v = loadMem(s, p, I.w); reg(s, I.dst) = v; }
		else { uint64_t a = cval(s, p, 64); int i = 0; for (auto& l : f.f->leaves[I.imm]) { Val v = loadMem(s, cv(a + l.off), l.w); reg(s, I.dst + i++) = v; } }
		break; }
	case O_STORE: {
		Val p = get(s, I.a); Atomic at(s, I.sub, p, false, true);
		if (I.w) storeMem(s, p, get(s, I.b), I.w);
		else { uint64_t a = cval(s, p, 64); int i = 0; for (auto& l : f.f->leaves[I.imm]) storeMem(s, cv(a + l.off), get(s, I.b, i++), l.w); }
		break; }
	case O_GEP: {
		GepX* g = (GepX*)I.x; Val p = get(s, I.a); uint64_t c = g->off; E sym = nullptr; if (p.e) sym = p.e; else c += p.c;
		for (size_t i = 0; i < g->idx.size(); i++) { Val v = get(s, g->idx[i].first); int w = g->iw[i]; if (!v.e) c += (uint64_t)sx(v.c, w) * g->idx[i].second; else { E t = mkbin(MUL, mksext(v.e, 64), mkc(g->idx[i].second, 64)); sym = sym ? mkbin(ADD, sym, t) : t; } }
		if (!sym) reg(s, I.dst) = cv(c); else reg(s, I.dst) = ve(mkbin(ADD, sym, mkc(c, 64)));
		break; }
	case O_ALLOCA: { Val n = get(s, I.a); uint64_t nn = cval(s, n, 64); uint64_t a = allocObj(s, I.imm * nn, OK_STACK); s.allocas.push_back(a); reg(s, I.dst) = cv(a); break; }
	case O_BR: takeEdge(s, I.b.v); if (++sinceCheck > 4096) sinceCheck = 0; break;
	case O_CBR: {
		Val c = get(s, I.a);
		if (!c.e) { takeEdge(s, (c.c & 1) ? I.b.v : I.c.v); break; }
		SP sib; bool v = branch(s, c.e, sib);
		if (sib) { takeEdge(*sib, v ? I.c.v : I.b.v); work.push_back(std::move(sib)); }
		takeEdge(s, v ? I.b.v : I.c.v); break; }
	case O_SWITCH: {
		SwX* sw = (SwX*)I.x; Val c = get(s, I.a);
		if (!c.e) { uint64_t v = c.c & maskw(I.w); int t = sw->def; for (auto& k : sw->cases) if (k.first == v) { t = k.second; break; } takeEdge(s, t); break; }
		std::map<int, E> byEdge; E any = mkc(0, 1);
		for (auto& k : sw->cases) { E q = mkeq(c.e, mkc(k.first, I.w)); any = mkor(any, q); if (k.second == sw->def) continue; auto it = byEdge.find(k.second); if (it == byEdge.end()) byEdge[k.second] = q; else it->second = mkor(it->second, q); }
		E other = mkc(0, 1); for (auto& kv : byEdge) other = mkor(other, kv.second);
		E defc = mknot(other); byEdge[sw->def] = defc;
		int mine = -1; std::vector<std::pair<int, E>> alt;
		for (auto& kv : byEdge) { if (isc(kv.second) ? kv.second->c : evalE(kv.second, *s.model)) mine = kv.first; else alt.push_back(kv); }
		for (auto& kv : alt) { std::shared_ptr<Model> nm; int r = solve(s, kv.second, nm); if (r == -1) problem(s, "solver gave no answer (switch)"); if (r == 1) { SP k = clone(s); k->model = nm; addCons(*k, kv.second); k->depth++; st.forks++; takeEdge(*k, kv.first); work.push_back(std::move(k)); } }
		addCons(s, byEdge[mine]); takeEdge(s, mine); break; }
	case O_RET: {
		int n = std::min<int>(I.imm, f.retSlots); tmpv.clear(); for (int i = 0; i < n; i++) tmpv.push_back(get(s, I.a, i));
		int dst = f.retDst; bool drop = f.dropRet; popFrameMem(s); s.fr.pop_back();
		if (s.fr.empty()) { if (s.cur && !(s.cur == 1 && s.thr[0].status == 9)) { threadEnd(s); break; } for (size_t t = 2; t < s.thr.size() && s.cur; t++) if (s.thr[t].status != 2) fail(s, "check", "a thread is left running"); pathEnd(s); }
		if (!drop) {
			Frame& p = s.fr.back(); for (size_t i = 0; i < tmpv.size() && dst >= 0; i++) s.regs[p.base + dst + i] = tmpv[i];
			Ins& ci = p.f->code[p.pc - 1]; CallX* c = (CallX*)ci.x; if (ci.op == O_INVOKE) takeEdge(s, c->normal);
		}
		break; }
	case O_CALL: case O_INVOKE: {
		CallX* c = (CallX*)I.x;
		if (c->intr) { callIntrinsic(s, I, c); break; }
		Func* F = c->direct;
		if (!F) { Val t = get(s, c->target); uint64_t a = cval(s, t, 64); auto it = funcAt.find(a); if (it == funcAt.end()) fail(s, "memory", "call-of-invalid-pointer"); F = it->second; }
		enterCall(s, I, c, F); break; }
	case O_RESUME: { uint64_t e = get(s, I.a).c; auto i = excInfo(s, e); pushFrame(s, f.f, -1, 0, -1); unwind(s, e, i.first, i.second); break; }
	case O_UNREACH: fail(s, "unreachable", "reached unreachable code");
	case O_SELECT: {
		Val c = get(s, I.a); auto& lv = s.fr.back().f->leaves[I.imm];
		if (!c.e) { Opd o = (c.c & 1) ? I.b : I.c; tmpv.clear(); for (size_t i = 0; i < lv.size(); i++) tmpv.push_back(get(s, o, i)); for (size_t i = 0; i < lv.size(); i++) reg(s, I.dst + i) = tmpv[i]; break; }
		if (I.w2) { bool v = branchRedo(s, c.e); reg(s, I.dst) = get(s, v ? I.b : I.c); break; }
		tmpv.clear(); for (size_t i = 0; i < lv.size(); i++) tmpv.push_back(ve(mkite(c.e, ex(get(s, I.b, i), lv[i].w), ex(get(s, I.c, i), lv[i].w))));
		for (size_t i = 0; i < lv.size(); i++) reg(s, I.dst + i) = tmpv[i];
		break; }
	case O_EXTRACT: case O_COPY: { tmpv.clear(); for (uint64_t i = 0; i < I.imm; i++) tmpv.push_back(get(s, I.a, i)); for (uint64_t i = 0; i < I.imm; i++) reg(s, I.dst + i) = tmpv[i]; break; }
	case O_INSERT: { tmpv.clear(); for (uint64_t i = 0; i < I.imm; i++) tmpv.push_back(get(s, I.a, i)); for (int i = 0; i < I.sub; i++) tmpv[I.c.v + i] = get(s, I.b, i); for (uint64_t i = 0; i < I.imm; i++) reg(s, I.dst + i) = tmpv[i]; break; }
	case O_RMW: {
		Val p = get(s, I.a), v = get(s, I.b); Atomic at(s, true, p, true, true); Val old = loadMem(s, p, I.w); E o = ex(old, I.w), n = ex(v, I.w), r;
		switch (I.sub) { case AtomicRMWInst::Add: r = mkbin(ADD, o, n); break; case AtomicRMWInst::Sub: r = mkbin(SUB, o, n); break; case AtomicRMWInst::Xchg: r = n; break; case AtomicRMWInst::Or: r = mkbin(OR, o, n); break; case AtomicRMWInst::And: r = mkbin(AND, o, n); break; default: problem(s, "atomicrmw"); }
		storeMem(s, p, ve(r), I.w); reg(s, I.dst) = old; break; }
	case O_CMPXCHG: { Val p = get(s, I.a); Atomic at(s, true, p, true, true); Val old = loadMem(s, p, I.w); E eq = mkeq(ex(old, I.w), ex(get(s, I.b), I.w)); bool v = branchRedo(s, eq); if (v) storeMem(s, p, get(s, I.c), I.w); reg(s, I.dst) = old; reg(s, I.dst + 1) = cv(v); break; }
	case O_NOP: break;
	case O_LANDING: problem(s, "landing pad reached by fall-through");
	default: { std::string t; raw_string_ostream os(t); I.I->print(os); problem(s, "unsupported instruction " + t.substr(0, 120)); }
	}
}

// ------------------------------------------------------------------ driver
static void setupGlobals() {
	for (auto& f : *mod) if (!f.isIntrinsic()) getFunc(&f);
	for (auto& g : mod->globals()) {
		uint64_t sz = DL->getTypeAllocSize(g.getValueType()); if (g.isDeclaration()) sz = std::max<uint64_t>(sz, 64);
		uint64_t al = std::max<uint64_t>(16, g.getAlign() ? g.getAlign()->value() : 16);
		nextGlobal = (nextGlobal + al - 1) / al * al; globalAddr[&g] = nextGlobal;
		Obj* o = new Obj; o->base = nextGlobal; o->size = sz; o->kind = g.isConstant() ? OK_CONST : OK_GLOBAL; o->d.assign(sz, 0); nextGlobal += sz + 32;
		globalObjs.push_back(ObjP(o));
		std::string n = g.getName().str();
		if (n == "_ZTVN10__cxxabiv120__si_class_type_infoE") vtSI = o->base + 16;
		if (n == "_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVMI = o->base + 16;
		if (n == "_ZTVN10__cxxabiv117__class_type_infoE") vtClass = o->base + 16;
	}
	int i = 0; for (auto& g : mod->globals()) { if (g.hasInitializer()) initBytes(g.getInitializer(), globalObjs[i].p->d, 0); i++; }
}
static bool budgetOver = false;
static std::string budgetWhy;
static int* sharedStop; static uint64_t* sharedSteps;
static int* sharedCount; static int workerId; static double lastSplit;
// shares the pending states with a new worker if there is place for one; true in the new worker
static bool split() {
	if (work.size() < 2 || sharedCount[1] <= 0 || nowS() - lastSplit < 0.03) return false;
	if (__sync_fetch_and_add(&sharedCount[1], -1) <= 0) { __sync_fetch_and_add(&sharedCount[1], 1); return false; }
	lastSplit = nowS();
	int id = __sync_fetch_and_add(&sharedCount[0], 1);
	pid_t p = fork();
	if (p < 0) { __sync_fetch_and_add(&sharedCount[1], 1); problems["cannot fork a worker"]++; return false; }
	std::deque<SP> part; bool keep = p == 0;
	for (auto& w : work) { if (keep) part.push_back(std::move(w)); keep = !keep; }
	work = std::move(part);
	if (p) return false;
	workerId = id; st = Stats(); violations.clear(); knownViol = 0; covers.clear(); tagsChecked.clear(); problems.clear(); samples.clear(); firstViolT = 0;
	return true;
}
static void runOne(SP s) {
	st.paths++;
	try {
		int n = 0;
		while (true) {
			step(*s);
			if (++n >= 2048) {
				n = 0;
				if (nowS() - tStart > opt.timeLimit) { budgetOver = true; budgetWhy = "time limit"; return; }
				if (*sharedStop) { budgetOver = true; budgetWhy = "stopped by another worker"; return; }
				if (s->steps > opt.maxSteps) { emit(*s, "limit", "instruction limit on one path (possible endless loop)", *s->model, where(*s)); st.limits++; return; }
				if (split()) return;
			}
		}
	} catch (EndPath&) {}
	if (s) st.maxPath = std::max(st.maxPath, s->steps);
}
static std::string jesc(const std::string& x) { std::string r; for (unsigned char c : x) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r; }
static void writeOut(FILE* f) {
	fprintf(f, "{\"stats\":{\"paths\":%llu,\"paths_completed\":%llu,\"assume_pruned\":%llu,\"forks\":%llu,\"instructions\":%llu,\"solver_queries\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"cache_hits\":%llu,\"model_hits\":%llu,\"assertions\":%llu,\"assertions_by_solver\":%llu,\"symbolic_memory_checks\":%llu,\"limits\":%llu,\"max_constraints\":%llu,\"max_symbolic_vars\":%llu,\"max_path_instructions\":%llu,\"solver_s\":%.3f},",
		(unsigned long long)st.paths, (unsigned long long)st.pathsDone, (unsigned long long)st.infeasible, (unsigned long long)st.forks, (unsigned long long)st.steps, (unsigned long long)st.queries, (unsigned long long)st.sat, (unsigned long long)st.unsat, (unsigned long long)st.unknown, (unsigned long long)st.cacheHits, (unsigned long long)st.modelHits, (unsigned long long)st.asserts, (unsigned long long)st.assertsQ, (unsigned long long)st.memChecks, (unsigned long long)st.limits, (unsigned long long)st.maxConstraints, (unsigned long long)st.maxVars, (unsigned long long)st.maxPath, st.solverT);
	fprintf(f, "\"budget_over\":\"%s\",\"pending\":%zu,", jesc(budgetWhy).c_str(), work.size());
	auto mp = [&](const char* n, std::map<std::string, uint64_t>& m) { fprintf(f, "\"%s\":{", n); bool a = false; for (auto& kv : m) { fprintf(f, "%s\"%s\":%llu", a ? "," : "", jesc(kv.first).c_str(), (unsigned long long)kv.second); a = true; } fprintf(f, "},"); };
	mp("covers", covers); mp("tags", tagsChecked); mp("problems", problems);
	fprintf(f, "\"functions\":["); bool a = false; for (auto& x : funcsRun) { fprintf(f, "%s\"%s\"", a ? "," : "", jesc(x).c_str()); a = true; }
	fprintf(f, "],\"samples\":["); a = false;
	for (auto& kv : samples) for (auto& v : kv.second) { fprintf(f, "%s{\"covers\":[", a ? "," : ""); a = true; bool b = false; for (auto& c : v.covers) { fprintf(f, "%s\"%s\"", b ? "," : "", jesc(c).c_str()); b = true; } fprintf(f, "],\"inputs\":["); b = false; for (auto& i : v.inputs) { fprintf(f, "%s[\"%s\",%s]", b ? "," : "", jesc(i.first).c_str(), i.second.c_str()); b = true; } fprintf(f, "]}"); }
	fprintf(f, "],\"violations\":["); a = false;
	for (auto& kv : violations) { auto& v = kv.second; fprintf(f, "%s{\"kind\":\"%s\",\"tag\":\"%s\",\"loc\":\"%s\",\"inputs\":[", a ? "," : "", jesc(v.kind).c_str(), jesc(v.tag).c_str(), jesc(v.loc).c_str()); a = true; bool b = false; for (auto& i : v.inputs) { fprintf(f, "%s[\"%s\",%s]", b ? "," : "", jesc(i.first).c_str(), i.second.c_str()); b = true; } fprintf(f, "]}"); }
	fprintf(f, "]}\n");
}
static bool stopNow() {
	if (budgetOver) return true;
	if (nowS() - tStart > opt.timeLimit) { budgetOver = true; budgetWhy = "time limit"; return true; }
	if (firstViolT && nowS() - firstViolT > opt.afterViol) { budgetOver = true; budgetWhy = "stopped after violations"; return true; }
	if ((int)violations.size() - knownViol >= opt.maxViol) { budgetOver = true; budgetWhy = "stopped after violations"; return true; }
	return *sharedStop != 0;
}
int main(int argc, char** argv) {
	tStart = nowS();
	std::string in; bool dump = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto val = [&](const char* p) -> const char* { size_t n = strlen(p); return a.compare(0, n, p) == 0 ? a.c_str() + n : nullptr; };
		if (auto v = val("--time=")) opt.timeLimit = atof(v); else if (auto v = val("--steps=")) opt.maxSteps = atoll(v); else if (auto v = val("--workers=")) opt.workers = atoi(v); else if (auto v = val("--out=")) opt.out = v; else if (auto v = val("--entry=")) opt.entry = v;
		else if (auto v = val("--param=")) { std::string s = v; size_t q = s.find('='); opt.params[s.substr(0, q)] = atoll(s.substr(q + 1).c_str()); } else if (a == "--no-inline") opt.inlineIt = false; else if (a == "--trace") opt.trace = true; else if (auto v = val("--max-viol=")) opt.maxViol = atoi(v); else if (auto v = val("--after-viol=")) opt.afterViol = atof(v); else if (auto v = val("--z3-timeout=")) opt.z3TimeoutMs = atoi(v); else if (a == "--dump") dump = true; else if (auto v = val("--known=")) opt.known.insert(v); else if (auto v = val("--mem=")) opt.memMB = atoll(v);
		else in = a;
	}
	{ const char* av[] = {"symex", "-two-entry-phi-node-folding-threshold=0", "-phi-node-folding-threshold=0"}; cl::ParseCommandLineOptions(3, av); }
	SMDiagnostic err; mod = parseIRFile(in, err, lctx);
	if (!mod) { err.print("symex", errs()); return 95; }
	DL = &mod->getDataLayout();
	if (!mod->getFunction(opt.entry)) { fprintf(stderr, "ENGINE: no entry function %s\n", opt.entry.c_str()); return 95; }
	{
		internalizeModule(*mod, [&](const GlobalValue& g) { return g.getName() == opt.entry || g.getName() == "llvm.global_ctors"; });
		for (auto& f : *mod) { f.removeFnAttr(Attribute::OptimizeNone); if (f.hasFnAttribute(Attribute::NoInline) && f.getName().find("sym_") == StringRef::npos) f.removeFnAttr(Attribute::NoInline); }
		LoopAnalysisManager lam; FunctionAnalysisManager fam; CGSCCAnalysisManager cam; ModuleAnalysisManager mam; PassBuilder pb;
		pb.registerModuleAnalyses(mam); pb.registerCGSCCAnalyses(cam); pb.registerFunctionAnalyses(fam); pb.registerLoopAnalyses(lam); pb.crossRegisterProxies(lam, fam, cam, mam);
		ModulePassManager pm;
		pm.addPass(GlobalDCEPass());
		auto fp = [&] { FunctionPassManager fpm; fpm.addPass(SROAPass(SROAOptions::ModifyCFG)); fpm.addPass(SimplifyCFGPass(SimplifyCFGOptions().convertSwitchToLookupTable(false).speculateBlocks(false).hoistCommonInsts(false).sinkCommonInsts(false))); return fpm; };
		pm.addPass(createModuleToFunctionPassAdaptor(fp()));
		if (opt.inlineIt) {
			InlineParams ip = getInlineParams(60);
			pm.addPass(AlwaysInlinerPass());
			pm.addPass(ModuleInlinerWrapperPass(ip));
			pm.addPass(createModuleToFunctionPassAdaptor(fp()));
			pm.addPass(GlobalDCEPass());
		}
		pm.run(*mod, mam);
	}
	if (dump) { mod->print(outs(), nullptr); return 0; }
	setupGlobals();
	double tPrep = nowS() - tStart;
	initSolver();
	sharedStop = (int*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	sharedCount = sharedStop + 1;
	// initial state: run constructors concretely, then the entry
	SP s0 = std::make_unique<State>(); s0->model = std::make_shared<Model>();
	std::vector<std::pair<uint32_t, Function*>> ctors;
	if (auto gc = mod->getGlobalVariable("llvm.global_ctors")) if (auto ca = dyn_cast<ConstantArray>(gc->getInitializer()))
		for (auto& o : ca->operands()) { auto st = cast<ConstantStruct>(o); if (auto f = dyn_cast<Function>(st->getOperand(1)->stripPointerCasts())) ctors.push_back({(uint32_t)cast<ConstantInt>(st->getOperand(0))->getZExtValue(), f}); }
	std::stable_sort(ctors.begin(), ctors.end(), [](auto& a, auto& b) { return a.first < b.first; });
	// stack of frames executed in order: entry at the bottom, constructors above it (last pushed runs first)
	pushFrame(*s0, getFunc(mod->getFunction(opt.entry)), -1, 0, -1); s0->fr.back().dropRet = true;
	for (size_t i = ctors.size(); i-- > 0;) pushFrame(*s0, getFunc(ctors[i].second), -1, 0, -1, true);
	work.push_back(std::move(s0));
	// one worker starts; whenever there are fewer workers than allowed, a worker with several pending states forks another and shares them
	FILE* out = opt.out.empty() ? stdout : fopen(opt.out.c_str(), "w");
	fprintf(out, "{\"prep_s\":%.2f}\n", tPrep);
	auto workerFile = [mainPid = getpid()] (int w) { char fn[64]; snprintf(fn, 64, "/tmp/symex.%d.%d.json", mainPid, w); return std::string(fn); };
	sharedCount[0] = 1; sharedCount[1] = std::max(1, opt.workers) - 1; // workers started, places left
	fflush(out); fflush(stderr);
	prctl(PR_SET_CHILD_SUBREAPER, 1);
	pid_t first = fork();
	if (first == 0) {
		struct rlimit rl = {opt.memMB << 20, opt.memMB << 20}; setrlimit(RLIMIT_AS, &rl);
		signal(SIGCHLD, SIG_IGN); lastSplit = nowS();
		while (!work.empty() && !stopNow()) { split(); SP t = std::move(work.back()); work.pop_back(); runOne(std::move(t)); }
		if (budgetOver && budgetWhy == "stopped after violations") *sharedStop = 1;
		__sync_fetch_and_add(&sharedCount[1], 1);
		std::string fn = workerFile(workerId), tmp = fn + ".part";
		FILE* f = fopen(tmp.c_str(), "w"); writeOut(f); fclose(f); rename(tmp.c_str(), fn.c_str()); _exit(0);
	}
	while (waitpid(-1, nullptr, 0) >= 0 || errno == EINTR);
	for (int w = 0; w < sharedCount[0]; w++) {
		std::string fn = workerFile(w); FILE* f = fopen(fn.c_str(), "r");
		if (!f) { fprintf(out, "{\"worker_failed\":%d}\n", w); unlink((fn + ".part").c_str()); continue; }
		char buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) fwrite(buf, 1, n, out); fclose(f); unlink(fn.c_str());
	}
	fprintf(out, "{\"wall_s\":%.2f}\n", nowS() - tStart);
	fclose(out);
	_exit(0);
}
