// Core of the simulator: randomness, plan, tasks (fibers), seams, simulated heap.
#pragma once
#include <algorithm>
#include <climits>
#include <cmath>
#include <cfloat>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include <type_traits>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#include <fcntl.h>
#include "include/scclust.h"
#include "include/scclust_spi.h"
extern "C" {
#include "src/dist_search.h"
}
#if HAVE_ANN
#include "ann/ann_wrapper.h"
#endif
#if HAVE_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif
typedef uint64_t u64;
typedef int64_t i64;
typedef std::string str;
typedef scc_PointIndex PI;
typedef scc_Clabel CL;
static const i64 NAQ = LLONG_MIN;
static const u64 CLMAX = (u64)(SIM_CLABEL_MAX), PIMAX = (u64)(SIM_POINT_MAX), ARCMAX = (u64)(SIM_ARC_MAX);

// ---------------------------------------------------------------- randomness
static inline u64 mix(u64 x) { x += 0x9E3779B97F4A7C15ull; x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull; x = (x ^ (x >> 27)) * 0x94D049BB133111EBull; return x ^ (x >> 31); }
static inline u64 H(u64 a) { return mix(a); }
template <class... T> static inline u64 H(u64 a, T... r) { return mix(a * 0x100000001B3ull ^ H((u64)r...)); }
static inline double U01(u64 h) { return (double)(h >> 11) * (1.0 / 9007199254740992.0); }
struct Rng {
	u64 s;
	explicit Rng(u64 x) : s(mix(x)) {}
	u64 next() { s += 0x9E3779B97F4A7C15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	i64 range(i64 a, i64 b) { return a + (i64)below((u64)(b - a + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
	u64 hv() { return next() & 0x7fffffffull; }
};

// ---------------------------------------------------------------- plan
struct Line {
	str kind;
	std::vector<std::pair<str, i64>> kv;
	Line() {}
	explicit Line(const char* k) : kind(k) {}
	Line& set(const char* k, i64 v) { for (auto& p : kv) if (p.first == k) { p.second = v; return *this; } kv.emplace_back(k, v); return *this; }
	bool has(const char* k) const { for (auto& p : kv) if (p.first == k) return true; return false; }
	i64 g(const char* k, i64 d = 0) const { for (auto& p : kv) if (p.first == k) return p.second; return d; }
	str text() const { str s = kind; for (auto& p : kv) { s += ' '; s += p.first; s += '='; s += std::to_string(p.second); } return s; }
};
struct Fault { int task, op, att, kind, mode; u64 idx, p; };
struct Plan {
	str profile;
	Line knob{"knob"};
	std::vector<Line> datas, ops;
	std::vector<Fault> faults;
	std::map<std::vector<u64>, int> preempts; // task,op,att,seam -> target
	bool adaptive = false;
	u64 seed = 0;
};
static Plan P;

enum Kind { K_ALLOC, K_CHECK, K_MATRIX, K_ROWS, K_MDINIT, K_MDGET, K_MDCLOSE, K_NNINIT, K_NNSEARCH, K_NNCLOSE, K_NUM, K_FREE, K_BOUNDARY, NK, K_BACK = 20 };
static const char* KN[] = {"alloc", "check", "matrix", "rows", "mdinit", "mdget", "mdclose", "nninit", "nnsearch", "nnclose", "num", "free", "boundary"};
enum FMode { F_NTH, F_FROM, F_RANGE, F_SIZE, F_EVERY };
static const char* FMN[] = {"nth", "from", "range", "size", "every"};

// ---------------------------------------------------------------- statistics
struct Stats {
	u64 runs = 0, ops = 0, attempts = 0, refruns = 0, ticks = 0, switches = 0, foreign = 0, survived = 0, natural_oom = 0, oracles = 0, reused = 0;
	u64 fired[NK] = {0};
	u64 fmodes[5] = {0};
	std::map<str, u64> ec;      // op kind / outcome
	std::map<str, u64> feat;    // covered features
	std::unordered_set<u64> traces, scheds, sites, states;
	u64 hash = 0;
};
static Stats ST;
static const char* ECN[] = {"OK", "UNKNOWN_ERROR", "INVALID_INPUT", "NO_MEMORY", "NO_SOLUTION", "TOO_LARGE", "DIST_SEARCH", "NOT_IMPLEMENTED"};
static const char* ecn(int e) { return e >= 0 && e < 8 ? ECN[e] : "?"; }

// ---------------------------------------------------------------- tasks
enum Mode { M_HARNESS, M_REF, M_LIVE };
struct Ctr { u64 c[NK]; u64 total, back; void clear() { memset(this, 0, sizeof *this); } };
struct Task {
	int id = 0;
	ucontext_t uc;
	void* stack = nullptr;
	size_t ssz = 0;
	void* fake = nullptr;
	bool started = false, done = false;
	std::vector<int> ops;
	int mode = M_HARNESS;
	int op = -1, att = 0;          // current op (global index), attempt
	Ctr ctr;
	u64 fired[NK];                 // faults injected in this attempt
	bool natural = false;          // the simulated machine ran out of memory by itself
	bool inner_fail = false;       // a real backend behind the proxy reported failure
	bool switched = false;         // another task ran since the call began
	bool incall = false;           // inside a library call
	bool refault = false, inject = false;          // the undisturbed environment repeats the faults of the call being judged
	u64 pre_h = 0;                 // seams passed before the first fault of the call
	bool hit = false;
	std::vector<Fault> cur_faults;
	u64 budget = 0;
	void* client = nullptr;
	void* wrap_last = nullptr;     // array the ANN wrapper allocated last, if nothing followed
};
static Task MAIN;
static Task* cur = &MAIN;
static std::vector<Task*> tasks;
static bool aborting = false;
static u64 trace_h = 0, sched_h = 0;
static FILE* plan_stream = nullptr;

static void emit_plan_line(const str& s) { if (plan_stream) { fputs(s.c_str(), plan_stream); fputc('\n', plan_stream); fflush(plan_stream); } }
static str fault_text(const Fault& f) {
	char b[200];
	snprintf(b, sizeof b, "fault task=%d op=%d att=%d kind=%d mode=%d idx=%llu p=%llu", f.task, f.op, f.att, f.kind, f.mode, (unsigned long long)f.idx, (unsigned long long)f.p);
	return b;
}
static str preempt_text(const std::vector<u64>& k, int to) {
	char b[200];
	snprintf(b, sizeof b, "preempt task=%llu op=%llu att=%llu seam=%llu to=%d", (unsigned long long)k[0], (unsigned long long)k[1], (unsigned long long)k[2], (unsigned long long)k[3], to);
	return b;
}
static str plan_text() {
	str s = "profile " + P.profile + "\n" + P.knob.text() + "\n";
	for (auto& l : P.datas) s += l.text() + "\n";
	for (auto& l : P.ops) s += l.text() + "\n";
	for (auto& f : P.faults) s += fault_text(f) + "\n";
	for (auto& p : P.preempts) s += preempt_text(p.first, p.second) + "\n";
	return s;
}

// ---------------------------------------------------------------- violations
struct Viol { std::set<str> tags; str msg; };
static std::vector<Viol> pend;
static str want_check;             // property being checked ("" = any)
static str plan_out;
static void switch_to(Task* to);
static bool json_mode = true;
static str jesc(const str& s) { str o; for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if (c < 32) o += ' '; else o += c; } return o; }
static std::set<str> split_tags(const char* t) { std::set<str> r; str c; for (const char* p = t;; ++p) { if (*p == ',' || !*p) { if (!c.empty()) r.insert(c); c.clear(); if (!*p) break; } else c += *p; } return r; }
static u64 run_index = 0;
static void note(const char* tags, const char* fmt, ...) {
	char b[1500];
	va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
	char pre[100];
	snprintf(pre, sizeof pre, "[task %d op %d attempt %d] ", cur->id, cur->op, cur->att);
	pend.push_back({split_tags(tags), str(pre) + b});
}
static bool flushing_disabled = false;
static int soft_viols = 0;
// Reports the collected violations if one of them concerns the property being checked; otherwise abandons the run.
static void flush_viol() {
	if (pend.empty() || flushing_disabled) return;
	const Viol* hit = nullptr;
	for (auto& v : pend) if (want_check.empty() || v.tags.count(want_check) || v.tags.count("*")) { hit = &v; break; }
	if (hit) {
		str tags; for (auto& t : hit->tags) tags += (tags.empty() ? "" : ",") + t;
		if (!plan_out.empty() && !plan_stream) { FILE* f = fopen(plan_out.c_str(), "w"); if (f) { str t = plan_text(); fwrite(t.data(), 1, t.size(), f); fclose(f); } }
		printf("VIOL {\"tags\":\"%s\",\"index\":%llu,\"trace\":\"%016llx\",\"msg\":\"%s\"}\n", tags.c_str(), (unsigned long long)run_index, (unsigned long long)trace_h, jesc(hit->msg).c_str());
		fflush(stdout);
		_exit(3);
	}
	if (getenv("SIM_VERBOSE")) for (auto& v : pend) fprintf(stderr, "foreign: %s %s\n", v.tags.begin()->c_str(), v.msg.c_str());
	ST.foreign++;
	pend.clear();
	if (!cur->incall && ++soft_viols < 60) return; // between calls: the history goes on
	aborting = true;
	if (cur != &MAIN) { switch_to(&MAIN); abort(); }
}
#define FAIL(tags, ...) do { note(tags, __VA_ARGS__); flush_viol(); } while (0)

// ---------------------------------------------------------------- fibers
static void switch_to(Task* to) {
	Task* from = cur;
	if (to == from) return;
	cur = to;
	ST.switches++;
#if HAVE_ASAN
	__sanitizer_start_switch_fiber(&from->fake, to->stack, to->ssz);
#endif
	swapcontext(&from->uc, &to->uc);
#if HAVE_ASAN
	__sanitizer_finish_switch_fiber(from->fake, nullptr, nullptr);
#endif
}
static void task_body(Task* t);
static void fiber_entry() {
	Task* t = cur;
#if HAVE_ASAN
	const void* ob; size_t os;
	__sanitizer_finish_switch_fiber(nullptr, &ob, &os);
	if (!MAIN.stack) { MAIN.stack = (void*)ob; MAIN.ssz = os; }
#endif
	task_body(t);
	t->done = true;
	Task* nxt = &MAIN;
	for (auto* x : tasks) if (!x->done) { nxt = x; break; }
	switch_to(nxt);
	abort();
}
static std::vector<void*> stack_pool;
static const size_t STACK_SZ = 512 * 1024;
static void task_start(Task* t) {
	if (stack_pool.empty()) {
		t->stack = mmap(nullptr, STACK_SZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	} else { t->stack = stack_pool.back(); stack_pool.pop_back(); }
	t->ssz = STACK_SZ;
#if HAVE_ASAN
	__asan_unpoison_memory_region(t->stack, t->ssz);
#endif
	getcontext(&t->uc);
	t->uc.uc_stack.ss_sp = t->stack;
	t->uc.uc_stack.ss_size = t->ssz;
	t->uc.uc_link = nullptr;
	makecontext(&t->uc, fiber_entry, 0);
	t->started = true;
}
static Task* runnable(int id) { for (auto* x : tasks) if (x->id == id && !x->done) return x; return nullptr; }

// ---------------------------------------------------------------- seams
static void maybe_preempt(u64 seamno) {
	if (tasks.size() < 2) return;
	Task* t = cur;
	std::vector<u64> key{(u64)t->id, (u64)t->op, (u64)t->att, seamno};
	int target = -1;
	if (P.adaptive) {
		u64 den = (u64)P.knob.g("pden", 0);
		if (den) {
			u64 h = H(P.seed, 0x50, key[0], key[1], key[2], key[3]);
			if (h % den == 0) {
				target = (int)((h >> 32) % tasks.size());
				if (target == t->id || !runnable(target)) target = -1;
				else { P.preempts[key] = target; emit_plan_line(preempt_text(key, target)); }
			}
		}
	} else {
		auto it = P.preempts.find(key);
		if (it != P.preempts.end()) target = it->second;
	}
	if (target < 0 || target == t->id) return;
	Task* to = runnable(target);
	if (!to) return;
	sched_h = H(sched_h, t->id, t->op, seamno, target);
	trace_h = H(trace_h, 0x77, t->id, seamno, target);
	t->switched = true;
	switch_to(to);
	t->switched = true;
}
static void boundary() { maybe_preempt(1ull << 40); }
static bool is_back(int k) { return k >= K_CHECK && k <= K_NNCLOSE; }
static bool match_fault(const Fault& f, int kind, u64 idx, u64 bidx, u64 size) {
	u64 i;
	if (f.kind == K_BACK) { if (!is_back(kind) || kind == K_CHECK) return false; i = bidx; }
	else { if (f.kind != kind) return false; i = idx; }
	switch (f.mode) {
		case F_NTH: return i == f.idx;
		case F_FROM: return i >= f.idx;
		case F_RANGE: return i >= f.idx && i < f.idx + f.p;
		case F_SIZE: return kind == K_ALLOC && size >= f.p;
		case F_EVERY: return f.p && i % f.p == f.idx % f.p;
	}
	return false;
}
// One point where the environment may act. Returns true if the call has to fail.
static bool seam(int kind, u64 size) {
	Task& t = *cur;
	if (t.mode == M_HARNESS) return false;
	u64 idx = t.ctr.c[kind]++, bidx = t.ctr.back;
	if (is_back(kind) && kind != K_CHECK) t.ctr.back++;
	u64 seamno = t.ctr.total++;
	ST.ticks++;
	if (t.budget && t.ctr.total > t.budget) {
		FAIL("C17", "call does not finish: %llu allocator/backend calls, bound %llu", (unsigned long long)t.ctr.total, (unsigned long long)t.budget);
	}
	if (t.mode == M_REF) {
		if (!t.inject || kind == K_FREE || kind == K_NUM) return false;
		for (auto& x : t.cur_faults) if (match_fault(x, kind, idx, bidx, size)) { t.fired[kind]++; t.hit = true; return true; }
		if (!t.hit) t.pre_h = H(t.pre_h, kind, size);
		return false;
	}
	trace_h = H(trace_h, t.id, kind, size);
	bool f = false;
	for (auto& x : t.cur_faults) if (match_fault(x, kind, idx, bidx, size)) { f = true; if (kind != K_FREE) { ST.fmodes[x.mode]++; } break; }
	if (kind == K_FREE || kind == K_NUM) f = false;
	if (f) t.hit = true;
	if (!t.hit && kind != K_FREE && kind != K_NUM) t.pre_h = H(t.pre_h, kind, size);
	if (f) { t.fired[kind]++; ST.fired[kind]++; trace_h = H(trace_h, 0xF, kind, idx); }
	maybe_preempt(seamno);
	return f;
}

// ---------------------------------------------------------------- simulated heap
struct Blk { size_t size; int task; bool ref; u64 seq; bool known = false; };
static u64 blk_seq = 0;
static std::map<uintptr_t, Blk> blks;
static u64 nref = 0;                // blocks belonging to the undisturbed run in progress
static u64 machine_limit = 1ull << 30;
static int garb_live = 0, garb_ref = 1;
static u64 garb_seed = 0;
static void garbage(void* p, size_t n) {
	int g = cur->mode == M_REF ? garb_ref : garb_live;
	if (n > (4u << 20)) n = 4u << 20;
	unsigned char* c = (unsigned char*)p;
	switch (g) {
		case 0: memset(c, 0, n); break;
		case 1: memset(c, 0xFF, n); break;
		case 2: { u64 x = garb_seed; for (size_t i = 0; i < n; i++) { if (!(i & 7)) x = x * 6364136223846793005ull + 1442695040888963407ull; c[i] = (unsigned char)(x >> (8 * (i & 7))); } break; }
		case 3: { uint32_t v = 0; for (size_t i = 0; i + 4 <= n; i += 4) { memcpy(c + i, &v, 4); v = (v + 1) % 7; } for (size_t i = n & ~(size_t)3; i < n; i++) c[i] = 1; break; }
		case 4: memset(c, 0x01, n); break;
		// what earlier users of the same memory leave behind: small numbers of every width
		case 5: { u64 x = garb_seed; for (size_t i = 0; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; u64 v = (x >> 33) % 9; memcpy(c + i, &v, 8); } break; }
		case 6: { u64 v = 1 + garb_seed % 4; for (size_t i = 0; i + 8 <= n; i += 8) memcpy(c + i, &v, 8); break; }
		case 7: { u64 v = 0; for (size_t i = 0; i + 8 <= n; i += 8) { memcpy(c + i, &v, 8); v++; } break; }
		case 8: { u64 x = garb_seed; for (size_t i = 0; i + 4 <= n; i += 4) { x = x * 6364136223846793005ull + 1442695040888963407ull; uint32_t v = (uint32_t)((x >> 33) % 40); memcpy(c + i, &v, 4); } break; }
		case 9: { u64 x = garb_seed; for (size_t i = 0; i + 8 <= n; i += 8) { x = x * 6364136223846793005ull + 1442695040888963407ull; double v = (double)((x >> 33) % 100); memcpy(c + i, &v, 8); } break; }
		default: memset(c, 0x7F, n); break;
	}
}
// A machine with far more memory than this one: blocks beyond a limit are a small piece of memory mapped over and over.
// What is written there repeats with period VAST_PIECE, so only code that treats all elements alike runs on it.
static const size_t VAST_PIECE = 64u << 20;
static bool vast = false;
static void* vast_map(size_t n) {
	size_t m = (n + VAST_PIECE - 1) / VAST_PIECE * VAST_PIECE;
	if (m < n || m > 1ull << 46) return nullptr;
	int fd = memfd_create("vast", 0);
	if (fd < 0 || ftruncate(fd, (off_t)VAST_PIECE)) { fprintf(stderr, "no simulated memory\n"); _exit(2); }
	char* p = (char*)mmap(nullptr, m, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (p == MAP_FAILED) { close(fd); return nullptr; }
	if (m <= 1ull << 37) // larger ones are reserved only: nobody gets around to filling them
		for (size_t o = 0; o < m; o += VAST_PIECE) if (mmap(p + o, VAST_PIECE, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED | MAP_NORESERVE, fd, 0) == MAP_FAILED) { fprintf(stderr, "no simulated memory\n"); _exit(2); }
	close(fd);
	return p;
}
static void vast_unmap(void* p, size_t n) { munmap(p, (n + VAST_PIECE - 1) / VAST_PIECE * VAST_PIECE); }
static bool is_vast(size_t n) { return vast && n >= 1u << 28; }
#if HAVE_ASAN
static const size_t RED = 0;
#else
static const size_t RED = 64; // guard behind each block, checked when it is released
#endif
static void red_set(void* p, size_t n) { if (RED) memset((char*)p + n, 0xC9, RED); }
static bool red_ok(const void* p, size_t n) { for (size_t i = 0; i < RED; i++) if (((const unsigned char*)p)[n + i] != 0xC9) return false; return true; }
// An allocator that hands a freed block out again at once, to the next request of its size (knob "reu").
static bool reuse = false;
static std::map<size_t, std::vector<void*>> pool;
static void pool_reset() {
	for (auto& q : pool) for (void* p : q.second) {
#if HAVE_ASAN
		__asan_unpoison_memory_region(p, q.first);
#endif
		free(p);
	}
	pool.clear();
}
static void* raw_alloc(size_t n) {
	if (reuse && n && n <= 4096) {
		auto it = pool.find(n);
		if (it != pool.end() && !it->second.empty()) {
			void* p = it->second.back(); it->second.pop_back(); ST.reused++;
#if HAVE_ASAN
			__asan_unpoison_memory_region(p, n);
#endif
			red_set(p, n);
			blks[(uintptr_t)p] = Blk{n, cur->id, cur->mode == M_REF, ++blk_seq};
			if (cur->mode == M_REF) nref++;
			return p;
		}
	}
	if (is_vast(n)) {
		void* p = vast_map(n);
		if (!p) { cur->natural = true; ST.natural_oom++; return nullptr; }
		blks[(uintptr_t)p] = Blk{n, cur->id, cur->mode == M_REF, ++blk_seq};
		if (cur->mode == M_REF) nref++;
		return p;
	}
	void* p = malloc(n + RED ? n + RED : 8);
	if (!p) return nullptr;
	red_set(p, n);
#if HAVE_ASAN
	if (!n) __asan_poison_memory_region(p, 8);
#endif
	blks[(uintptr_t)p] = Blk{n, cur->id, cur->mode == M_REF, ++blk_seq};
	if (cur->mode == M_REF) nref++;
	return p;
}
static void raw_free(void* p) {
	auto it = blks.find((uintptr_t)p);
	if (it == blks.end()) {
		FAIL("C06,C07,C14", "free() of a pointer the library does not own (double free or foreign memory)");
		return;
	}
	size_t n = it->second.size;
	if (it->second.ref && !it->second.known) nref--;
	blks.erase(it);
#if HAVE_ASAN
	if (!n) __asan_unpoison_memory_region(p, 8);
#endif
	if (is_vast(n)) { vast_unmap(p, n); return; }
	if (!red_ok(p, n)) FAIL("C07,C19", "a block of %llu bytes has been written past its end", (unsigned long long)n);
	if (n && n <= (1u << 20)) memset(p, 0xDD, n);
	if (reuse && n && n <= 4096) {
#if HAVE_ASAN
		__asan_poison_memory_region(p, n);
#endif
		pool[n].push_back(p);
		return;
	}
	free(p);
}
static bool too_big(size_t n) {
	if (n <= machine_limit) return false;
	cur->natural = true; ST.natural_oom++;
	trace_h = H(trace_h, 0x00B, n);
	return true;
}
extern "C" {
void* sim_malloc(size_t n) { if (seam(K_ALLOC, n) || too_big(n)) return nullptr; void* p = raw_alloc(n); if (p && !is_vast(n)) garbage(p, n); return p; }
void* sim_calloc(size_t a, size_t b) {
	size_t n; bool ov = __builtin_mul_overflow(a, b, &n); if (ov) n = SIZE_MAX;
	if (seam(K_ALLOC, n) || too_big(n)) return nullptr;
	if (is_vast(n)) return raw_alloc(n);
	if (n >= (1u << 20)) { void* p = calloc(1, n + RED); if (p) { red_set(p, n); blks[(uintptr_t)p] = Blk{n, cur->id, cur->mode == M_REF, ++blk_seq}; if (cur->mode == M_REF) nref++; } return p; }
	void* p = raw_alloc(n); if (p) memset(p, 0, n); return p;
}
void sim_free(void* p) { if (!p) return; seam(K_FREE, 0); raw_free(p); }
void* sim_realloc(void* o, size_t n) {
	if (!o) return sim_malloc(n);
	if (n == 0) { seam(K_FREE, 0); raw_free(o); return nullptr; }
	if (seam(K_ALLOC, n) || too_big(n)) return nullptr;
	auto it = blks.find((uintptr_t)o);
	if (it == blks.end()) { FAIL("C06,C07", "realloc() of a pointer the library does not own"); return nullptr; }
	size_t os = it->second.size;
	void* p = raw_alloc(n);
	if (!p) return nullptr;
	garbage(p, n);
	memcpy(p, o, os < n ? os : n);
	raw_free(o);
	return p;
}
void* sim_reallocarray(void* o, size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) { n = SIZE_MAX; seam(K_ALLOC, n); too_big(n); return nullptr; } return sim_realloc(o, n); }
char* sim_strdup(const char* s) { size_t n = strlen(s) + 1; char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
void* sim_aligned_alloc(size_t al, size_t n) { return sim_malloc(n); }
int sim_posix_memalign(void** o, size_t al, size_t n) { void* p = sim_malloc(n); if (!p) return 12; *o = p; return 0; }
// Known finding (known_findings.txt): when the second of two allocations in the ANN wrapper fails, the first is lost.
static void* wrap_new(size_t n) {
	void* p = sim_malloc(n);
	if (p) return p;
	if (cur->wrap_last && !P.knob.g("noknown", 0)) { auto it = blks.find((uintptr_t)cur->wrap_last); if (it != blks.end() && !it->second.known) { it->second.known = true; if (it->second.ref) nref--; } }
	cur->wrap_last = nullptr;
	throw std::bad_alloc();
}
void* sim_new(size_t n) { void* p = wrap_new(n); cur->wrap_last = nullptr; return p; }
void* sim_newv(size_t n) { void* p = wrap_new(n); cur->wrap_last = cur->wrap_last ? nullptr : p; return p; }
void* sim_new_ann(size_t n) { return raw_alloc(n); }
void* sim_newv_ann(size_t n) { return raw_alloc(n); }
void sim_deletev(void* p) noexcept { cur->wrap_last = nullptr; if (p) raw_free(p); }
void sim_deletev_sz(void* p, size_t) noexcept { cur->wrap_last = nullptr; if (p) raw_free(p); }
void sim_delete(void* p) noexcept { cur->wrap_last = nullptr; if (p) raw_free(p); }
void sim_delete_sz(void* p, size_t) noexcept { cur->wrap_last = nullptr; if (p) raw_free(p); }
static u64 qsort_seed = 0;
void sim_qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
	// equal elements come out in an order decided by the plan (qsort promises none)
	if (n < 2) return;
	std::vector<uint32_t> ix(n), tmp(n);
	for (size_t i = 0; i < n; i++) ix[i] = (uint32_t)i;
	int m = (int)(qsort_seed % 3);
	if (m == 1) std::reverse(ix.begin(), ix.end());
	if (m == 2) { Rng r(H(qsort_seed, n)); for (size_t i = n - 1; i > 0; i--) std::swap(ix[i], ix[r.below(i + 1)]); }
	std::vector<char> copy((char*)base, (char*)base + n * w);
	const char* c = copy.data();
	for (size_t run = 1; run < n; run *= 2) {
		for (size_t lo = 0; lo < n; lo += 2 * run) {
			size_t mid = std::min(lo + run, n), hi = std::min(lo + 2 * run, n), a = lo, b = mid, o = lo;
			while (a < mid && b < hi) tmp[o++] = cmp(c + ix[b] * w, c + ix[a] * w) < 0 ? ix[b++] : ix[a++];
			while (a < mid) tmp[o++] = ix[a++];
			while (b < hi) tmp[o++] = ix[b++];
		}
		ix.swap(tmp);
	}
	for (size_t i = 0; i < n; i++) memcpy((char*)base + i * w, c + ix[i] * w, w);
}
}
// Is [p, p+n) memory the library may legally hand to a backend?
static bool region_ok(const void* p, size_t n) {
	if (!n) return true;
	if (!p) return false;
	auto it = blks.upper_bound((uintptr_t)p);
	if (it != blks.begin()) {
		--it;
		if ((uintptr_t)p < it->first + std::max<size_t>(it->second.size, 1)) return (uintptr_t)p - it->first <= it->second.size && n <= it->second.size - ((uintptr_t)p - it->first);
	}
#if HAVE_ASAN
	return __asan_region_is_poisoned((void*)p, n) == nullptr;
#else
	return true;
#endif
}

// ---------------------------------------------------------------- library globals
extern "C" {
extern char __start_sccdata[] __attribute__((weak));
extern char __stop_sccdata[] __attribute__((weak));
extern char __start_sccbss[] __attribute__((weak));
extern char __stop_sccbss[] __attribute__((weak));
}
static void rawcopy(void* d, const void* s, size_t n) { asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory"); }
struct Globals {
	std::vector<char> d, b;
	void save() {
		d.resize(__stop_sccdata - __start_sccdata); b.resize(__stop_sccbss - __start_sccbss);
		rawcopy(d.data(), __start_sccdata, d.size()); rawcopy(b.data(), __start_sccbss, b.size());
	}
	void load() const { rawcopy(__start_sccdata, d.data(), d.size()); rawcopy(__start_sccbss, b.data(), b.size()); }
};
static Globals pristine;
