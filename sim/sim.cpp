// Entry points of the simulator: seeded search, plan streaming, replay.
#include "gen.h"
static volatile bool in_run = false;
static u64 wd_seconds = 60;
static std::vector<void*> cookies;
static void on_timer(int) {
	static const char m[] = "\nHANG: the call in progress uses more CPU time than any legal call\n";
	ssize_t w = write(2, m, sizeof m - 1); (void)w;
	_exit(4);
}
static void arm(u64 s) { struct itimerval v; memset(&v, 0, sizeof v); v.it_value.tv_sec = (time_t)s; setitimer(ITIMER_PROF, &v, nullptr); }
static void drop_clients(Client& k) {
	for (auto& b : k.b) close_b(b, false);
	for (auto& b : k.m) close_b(b, true);
	for (auto& x : k.ds) if (x.p) { data_by_ptr.erase(x.p); scc_free_data_set(&x.p); if (x.p) FAIL("C14", "freeing a data set does not null the pointer"); }
	audit(k, "at the end");
	for (auto& s : k.s) kill_slot(s);
}
static void task_body(Task* t) {
	Client& k = *(Client*)t->client;
	bool au = P.knob.g("audit");
	for (int i : t->ops) {
		const Line& l = P.ops[i];
		t->op = (int)l.g("id"); t->att = 0;
		boundary();
		run_op(k, l);
		if (au) audit(k, "after an operation of this client");
	}
	t->op = 1 << 20; t->att = 0;
	boundary();
	drop_clients(k);
}
static void reset_world() {
	for (auto& b : blks) {
#if HAVE_ASAN
		if (!b.second.size) __asan_unpoison_memory_region((void*)b.first, 8);
#endif
		free((void*)b.first);
	}
	blks.clear(); nref = 0; pool_reset();
	handles_reset();
	for (void* p : hblocks) free(p);
	hblocks.clear(); bad_ptrs.clear(); fake_h.clear();
	for (auto* d : datas) delete d;
	datas.clear(); data_by_ptr.clear();
	pend.clear(); memset(vcalls, 0, sizeof vcalls);
	in_direct = false; flushing_disabled = false; nfails_text = 0;
	for (auto* t : tasks) { if (t->stack) stack_pool.push_back(t->stack); delete (Client*)t->client; delete t; }
	tasks.clear();
	cur = &MAIN; MAIN.mode = M_HARNESS; MAIN.op = -1;
	soft_viols = 0; aborting = false; trace_h = sched_h = 0;
	pristine.load();
}
static void run_plan() {
	reset_world();
	back = (int)P.knob.g("back");
	garb_live = (int)P.knob.g("gl"); garb_ref = (int)P.knob.g("gr", 1); garb_seed = (u64)P.knob.g("gs"); qsort_seed = (u64)P.knob.g("qs");
	vast = P.knob.g("vast") != 0; reuse = P.knob.g("reu") != 0;
	machine_limit = P.knob.has("lim") ? 1ull << P.knob.g("lim") : 1ull << 28;
	int own = is_proxy() || back == B_SIM ? 0 : -1;
	for (int f = 0; f < NFN; f++) inst[f] = own;
	if (P.knob.g("spi")) for (int f = 0; f < NFN; f++) inst[f] = -1;
	if (back == B_ANN) for (int f = FN_NNI; f <= FN_NNC; f++) inst[f] = -2;
	apply_table();
	{ char e[256]; memset(e, 0x55, sizeof e); bool ok = scc_get_latest_error(sizeof e, e); if (!ok || !memchr(e, 0, sizeof e) || !e[0] || strstr(e, "(null)")) FAIL("C11", "before any failure the latest-error text cannot be read"); }
	bool large = false; for (auto& d : P.datas) large |= d.g("n") > 2000;
	arm(large || P.profile == "HUGE" || P.profile == "BIG" || P.profile == "VAST" || P.profile == "CLAIM" || P.profile.substr(0, 4) == "LINE" ? 4 * wd_seconds : wd_seconds);
	std::vector<std::vector<double>> copies;
	for (size_t i = 0; i < P.datas.size(); i++) {
		SimData* d = new SimData; d->build(P.datas[i]); datas.push_back(d);
		if (cookies.size() <= i) cookies.push_back(mmap(nullptr, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
		d->cookie = cookies[i];
		data_by_ptr[d->cookie] = d;
		if (!d->implicit) {
			int ec = scc_init_data_set(d->n, (uint32_t)d->dim, d->n * d->dim, d->mat, &d->real);
			if (ec != SCC_ER_OK || !d->real) { FAIL("C14", "cannot create a data set of %llu points (%s)", (unsigned long long)d->n, ecn(ec)); return; }
			data_by_ptr[d->real] = d;
			copies.emplace_back(d->mat, d->mat + d->n * d->dim);
		} else copies.emplace_back();
	}
	int nt = 0;
	for (auto& l : P.ops) nt = std::max(nt, (int)l.g("t") + 1);
	for (int t = 0; t < nt; t++) { Task* k = new Task; k->id = t; k->client = new Client; k->ctr.clear(); tasks.push_back(k); }
	for (size_t i = 0; i < P.ops.size(); i++) tasks[P.ops[i].g("t")]->ops.push_back((int)i);
	for (auto* t : tasks) task_start(t);
	if (nt) switch_to(tasks[0]);
	if (!aborting) {
		for (size_t i = 0; i < datas.size(); i++) {
			SimData* d = datas[i];
			if (!d->implicit && memcmp(copies[i].data(), d->mat, copies[i].size() * 8)) FAIL("C05,C07,C12", "the caller's data matrix was modified");
			if (d->real) scc_free_data_set(&d->real);
		}
		size_t nleft = 0, big = 0;
		for (auto& b : blks) if (!b.second.known) { nleft++; big += b.second.size; }
		if (nleft && !aborting) {
			FAIL(P.profile == "BACKEND" ? "C06,C12" : P.profile == "CAP" ? "C06,C19" : "C06", "%zu memory block(s), %zu bytes, still allocated after the client freed everything", nleft, big);
		}
	}
	arm(0);
	if (trace_h) for (auto& l : P.ops) trace_h = H(trace_h, std::hash<str>()(l.text()));
	ST.runs++;
	ST.hash = H(ST.hash, trace_h, aborting);
	if (trace_h && ST.traces.size() < 4000000) ST.traces.insert(trace_h);
	if (sched_h && ST.scheds.size() < 4000000) ST.scheds.insert(sched_h);
}
static bool load_plan(const char* fn) {
	FILE* f = fopen(fn, "r"); if (!f) return false;
	P = Plan(); P.adaptive = false;
	char* line = nullptr; size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		std::vector<str> w; str c;
		for (char* p = line;; ++p) { if (!*p || *p == ' ' || *p == '\n') { if (!c.empty()) w.push_back(c); c.clear(); if (!*p) break; } else c += *p; }
		if (w.empty() || w[0][0] == '#') continue;
		if (w[0] == "profile") { P.profile = w.size() > 1 ? w[1] : ""; continue; }
		Line l(w[0].c_str());
		for (size_t i = 1; i < w.size(); i++) { size_t e = w[i].find('='); if (e == str::npos) continue; l.set(w[i].substr(0, e).c_str(), strtoll(w[i].c_str() + e + 1, nullptr, 10)); }
		if (l.kind == "knob") P.knob = l;
		else if (l.kind == "data") P.datas.push_back(l);
		else if (l.kind == "fault") P.faults.push_back(Fault{(int)l.g("task"), (int)l.g("op"), (int)l.g("att"), (int)l.g("kind"), (int)l.g("mode"), (u64)l.g("idx"), (u64)l.g("p")});
		else if (l.kind == "preempt") P.preempts[{(u64)l.g("task"), (u64)l.g("op"), (u64)l.g("att"), (u64)l.g("seam")}] = (int)l.g("to");
		else P.ops.push_back(l);
	}
	free(line); fclose(f);
	P.seed = (u64)P.knob.g("ps");
	return true;
}
static void print_map(const char* name, const std::map<str, u64>& m) { printf("\"%s\":{", name); bool f = true; for (auto& p : m) { printf("%s\"%s\":%llu", f ? "" : ",", jesc(p.first).c_str(), (unsigned long long)p.second); f = false; } printf("},"); }
static void dump_set(const str& fn, const std::unordered_set<u64>& s) { FILE* f = fopen(fn.c_str(), "wb"); if (!f) return; for (u64 x : s) fwrite(&x, 8, 1, f); fclose(f); }
static void print_stats(const str& hashfile) {
	printf("STATS {\"runs\":%llu,\"ops\":%llu,\"attempts\":%llu,\"refruns\":%llu,\"ticks\":%llu,\"switches\":%llu,\"foreign\":%llu,\"survived\":%llu,\"natural_oom\":%llu,\"reused\":%llu,\"oracles\":%llu,", (unsigned long long)ST.runs, (unsigned long long)ST.ops, (unsigned long long)ST.attempts, (unsigned long long)ST.refruns, (unsigned long long)ST.ticks, (unsigned long long)ST.switches, (unsigned long long)ST.foreign, (unsigned long long)ST.survived, (unsigned long long)ST.natural_oom, (unsigned long long)ST.reused, (unsigned long long)ST.oracles);
	std::map<str, u64> fk, fm;
	for (int i = 0; i < K_FREE; i++) if (ST.fired[i]) fk[KN[i]] = ST.fired[i];
	for (int i = 0; i < 5; i++) if (ST.fmodes[i]) fm[FMN[i]] = ST.fmodes[i];
	print_map("fired", fk); print_map("fmodes", fm); print_map("outcomes", ST.ec); print_map("features", ST.feat);
	printf("\"traces\":%zu,\"schedules\":%zu,\"states\":%zu,\"hash\":\"%016llx\"}\n", ST.traces.size(), ST.scheds.size(), ST.states.size(), (unsigned long long)ST.hash);
	fflush(stdout);
	if (!hashfile.empty()) { dump_set(hashfile + ".t", ST.traces); dump_set(hashfile + ".s", ST.scheds); dump_set(hashfile + ".q", ST.states); }
}
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char** argv) {
	if (argc < 2) return 2;
	str mode = argv[1], profile = "FUNC", progress, hashfile; u64 seed0 = 1, start = 0, count = 1, step = 1; double tlimit = 0;
	const char* planf = nullptr;
	for (int i = 2; i < argc; i++) {
		str a = argv[i]; auto nx = [&]() -> const char* { return i + 1 < argc ? argv[++i] : ""; };
		if (a == "--profile") profile = nx(); else if (a == "--check") want_check = nx(); else if (a == "--seed0") seed0 = strtoull(nx(), nullptr, 10);
		else if (a == "--start") start = strtoull(nx(), nullptr, 10); else if (a == "--count") count = strtoull(nx(), nullptr, 10); else if (a == "--step") step = strtoull(nx(), nullptr, 10);
		else if (a == "--progress") progress = nx(); else if (a == "--planout") plan_out = nx(); else if (a == "--hashes") hashfile = nx();
		else if (a == "--time") tlimit = atof(nx()); else if (a == "--wd") wd_seconds = strtoull(nx(), nullptr, 10); else planf = argv[i];
	}
	signal(SIGPROF, on_timer);
	pristine.save();
	backend_startup();
	pristine.load();
	u64 ph = 0; for (char c : profile) ph = ph * 131 + (unsigned char)c;
	if (mode == "replay") {
		if (!planf || !load_plan(planf)) { fprintf(stderr, "cannot read plan\n"); return 2; }
		plan_out.clear();
		run_plan();
		printf("REPLAY {\"trace\":\"%016llx\",\"foreign\":%llu}\n", (unsigned long long)trace_h, (unsigned long long)ST.foreign);
		return 0;
	}
	if (mode == "gen") {
		generate(profile, H(seed0, ph, start));
		if (!plan_out.empty()) plan_stream = fopen(plan_out.c_str(), "w");
		if (plan_stream) { str t = plan_text(); fwrite(t.data(), 1, t.size(), plan_stream); fflush(plan_stream); }
		run_index = start;
		run_plan();
		printf("RUN {\"trace\":\"%016llx\"}\n", (unsigned long long)trace_h);
		return 0;
	}
	int pf = -1; volatile u64* pm = nullptr;
	if (!progress.empty()) {
		pf = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
		if (pf >= 0 && ftruncate(pf, 16) == 0) pm = (volatile u64*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED, pf, 0);
	}
	double t0 = now();
	for (u64 i = 0; i < count; i++) {
		u64 ix = start + i * step;
		run_index = ix;
		if (pm) { pm[0] = ix; pm[1] = i + 1; }
		generate(profile, H(seed0, ph, ix));
		run_plan();
		if (tlimit > 0 && now() - t0 > tlimit) break;
	}
	if (pm) { pm[0] = ~0ull; }
	print_stats(hashfile);
	return 0;
}
#if HAVE_ASAN
extern "C" const char* __asan_default_options() { return "exitcode=66:detect_leaks=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_segv=1:handle_abort=1:max_allocation_size_mb=20000:quarantine_size_mb=16:verbosity=0"; }
#endif
