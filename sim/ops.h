// Operations a simulated client performs, each run once undisturbed (REF) and then under faults and interleaving (LIVE).
#pragma once
#include "oracle.h"
#include <functional>
struct Slot { scc_Clustering* c = nullptr; bool alive = false, oor = false, worn = false /* a call on this object failed */; u64 n = 0, ncl = 0; Labels L; CL* ext = nullptr; };
struct BSlot { bool open = false; void* o = nullptr; SimData* d = nullptr; u64 len = 0; PI* idx = nullptr; std::vector<u64> mem; };
struct DSlot { scc_DataSet* p = nullptr; SimData* d = nullptr; };
struct Client { Slot s[6]; BSlot b[3], m[3]; DSlot ds[3]; };
static std::set<void*> hblocks;       // memory owned by the harness (caller side)
static void* hal(size_t n) { void* p = malloc(n ? n : 1); hblocks.insert(p); return p; }
static void hfree(void* p) { if (p && hblocks.erase(p)) free(p); }
static u64 nfails_text = 0;

struct Out { int ec = 0; u64 n = 0, ncl = 0; Labels L; int flag = -1; scc_ClusteringStats st; int obj = -1; Ctr ctr; Out() { memset(&st, 0, sizeof st); ctr.clear(); } };
static bool same(const Out& a, const Out& b) {
	if (a.ec != b.ec) return false;
	if (a.ec != SCC_ER_OK) return true;
	return a.n == b.n && a.ncl == b.ncl && a.L == b.L && a.flag == b.flag && a.obj == b.obj && memcmp(&a.st, &b.st, sizeof a.st) == 0;
}
struct Job {
	str name;
	const char* failtag = "C14";                 // property violated when a fine call is refused
	const char* own = "";                        // property that promises this operation's outcome whatever happens around it
	Expect ex; std::set<int> also;               // codes that are acceptable besides success
	Slot* slot = nullptr;                        // the clustering the call works on
	std::function<Out(bool)> run;                // performs the call (true: undisturbed, on a clone)
	std::function<void(const Out&)> oracle;      // judges a successful outcome
	std::function<void(const Out&)> unchanged;   // after a failed call on the real objects
	std::function<void()> undo;                  // after a survived faulty attempt
	std::function<void(const Out&)> commit;
};
static void begin_call(bool ref) {
	Task& t = *cur;
	t.mode = ref ? M_REF : M_LIVE; t.incall = true;
	t.ctr.clear(); memset(t.fired, 0, sizeof t.fired);
	t.natural = t.inner_fail = t.switched = t.hit = false; t.pre_h = 0; t.inject = ref && t.refault;
}
static Ctr end_call() { cur->mode = M_HARNESS; cur->inject = cur->incall = false; return cur->ctr; }

// ---------------------------------------------------------------- error texts (C11)
static int text_code(const str& t) {
	static const struct { const char* p; int ec; } T[] = {
		{"Unkonwn error.", 1}, {"Function parameters are invalid.", 2}, {"Cannot allocate required memory.", 3}, {"Clustering problem has no solution.", 4},
		{"Clustering problem is too large.", 5}, {"Failed to calculate distances.", 6}, {"Functionality not yet implemented.", 7},
		{"Infeasible radius", 4}, {"Fewer data points", 4}, {"No primary data points", 4}, {"Too many", 5}, {"Cannot refine", 7}, {"SCC_SM_BATCHES", 7},
		{"Invalid ", 2}, {"Unknown seed", 2}, {"Unknown unassigned", 2}, {"Size constraint", 2}, {"Empty clustering", 2}, {"Output parameter", 2},
		{"Clustering must have", 2}, {"Data set must have", 2}, {"Incompatible", 2}, {"Number of data points in data set", 2}, {"Type constraint", 2}, {"`primary_data_points` is not sorted", 2}, {"Unknown error code", -2}};
	for (auto& e : T) if (t.compare(0, strlen(e.p), e.p) == 0) return e.ec;
	return -1;
}
static void check_error_text(int ec, const char* what) {
	if (cur->switched) return;
	char full[1024]; memset(full, 0x55, sizeof full);
	if (!scc_get_latest_error(sizeof full, full)) { FAIL("C11", "%s failed with %s but there is no error text", what, ecn(ec)); return; }
	if (!memchr(full, 0, sizeof full)) { FAIL("C11", "error text is not terminated"); return; }
	str t = full;
	if (t.compare(0, 8, "(scclust") != 0 || t.find("No error") != str::npos || t.size() < 12) { FAIL("C11", "%s failed with %s but the latest error is '%s'", what, ecn(ec), full); return; }
	size_t p = t.find(") ");
	str msg = p == str::npos ? t : t.substr(p + 2);
	bool word = false; for (char ch : msg) word |= isalpha((unsigned char)ch) != 0;
	if (!word) FAIL("C11", "%s failed with %s and an empty explanation: '%s'", what, ecn(ec), full);
	if (t.find("(null)") != str::npos) FAIL("C11", "%s failed with %s and the latest error contains a null string: '%s'", what, ecn(ec), full);
	int c = text_code(msg);
	if (c != -1 && c != ec) { FAIL("C11", "%s failed with %s but the latest error explains another code: '%s'", what, ecn(ec), full); return; }
	u64 h = H(P.seed, 0xE11, ++nfails_text);
	size_t lens[] = {1, 2, (size_t)(h % (t.size() + 3)), t.size(), t.size() + 1, t.size() + 1 + (h >> 20) % 40};
	for (int i = 0; i < 6; i++) {
		if ((h >> (8 + i)) % 3 && i != 2) continue;
		size_t n = lens[i];
		if (n == 0) { char c1 = 0x33; if (scc_get_latest_error(0, &c1) || c1 != 0x33) FAIL("C11", "a zero-length error buffer was accepted"); continue; }
		char* b = (char*)malloc(n + 16); memset(b, 0x33, n + 16);
		bool ok = scc_get_latest_error(n, b);
		str got; bool term = memchr(b, 0, n) != nullptr; if (term) got = b;
		bool over = false; for (size_t j = n; j < n + 16; j++) over |= b[j] != 0x33;
		free(b);
		if (over) FAIL("C11,C07", "error text written past the buffer of length %zu", n);
		if (!ok || !term) FAIL("C11", "error text in a buffer of length %zu: %s", n, ok ? "not terminated" : "refused");
		if (t.compare(0, got.size(), got) != 0 || got.size() != std::min(n - 1, t.size())) FAIL("C11", "error text in a buffer of length %zu is not a prefix of the full text", n);
	}
	if (h % 5 == 0 && scc_get_latest_error(10, nullptr)) FAIL("C11", "a null error buffer was accepted");
}
// ---------------------------------------------------------------- slots
static bool read_clustering(scc_Clustering* c, u64& n, u64& ncl, Labels& L, const char* tag) {
	uint64_t a = ~0ull, b = ~0ull;
	int ec = scc_get_clustering_info(c, &a, &b);
	if (ec != SCC_ER_OK) { FAIL(tag, "clustering can no longer be inspected (%s)", ecn(ec)); return false; }
	n = a; ncl = b; L.clear();
	if (b > 0) {
		if (a > (1ull << 29)) { FAIL(tag, "clustering reports %llu points", (unsigned long long)a); return false; }
		CL* buf = (CL*)malloc(a * sizeof(CL));
		ec = scc_get_cluster_labels(c, a, buf);
		L.assign(buf, buf + a);
		free(buf);
		if (ec != SCC_ER_OK) { FAIL(tag, "labels can no longer be read (%s)", ecn(ec)); return false; }
	}
	return true;
}
static void check_slot(Slot& s, const char* tag, const char* when) {
	if (!s.alive) return;
	u64 n, ncl; Labels L;
	if (!read_clustering(s.c, n, ncl, L, tag)) return;
	if (n != s.n || ncl != s.ncl) { FAIL(tag, "%s: clustering reports %llu points and %llu clusters, it had %llu and %llu", when, (unsigned long long)n, (unsigned long long)ncl, (unsigned long long)s.n, (unsigned long long)s.ncl); return; }
	if (s.ncl) {
		for (u64 i = 0; i < n; i++) if (L[i] != s.L[i]) { FAIL(tag, "%s: label of point %llu is %lld, it was %lld", when, (unsigned long long)i, (long long)L[i], (long long)s.L[i]); return; }
		if (s.ext && memcmp(s.ext, s.L.data(), n * sizeof(CL))) FAIL("C14", "%s: the caller-supplied label array does not hold the labels", when);
	}
	if (!scc_is_initialized_clustering(s.c)) FAIL("C14", "%s: live clustering reported as not initialised", when);
}
static scc_Clustering* clone(const Slot& s) {
	scc_Clustering* c = nullptr; int ec;
	CL* ext = nullptr;
	if (cur->refault && s.ext) { ext = (CL*)hal(s.n * sizeof(CL)); if (s.ncl) memcpy(ext, s.L.data(), s.n * sizeof(CL)); else memset(ext, 0x44, s.n * sizeof(CL)); }
	if (s.ncl == 0) ec = scc_init_empty_clustering(s.n, ext, &c);
	else if (ext) ec = scc_init_existing_clustering(s.n, s.ncl, ext, false, &c);
	else {
		CL* b = (CL*)malloc(s.n * sizeof(CL)); memcpy(b, s.L.data(), s.n * sizeof(CL));
		ec = scc_init_existing_clustering(s.n, s.ncl, b, true, &c);
		memset(b, 0x5A, s.n * sizeof(CL)); free(b);
	}
	if (ec != SCC_ER_OK || !c) FAIL("C14", "cannot create a plain clustering of %llu points (%s)", (unsigned long long)s.n, ecn(ec));
	return c;
}
static void kill_slot(Slot& s) {
	if (!s.alive) return;
	scc_free_clustering(&s.c);
	if (s.c) FAIL("C14", "freeing a clustering does not null the pointer");
	if (s.ext) {
		if (!hblocks.count(s.ext)) { FAIL("C14,C06", "the caller's label array was freed"); }
		else if (s.ncl && memcmp(s.ext, s.L.data(), s.n * sizeof(CL))) FAIL("C14", "freeing a clustering changed the caller's label array");
		hfree(s.ext);
	}
	s = Slot();
}
static void make_empty(Slot& s, u64 n, bool ext) {
	s = Slot(); s.n = n; s.alive = true;
	if (ext) { s.ext = (CL*)hal(n * sizeof(CL)); memset(s.ext, 0x44, n * sizeof(CL)); }
	int ec = scc_init_empty_clustering(n, s.ext, &s.c);
	if (ec != SCC_ER_OK || !s.c) FAIL("C14", "cannot create an empty clustering of %llu points (%s)", (unsigned long long)n, ecn(ec));
}
static void fill_model_labels(Labels& L, u64 n, u64 ncl, u64 h, i64 na, bool oor) {
	L.resize(n);
	for (u64 i = 0; i < n; i++) {
		u64 x = H(h, i);
		if ((i64)(x % 100) < na) L[i] = SCC_CLABEL_NA;
		else L[i] = (CL)((x >> 20) % ncl);
	}
	if (oor) {
		u64 p = H(h, 5) % n; CL v = (CL)(ncl + H(h, 6) % 3);
		if ((std::is_signed<CL>::value) && H(h, 8) % 2) v = (CL)(-1 - (i64)(H(h, 9) % 3));
		if (v == SCC_CLABEL_NA) v = (CL)ncl;
		L[p] = v;
	}
}
// ---------------------------------------------------------------- options
struct ScArgs {
	scc_ClusterOptions o, o0;
	uint32_t* tc = nullptr; scc_TypeLabel* tl = nullptr; PI* pp = nullptr;
	size_t btc = 0, btl = 0, bpp = 0;
	std::vector<char> ctc, ctl, cpp;
	ScSpec s;
	~ScArgs() { free(tc); free(tl); free(pp); }
	void freeze() { memcpy(&o0, &o, sizeof o); ctc.assign((char*)tc, (char*)tc + btc); ctl.assign((char*)tl, (char*)tl + btl); cpp.assign((char*)pp, (char*)pp + bpp); }
	void untouched(const char* what) {
		if (memcmp(&o, &o0, sizeof o) || (btc && memcmp(tc, ctc.data(), btc)) || (btl && memcmp(tl, ctl.data(), btl)) || (bpp && memcmp(pp, cpp.data(), bpp))) FAIL("C05,C07", "%s modified the caller's options", what);
	}
};
// Memory that holds no object: zeroes, ones, small numbers, noise, or what a freed object leaves behind.
static void fake_fill(unsigned char* p, u64 h) {
	switch (h % 6) {
		case 0: case 1: memset(p, 0, 256); break;
		case 2: memset(p, 0xFF, 256); break;
		case 3: for (int i = 0; i < 256; i += 8) { u64 v = 1 + (h >> 8) % 5; memcpy(p + i, &v, 8); } break;
		case 4: for (int i = 0; i < 256; i += 4) { uint32_t v = 1; memcpy(p + i, &v, 4); } break;
		default: for (int i = 0; i < 256; i++) p[i] = (unsigned char)(H(h, i) | 1); break;
	}
}
static std::map<void*, u64> fake_h;
static void* make_fake(u64 h) { void* p = hal(256); fake_fill((unsigned char*)p, h); fake_h[p] = h; return p; }
static bool fake_touched(void* p) { unsigned char w[256]; fake_fill(w, fake_h[p]); return memcmp(w, p, 256) != 0; }
static void* zero_fake() { return make_fake(H(P.seed, cur->op, 0xFA)); }
static void build_args(ScArgs& A, const Line& l, SimData& d, u64 n) {
	scc_ClusterOptions def = scc_get_default_options();
	memset(&A.o, 0, sizeof A.o);
	scc_ClusterOptions& o = A.o; ScSpec& s = A.s;
	s.n = n; s.sc = (uint32_t)l.g("sc", 2);
	o.options_version = def.options_version; o.size_constraint = s.sc;
	s.nt = (uint32_t)l.g("nt"); o.num_types = s.nt;
	if (s.nt >= 2) {
		A.btc = s.nt * sizeof(uint32_t); A.tc = (uint32_t*)malloc(A.btc);
		bool many = s.nt > 21; // constraints on three of the types
		auto hot = [&](u64 j) { return j == 0 ? (u64)s.nt - 1 : H((u64)l.g("th"), j, 77) % s.nt; };
		for (uint32_t t = 0; t < s.nt; t++) A.tc[t] = many ? 0 : (uint32_t)((u64)l.g("tcs") >> (3 * t)) & 7;
		if (many) for (u64 j = 0; j < 3; j++) A.tc[hot(j)] = (uint32_t)((u64)l.g("tcs") >> (3 * j)) & 7;
		s.tc.assign(A.tc, A.tc + s.nt);
		u64 extra = l.g("th") & 2 ? 0 : 1 + (u64)l.g("th") % 5; // more type labels than points are allowed
		A.btl = (n + extra) * sizeof(scc_TypeLabel); A.tl = (scc_TypeLabel*)malloc(A.btl);
		for (u64 i = n; i < n + extra; i++) A.tl[i] = (scc_TypeLabel)(H((u64)l.g("th"), i, 1) % s.nt);
		for (u64 i = 0; i < n; i++) { u64 x = H((u64)l.g("th"), i), t = x % (s.nt + (l.g("th") & 1)); if (t >= s.nt) t = 0; if (many && (x >> 40) % 8) t = hot((x >> 20) % 3); A.tl[i] = (scc_TypeLabel)t; s.tl.push_back(t); }
		o.type_constraints = A.tc; o.len_type_labels = n + extra; o.type_labels = A.tl;
	}
	s.seedm = (int)l.g("seedm"); s.pum = (int)l.g("pum", 1); s.sum = (int)l.g("sum"); s.srm = (int)l.g("srm"); s.prm = (int)l.g("prm", 2); s.erm = (int)l.g("erm", 2);
	if (s.srm == 1) s.sr = fixr(d.radius(l.g("srh"), l.g("srf")));
	if (s.prm == 1) s.pr = fixr(d.radius(l.g("prh"), l.g("prf")));
	if (s.erm == 1) s.er = fixr(d.radius(l.g("erh"), l.g("erf")));
	s.bs = (uint32_t)l.g("bs");
	int pl = (int)l.g("pl"); u64 ph = (u64)l.g("ph");
	if (pl) {
		s.hasprim = true; s.prim.assign(n, 0);
		for (u64 i = 0; i < n; i++) {
			u64 x = H(ph, i) % 8; bool in = false;
			switch (pl) { case 1: in = x < 4; break; case 2: in = x < 2; break; case 3: in = x < 7; break; case 4: in = i == H(ph, 999) % n; break; case 5: in = true; break; case 6: in = i < (n + 1) / 2; break; default: in = i >= n / 2; }
			s.prim[i] = in; s.nprim += in;
		}
		if (!s.nprim) { s.prim[0] = 1; s.nprim = 1; }
		A.bpp = s.nprim * sizeof(PI); A.pp = (PI*)malloc(A.bpp); size_t w = 0;
		for (u64 i = 0; i < n; i++) if (s.prim[i]) A.pp[w++] = (PI)i;
		o.len_primary_data_points = s.nprim; o.primary_data_points = A.pp;
	}
	o.seed_method = (scc_SeedMethod)s.seedm; o.primary_unassigned_method = (scc_UnassignedMethod)s.pum; o.secondary_unassigned_method = (scc_UnassignedMethod)s.sum;
	o.seed_radius = (scc_RadiusMethod)s.srm; o.seed_supplied_radius = s.sr;
	o.primary_radius = (scc_RadiusMethod)s.prm; o.primary_supplied_radius = s.pr;
	o.secondary_radius = (scc_RadiusMethod)s.erm; o.secondary_supplied_radius = s.er;
	o.batch_size = s.bs;
}
static const int NBAD_OPT = 40;
// Damages the options in one way. Only legal memory is ever handed over.
static void damage(ScArgs& A, int bad, u64 n, u64 h) {
	scc_ClusterOptions& o = A.o; ScSpec& s = A.s;
	auto types = [&](uint32_t k) { if (s.nt >= 2) return; s.nt = k; o.num_types = k; A.btc = k * 4; A.tc = (uint32_t*)malloc(A.btc); s.tc.assign(k, 0); for (uint32_t t = 0; t < k; t++) { A.tc[t] = t < 2 ? 1 : 0; s.tc[t] = A.tc[t]; } A.btl = n * sizeof(scc_TypeLabel); A.tl = (scc_TypeLabel*)malloc(A.btl); s.tl.clear(); for (u64 i = 0; i < n; i++) { A.tl[i] = (scc_TypeLabel)(i % 2); s.tl.push_back(i % 2); } o.type_constraints = A.tc; o.type_labels = A.tl; o.len_type_labels = n; };
	auto notypes = [&]() { s.nt = 0; o.num_types = (uint32_t)(h & 1); o.type_constraints = nullptr; o.type_labels = nullptr; o.len_type_labels = 0; s.tc.clear(); s.tl.clear(); };
	auto prim = [&]() { if (A.pp && s.nprim >= 2) return; free(A.pp); A.bpp = 2 * sizeof(PI); A.pp = (PI*)malloc(A.bpp); A.pp[0] = 0; A.pp[1] = (PI)(n > 1 ? 1 : 0); o.primary_data_points = A.pp; o.len_primary_data_points = 2; };
	switch (bad) {
		case 6: o.options_version = (int32_t)(h & 1 ? 0 : o.options_version + 1); break;
		case 7: o.size_constraint = 0; break;
		case 8: o.size_constraint = 1; break;
		case 9: o.size_constraint = (uint32_t)(n + 1 + (h & 1) * (h % 1000)); break;
		case 10: types(2); o.num_types = (uint32_t)(h & 1); o.type_labels = nullptr; o.len_type_labels = 0; break;
		case 11: notypes(); o.len_type_labels = n; break;
		case 12: types(2); o.num_types = (uint32_t)(h & 1); o.type_constraints = nullptr; o.len_type_labels = 0; break;
		case 13: { free(A.tc); free(A.tl); A.tl = nullptr; uint32_t k = 65536; A.btc = k * 4; A.tc = (uint32_t*)calloc(k, 4); A.btl = n * sizeof(scc_TypeLabel); A.tl = (scc_TypeLabel*)calloc(n, sizeof(scc_TypeLabel)); o.num_types = k + (h & 1 ? 0 : 1000000); o.type_constraints = A.tc; o.type_labels = A.tl; o.len_type_labels = n; break; }
		case 14: types(2); o.type_constraints = nullptr; break;
		case 15: types(2); o.len_type_labels = n - 1; break;
		case 16: types(2); o.type_labels = nullptr; break;
		case 17: o.seed_method = (scc_SeedMethod)(h & 1 ? 6 : 99); break;
		case 18: prim(); o.len_primary_data_points = 0; break;
		case 19: o.primary_data_points = nullptr; o.len_primary_data_points = 1; break;
		case 20: prim(); std::swap(A.pp[0], A.pp[1]); break;
		case 21: prim(); A.pp[1] = A.pp[0]; break;
		case 22: o.primary_unassigned_method = (scc_UnassignedMethod)(h & 1 ? 4 : 77); break;
		case 23: o.secondary_unassigned_method = SCC_UM_ANY_NEIGHBOR; break;
		case 24: o.secondary_unassigned_method = (scc_UnassignedMethod)(h & 1 ? 4 : 77); break;
		case 25: o.seed_radius = (scc_RadiusMethod)(2 + h % 4); o.seed_supplied_radius = 1; break;
		case 26: o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = 0; break;
		case 27: o.seed_radius = SCC_RM_USE_SUPPLIED; o.seed_supplied_radius = -1; break;
		case 28: o.primary_radius = (scc_RadiusMethod)(4 + h % 2); break;
		case 29: o.primary_radius = SCC_RM_USE_SUPPLIED; o.primary_supplied_radius = h & 1 ? 0 : -0.5; break;
		case 30: o.secondary_radius = (scc_RadiusMethod)(4 + h % 2); break;
		case 31: o.secondary_radius = SCC_RM_USE_SUPPLIED; o.secondary_supplied_radius = h & 1 ? 0 : -0.5; break;
		case 32: types(2); o.seed_method = SCC_SM_BATCHES; break;
		case 33: o.seed_method = SCC_SM_BATCHES; o.secondary_unassigned_method = (scc_UnassignedMethod)(2 + (h & 1)); break;
		case 34: o.seed_method = SCC_SM_BATCHES; o.primary_radius = h & 1 ? SCC_RM_NO_RADIUS : SCC_RM_USE_ESTIMATED; break;
		case 35: o.seed_method = SCC_SM_BATCHES; o.primary_unassigned_method = (scc_UnassignedMethod)(2 + (h & 1)); break;
		case 38: types(2); A.tc[0] = o.size_constraint; A.tc[1] = o.size_constraint; s.tc[0] = s.tc[1] = o.size_constraint; break;
		default: break;
	}
}
// Two damages can cancel out: the model of the request is read back from the options actually passed.
static void resync(ScArgs& A, u64 n) {
	const scc_ClusterOptions& o = A.o; ScSpec& s = A.s;
	s.sc = o.size_constraint; s.seedm = (int)o.seed_method; s.pum = (int)o.primary_unassigned_method; s.sum = (int)o.secondary_unassigned_method;
	s.srm = (int)o.seed_radius; s.prm = (int)o.primary_radius; s.erm = (int)o.secondary_radius; s.sr = o.seed_supplied_radius; s.pr = o.primary_supplied_radius; s.er = o.secondary_supplied_radius; s.bs = o.batch_size;
	s.nt = o.num_types; s.tc.clear(); s.tl.clear();
	if (s.nt >= 2 && s.nt < 65536 && o.type_constraints && o.type_labels && o.len_type_labels >= n) { s.tc.assign(o.type_constraints, o.type_constraints + s.nt); s.tl.assign(o.type_labels, o.type_labels + n); }
	s.hasprim = o.primary_data_points && o.len_primary_data_points; s.prim.clear(); s.nprim = 0;
	if (s.hasprim) { s.prim.assign(n, 0); for (size_t i = 0; i < o.len_primary_data_points; i++) { u64 p = (u64)o.primary_data_points[i]; if (p < n && !s.prim[p]) { s.prim[p] = 1; s.nprim++; } } }
}
// All the reasons why these options must be refused, found without regard to the order in which the library looks.
static void expect_options(Expect& e, const ScArgs& A, u64 n, bool check) {
	const scc_ClusterOptions& o = A.o;
	auto bad = [&](int c) { e.bad(c); e.presearch = true; };
	if (o.options_version != scc_get_default_options().options_version) bad(2);
	if (o.size_constraint < 2) bad(2);
	if (n < o.size_constraint) bad(4);
	if (o.num_types < 2) { if (o.type_constraints || o.len_type_labels || o.type_labels) bad(2); }
	else {
		if (o.num_types > 65535) bad(5);
		if (!o.type_constraints || !o.type_labels || o.len_type_labels < n) bad(2);
	}
	if ((int)o.seed_method < 0 || (int)o.seed_method > 5) bad(2);
	if (!o.primary_data_points != !o.len_primary_data_points) bad(2);
	if (o.primary_data_points) for (size_t i = 1; i < o.len_primary_data_points; i++) if (o.primary_data_points[i - 1] >= o.primary_data_points[i]) { bad(2); break; }
	if ((int)o.primary_unassigned_method > 3) bad(2);
	if (o.secondary_unassigned_method == SCC_UM_ANY_NEIGHBOR || (int)o.secondary_unassigned_method > 3) bad(2);
	if ((int)o.seed_radius > 1) bad(2);
	if ((int)o.primary_radius > 3 || (int)o.secondary_radius > 3) bad(2);
	if ((o.seed_radius == SCC_RM_USE_SUPPLIED && o.seed_supplied_radius <= 0) || (o.primary_radius == SCC_RM_USE_SUPPLIED && o.primary_supplied_radius <= 0) || (o.secondary_radius == SCC_RM_USE_SUPPLIED && o.secondary_supplied_radius <= 0)) bad(2);
	if (o.seed_method == SCC_SM_BATCHES) {
		if (o.num_types >= 2 || o.secondary_unassigned_method != SCC_UM_IGNORE || o.primary_radius != SCC_RM_USE_SEED_RADIUS) bad(7);
		if (!check && (o.primary_unassigned_method == SCC_UM_CLOSEST_ASSIGNED || o.primary_unassigned_method == SCC_UM_CLOSEST_SEED)) bad(2);
	}
	if (!check && o.num_types >= 2 && o.num_types <= 65535 && o.type_constraints && o.type_labels && o.len_type_labels >= n) {
		u64 sum = 0; std::vector<u64> g(o.num_types, 0);
		for (u64 i = 0; i < n; i++) g[o.type_labels[i]]++;
		for (uint32_t t = 0; t < o.num_types; t++) { sum += o.type_constraints[t]; if (g[t] < o.type_constraints[t]) bad(4); }
		if (sum > o.size_constraint) bad(2);
	}
}
// ---------------------------------------------------------------- size-constrained clustering
static u64 task_blocks(u64 since) { u64 c = 0; for (auto& b : blks) c += b.second.task == cur->id && !b.second.ref && !b.second.known && b.second.seq > since; return c; } // blocks this task got from the library since
static bool no_orc() { return P.knob.g("orc", 1) == 0; }
static bool rows_ok(SimData& d) { return d.lin ? back == B_SIM : !d.implicit && d.n <= 3000 && exact_rows(&d); }
struct ScJob { ScArgs A; str unch = "C05"; SimData* d = nullptr; void* dp = nullptr; scc_Clustering* target = nullptr; void* fake = nullptr; Slot tmp; Slot* s = nullptr; Rows R; bool rows = false; };
static void with_ref(const std::function<void()>& f, const char* leak = "C06") {
	Globals g; g.save();
	pristine.load(); apply_table();
	Task& t = *cur; int om = t.mode; u64 ob = t.budget;
	size_t h0 = handles.size();
	t.mode = M_REF;
	f();
	t.mode = om; t.budget = ob;
	check_handles(true, h0);
	if (nref) { u64 k = nref; for (auto it = blks.begin(); it != blks.end();) { if (it->second.ref) { uintptr_t p = it->first; size_t n = it->second.size; it = blks.erase(it);
#if HAVE_ASAN
		if (!n) __asan_unpoison_memory_region((void*)p, 8);
#endif
		free((void*)p); } else ++it; } nref = 0; FAIL(leak, "%llu memory block(s) not released after an undisturbed call and freeing its objects", (unsigned long long)k); }
	g.load();
	ST.refruns++;
}
static u64 ref_budget(u64 n, u64 extra = 0) { return std::min<u64>(300 + 20 * n + 40 * extra, 50000000); } // five to ten times what any legal call needs
static Out run_sc(ScJob& J, bool ref, scc_ClusterOptions* alt = nullptr) {
	Out r;
	scc_Clustering* c = J.fake || J.target ? J.target : nullptr;
	bool own = false, plain = !J.fake && !J.target;
	Slot* s = J.tmp.alive ? &J.tmp : J.s;
	if (plain) { if (ref) { c = clone(*s); own = true; } else c = s->c; }
	if (J.fake == (void*)1) c = nullptr;
	cur->budget = ref ? ref_budget(J.d->n, J.A.s.nt < 65536 ? J.A.s.nt : 0) : cur->budget;
	begin_call(ref);
	r.ec = scc_sc_clustering(J.dp, alt ? alt : &J.A.o, c);
	r.ctr = end_call();
	if (ref) cur->mode = M_REF;
	if (r.ec != SCC_ER_OK) check_error_text(r.ec, "scc_sc_clustering");
	if (!alt) J.A.untouched("scc_sc_clustering");
	if (plain && c) {
		if (r.ec == SCC_ER_OK) read_clustering(c, r.n, r.ncl, r.L, P.profile == "CAP" || P.profile == "HUGE" ? "C01,C14,C19" : "C01,C14");
		else if (ref) { Slot t2 = *s; t2.c = c; t2.ext = nullptr; check_slot(t2, J.unch.c_str(), "after a refused call"); }
	}
	if (J.fake && J.fake != (void*)1 && fake_touched(J.fake)) FAIL("C21", "a refused call wrote into an uninitialised object");
	if (own) scc_free_clustering(&c);
	return r;
}
static void expect_sc(Job& job, ScJob& J) {
	Expect& e = job.ex; const ScArgs& A = J.A; const scc_ClusterOptions& o = A.o; const ScSpec& s = A.s;
	Slot* sl = J.tmp.alive ? &J.tmp : J.s;
	auto bad = [&](int c) { e.bad(c); e.presearch = true; };
	bool cval = !J.fake && !J.target, dval = !bad_ptrs.count(J.dp);
	if (!cval || !dval) bad(2);
	u64 n = cval ? sl->n : J.d->n;
	if (cval && dval && sl->n != J.d->n) bad(2);
	if (cval && sl->ncl != 0) bad(7);
	expect_options(e, A, n, false);
	if (!cval && e.ec.count(2)) { } // codes of the options remain acceptable, too
	if (!e.ok) return;
	// fine request: what may still go wrong?
	bool est = s.seedm != SCC_SM_BATCHES && ((s.pum != SCC_UM_IGNORE && s.prm == SCC_RM_USE_ESTIMATED) || (s.sum != SCC_UM_IGNORE && s.erm == SCC_RM_USE_ESTIMATED));
	u64 nq = s.nq(); __uint128_t arcs = (__uint128_t)nq * s.sc * (s.typed() ? 2 : 1);
	bool ex = s.seedm == SCC_SM_EXCLUSION_ORDER || s.seedm == SCC_SM_EXCLUSION_UPDATING;
	const __uint128_t bytes = SIZE_MAX / 32;          // arrays beyond this cannot be had: refusing them as too large is as good as running out of memory
	if ((arcs > ARCMAX && s.seedm != SCC_SM_BATCHES) || arcs > bytes) job.also.insert(5);
	J.rows = rows_ok(*J.d);
	if (!J.rows) {
		if (s.srm == SCC_RM_USE_SUPPLIED || est) job.also.insert(4);
		if (n / s.sc > CLMAX) job.also.insert(5);
		if (ex && ((__uint128_t)n * n > ARCMAX || (__uint128_t)n * n > bytes)) job.also.insert(5);
		return;
	}
	if (J.d->lin && arcs > 30000000) { J.rows = false; return; }
	bool d_lin = J.d->lin;
	make_rows(*J.d, s, J.R);
	bool any = false, zero = false, allzero = true;
	for (u64 v = 0; v < n; v++) if (J.R.elig[v]) { any = true; double t = 0; for (u64 x : J.R.N[v]) t += J.d->d(v, x); if (t == 0) zero = true; else allzero = false; }
	if (!any) { e.bad(4); return; }
	if (est && allzero) { e.bad(4); if (n / s.sc > CLMAX || ARCMAX < 100000) e.ec.insert(5); return; }
	if (est && zero) job.also.insert(4);
	if (ex && (d_lin ? (__uint128_t)J.R.arcs * 400 > ARCMAX : exclusion_need(J.R, n) > ARCMAX)) job.also.insert(5);
	u64 k = n / s.sc;
	if (s.seedm == SCC_SM_LEXICAL) lexical(J.R, n, k); else if (s.seedm == SCC_SM_BATCHES) batches(J.R, s, k);
	if (k > CLMAX) { if (s.seedm == SCC_SM_LEXICAL || s.seedm == SCC_SM_BATCHES) e.bad(5); else job.also.insert(5); }
}
static void oracle_sc(ScJob& J, const Out& r, bool full) {
	const ScSpec& s = J.A.s; SimData& d = *J.d;
	if (r.n != d.n) { note("C01,C14", "clustering reports %llu points", (unsigned long long)r.n); return; }
	oracle_sc_basic(d, s, r.L, r.ncl);
	flush_viol();
	if (!full || !J.rows || no_orc()) return;
	Out l0 = r;
	if (s.pum != SCC_UM_IGNORE || s.sum != SCC_UM_IGNORE) {
		scc_ClusterOptions o2 = J.A.o; o2.primary_unassigned_method = SCC_UM_IGNORE; o2.secondary_unassigned_method = SCC_UM_IGNORE;
		bool nat = false; with_ref([&] { l0 = run_sc(J, true, &o2); nat = cur->natural; });
		if (nat && l0.ec == SCC_ER_NO_MEMORY) return;
		if (l0.ec != SCC_ER_OK) { FAIL("C01,C16", "the same problem is refused (%s) when leftover points are to be ignored", ecn(l0.ec)); return; }
		if (l0.ncl != r.ncl) { FAIL("C16,C20", "%llu clusters, but %llu when leftover points are ignored", (unsigned long long)r.ncl, (unsigned long long)l0.ncl); return; }
	}
	Cores C = oracle_cores(d, s, J.R, l0.L, l0.ncl);
	flush_viol();
	if (C.ok) oracle_assign(d, s, J.R, C, l0.L, r.L, r.ncl);
	flush_viol();
	if (s.seedm == SCC_SM_BATCHES) {
		u64 h = H(P.seed, cur->op, 0xB5);
		uint32_t alts[] = {0, 1, 2, (uint32_t)(1 + h % d.n), (uint32_t)d.n, (uint32_t)(d.n + 7)};
		for (int i = 0; i < 2; i++) {
			scc_ClusterOptions o2 = J.A.o; o2.batch_size = alts[(h >> (8 * i + 8)) % 6];
			Out b; bool nat = false; with_ref([&] { b = run_sc(J, true, &o2); nat = cur->natural; });
			Out q = r; q.ctr = b.ctr;
			if (nat && b.ec == SCC_ER_NO_MEMORY) continue; // this batch does not fit the simulated machine
			if (!same(q, b)) FAIL("C15", "batch size %u gives another result (%s, %llu clusters) than batch size %u (%llu clusters)", o2.batch_size, ecn(b.ec), (unsigned long long)b.ncl, J.A.o.batch_size, (unsigned long long)r.ncl);
		}
		bool self = true; for (u64 v = 0; v < s.n && self; v++) if (J.R.elig[v]) self = std::find(J.R.raw[v].begin(), J.R.raw[v].end(), v) != J.R.raw[v].end();
		if (self && s.pum == SCC_UM_IGNORE && (u64)s.nq() * s.sc <= ARCMAX) {
			scc_ClusterOptions o2 = J.A.o; o2.seed_method = SCC_SM_LEXICAL;
			Out b; bool nat = false; with_ref([&] { b = run_sc(J, true, &o2); nat = cur->natural; });
			if (nat && b.ec == SCC_ER_NO_MEMORY) { }
			else if (b.ec != SCC_ER_OK || b.ncl != r.ncl || !same_partition(b.L, r.L)) FAIL("C15", "lexical seeding gives another clustering than batches without duplicate points");
		}
	}
	ST.feat["sc seed=" + std::to_string(s.seedm) + " pum=" + std::to_string(s.pum) + " sum=" + std::to_string(s.sum)]++;
	ST.feat["sc radius=" + std::to_string(s.srm) + std::to_string(s.prm) + std::to_string(s.erm)]++;
	if (s.typed()) ST.feat["sc types"]++;
	if (s.hasprim) ST.feat["sc primary"]++;
}
static void recreate(Slot& s, const Slot& pre) { // brings the real object back to the state before the call
	CL* ext = s.ext; s.ext = nullptr;
	scc_free_clustering(&s.c);
	s = pre; s.c = nullptr; s.ext = ext; s.worn = false;
	int ec;
	if (pre.ncl == 0) ec = scc_init_empty_clustering(s.n, ext, &s.c);
	else {
		if (ext) { memcpy(ext, pre.L.data(), s.n * sizeof(CL)); ec = scc_init_existing_clustering(s.n, s.ncl, ext, false, &s.c); }
		else { CL* b = (CL*)malloc(s.n * sizeof(CL)); memcpy(b, pre.L.data(), s.n * sizeof(CL)); ec = scc_init_existing_clustering(s.n, s.ncl, b, true, &s.c); memset(b, 0x5A, s.n * sizeof(CL)); free(b); }
	}
	if (ec != SCC_ER_OK) FAIL("C14", "cannot recreate a clustering (%s)", ecn(ec));
}
static SimData* pick_data(const Line& l) { return datas[(u64)l.g("d") % datas.size()]; }
static void* pick_ptr(Client& k, const Line& l, SimData*& d) {
	if (l.has("ds") && back != B_SIM) { DSlot& x = k.ds[(u64)l.g("ds") % 3]; if (x.p) { d = x.d; return x.p; } }
	return data_ptr(d);
}
// A data set object that goes bad after it has been in use: its bytes are lost for the length of one call.
struct Wipe {
	void* p = nullptr; std::vector<unsigned char> was;
	void go(void* q, u64 h) {
		auto it = blks.find((uintptr_t)q);
		if (p || it == blks.end() || it->second.size > 256) return;
		p = q; was.assign((unsigned char*)q, (unsigned char*)q + it->second.size);
		unsigned char b[256]; fake_fill(b, h); memcpy(q, b, was.size());
		bad_ptrs.insert(q); ST.feat["data set lost its contents"]++;
	}
	~Wipe() { if (p) { memcpy(p, was.data(), was.size()); bad_ptrs.erase(p); } }
};
static int bad_target(const Line& l, SimData* d, void*& dp, int bad, u64 h, Wipe& w) { // bad 1..5 concern objects
	switch (bad) {
		case 3: dp = nullptr; bad_ptrs.insert(nullptr); break;
		case 4: if (l.g("wipe") && dp != data_ptr(d)) { w.go(dp, h); break; } dp = zero_fake(); bad_ptrs.insert(dp); break;
	}
	return bad;
}
static bool prep_sc(Job& job, ScJob& J, Client& k, const Line& l, Wipe& w) {
	J.d = pick_data(l); J.s = &k.s[(u64)l.g("s") % 6];
	J.dp = pick_ptr(k, l, J.d);
	if (!J.s->alive) make_empty(*J.s, J.d->n, l.g("ext"));
	if (J.s->oor) return false;
	int bad = (int)l.g("bad"), bad2 = (int)l.g("bad2"); u64 h = (u64)l.g("bh");
	build_args(J.A, l, *J.d, J.d->n);
	for (int b : {bad, bad2}) {
		if (b == 1) J.fake = (void*)1;
		if (b == 2) { J.fake = zero_fake(); J.target = (scc_Clustering*)J.fake; }
		bad_target(l, J.d, J.dp, b, h, w);
		if (b == 5 && !J.tmp.alive) make_empty(J.tmp, J.d->n <= 2 || (h & 1) ? J.d->n + 1 : J.d->n - 1, false);
		damage(J.A, b, J.d->n, H(h, b));
	}
	if (bad || bad2) resync(J.A, J.d->n);
	J.A.freeze();
	expect_sc(job, J);
	return true;
}
// ---------------------------------------------------------------- the life of one operation
static void gen_faults(const Line& l, int att, const Out& ref) {
	Task& t = *cur;
	t.cur_faults.clear();
	if (!P.adaptive) { for (auto& f : P.faults) if (f.task == t.id && f.op == t.op && f.att == att) t.cur_faults.push_back(f); return; }
	Rng r(H(P.seed, 'F', t.id, t.op, l.g("same") ? 0 : att));
	int nf = r.chance(7, 10) ? 1 : r.chance(2, 3) ? 2 : 3;
	bool real = back != B_SIM;
	for (int i = 0; i < nf; i++) {
		Fault f{t.id, t.op, att, 0, F_NTH, 0, 0};
		std::vector<int> ks;
		for (int q = K_CHECK; q <= K_NNCLOSE; q++) if (ref.ctr.c[q]) ks.push_back(q);
		u64 na = ref.ctr.c[K_ALLOC];
		if (!na && ks.empty()) break;
		bool alloc = ks.empty() || (na && r.chance(3, 5));
		f.kind = alloc ? K_ALLOC : (r.chance(1, 4) && ref.ctr.back) ? K_BACK : ks[r.below(ks.size())];
		u64 cnt = alloc ? na : f.kind == K_BACK ? ref.ctr.back : ref.ctr.c[f.kind];
		f.idx = r.below(cnt);
		u64 m = r.below(10);
		if (m < 6) f.mode = F_NTH;
		else if (m < 8) f.mode = F_FROM;
		else if (m < 9) { f.mode = F_RANGE; f.p = 2 + r.below(4); }
		else if (alloc && r.chance(1, 2)) { f.mode = F_SIZE; f.p = 1ull << (3 + r.below(10)); }
		else { f.mode = F_EVERY; f.p = 2 + r.below(3); }
		t.cur_faults.push_back(f);
		P.faults.push_back(f); emit_plan_line(fault_text(f));
	}
}
static void evaluate(Job& job, const Out& ref, const Out& lv, int att, bool last) {
	Task& t = *cur;
	bool backf = t.inner_fail, closef = t.fired[K_MDCLOSE] || t.fired[K_NNCLOSE], allocf = t.fired[K_ALLOC] || t.natural, checkf = t.fired[K_CHECK];
	for (int q : {K_MATRIX, K_ROWS, K_MDINIT, K_MDGET, K_NNINIT, K_NNSEARCH}) backf |= t.fired[q] > 0;
	bool faults = backf || closef || allocf || checkf;
	const char* nm = job.name.c_str();
	str own = *job.own ? str(",") + job.own : str();
	ST.ec[job.name + " " + (faults ? "faulty " : "") + ecn(lv.ec)]++;
	if (lv.ec == SCC_ER_OK) {
		if (faults) ST.survived++;
		if (backf) note("C04", "%s reports success although the backend failed during it", nm);
		if (checkf) note("C04,C21", "%s reports success although the data set check failed", nm);
		if (!same(ref, lv)) {
			note((str(faults ? "C04" : t.switched ? "C10" : att ? "C05,C10" : "C07,C10") + own).c_str(), "%s: %s, %llu clusters; undisturbed call: %s, %llu clusters%s", nm, ecn(lv.ec), (unsigned long long)lv.ncl, ecn(ref.ec), (unsigned long long)ref.ncl,
			     faults ? " (survived a failure with another result)" : t.switched ? " (interleaved with other clients)" : att ? " (repeated after a failure)" : " (same arguments)");
			if (ref.ec != SCC_ER_OK) note("C21", "%s: accepted what it must refuse with %s", nm, ecn(ref.ec));
			if (job.oracle) { flushing_disabled = true; job.oracle(lv); flushing_disabled = false; }
			flush_viol();
		}
	} else {
		bool real = back != B_SIM;
		bool okc = lv.ec == ref.ec || (lv.ec == SCC_ER_NO_MEMORY && allocf) || (lv.ec == SCC_ER_DIST_SEARCH_ERROR && (backf || closef || (allocf && real))) || (lv.ec == SCC_ER_INVALID_INPUT && checkf);
		if (lv.ec == SCC_ER_TOO_LARGE_PROBLEM && t.natural) okc = true;
		if (!okc) note((str(faults ? "C04" : att ? "C05,C10" : t.switched ? "C10" : "C10,C07") + own).c_str(), "%s returns %s, undisturbed call: %s; injected:%s%s%s%s", nm, ecn(lv.ec), ecn(ref.ec), allocf ? " allocation" : "", backf ? " backend" : "", closef ? " close" : "", checkf ? " check" : "");
		if (!okc && !faults && ref.ec == SCC_ER_OK && (job.name == "sc" || job.name == "hi")) note(job.failtag, "%s refuses a feasible problem with %s", nm, ecn(lv.ec));
		flush_viol();
		if (job.unchanged) job.unchanged(lv);
	}
	flush_viol();
	u64 lim = last ? ref.ctr.total : 2 * ref.ctr.total + 100;
	if (lv.ctr.total > lim && !t.natural) FAIL("C17", "%s needed %llu allocator/backend calls, an undisturbed call %llu", nm, (unsigned long long)lv.ctr.total, (unsigned long long)ref.ctr.total);
}
static void run_job(Job& job, const Line& l) {
	Task& t = *cur;
	Out ref;
	ST.ops++;
	bool nat = false;
	str leak = str("C06") + (job.ex.presearch ? ",C21" : "") + (*job.own ? str(",") + job.own : str());
	with_ref([&] { ref = job.run(true); nat = t.natural; }, leak.c_str());
	const char* nm = job.name.c_str();
	ST.ec["undisturbed " + job.name + " " + ecn(ref.ec)]++;
	bool natok = nat && (ref.ec == SCC_ER_NO_MEMORY || ref.ec == SCC_ER_TOO_LARGE_PROBLEM || (back != B_SIM && ref.ec == SCC_ER_DIST_SEARCH_ERROR));
	if (job.ex.ok) {
		if (ref.ec != SCC_ER_OK && !job.also.count(ref.ec) && !natok) FAIL(job.failtag, "%s refuses a valid request with %s", nm, ecn(ref.ec));
	} else {
		str want; for (int c : job.ex.ec) want += str(" ") + ecn(c);
		str tgs = str(job.ex.presearch ? "C21" : "C21,C01,C18,C19") + (job.ex.ec.count(5) ? ",C19" : "") + (*job.own ? str(",") + job.own : str()); const char* tg = tgs.c_str();
		if (ref.ec == SCC_ER_OK) FAIL(tg, "%s accepts a request it must refuse with%s", nm, want.c_str());
		else if (!job.ex.ec.count(ref.ec) && !natok && !(ref.ec == 5 && job.also.count(5))) FAIL(tg, "%s returns %s, expected%s", nm, ecn(ref.ec), want.c_str());
		if (job.ex.presearch && ref.ctr.back) FAIL("C21", "%s called the backend's search or distance functions before refusing a malformed request", nm);
	}
	if (ref.ec == SCC_ER_OK && job.oracle) job.oracle(ref);
	flush_viol();
	int natt = (int)l.g("natt");
	for (int att = 0; att <= natt; att++) {
		bool last = att == natt;
		t.att = att; ST.attempts++;
		t.cur_faults.clear();
		if (!last) gen_faults(l, att, ref);
		else if (!P.adaptive) gen_faults(l, att, ref);
		t.budget = 4 * ref.ctr.total + 10000;
		size_t h0 = handles.size(); u64 b0 = blk_seq;
		auto used = t.cur_faults;
		Out lv = job.run(false);
		t.cur_faults.clear();
		trace_h = H(trace_h, lv.ec, lv.ncl, lv.ctr.total);
		for (auto x : lv.L) trace_h = H(trace_h, (u64)x);
		check_handles(false, h0);
		bool anyf = t.natural || t.inner_fail; for (int q = 0; q < NK; q++) anyf |= t.fired[q] > 0;
		bool hit = t.hit, lv_nat = t.natural, worn = job.slot && job.slot->worn; u64 pre_h = t.pre_h;
		evaluate(job, ref, lv, att, last && !anyf);
		if (lv.ec != SCC_ER_OK && job.ex.presearch && task_blocks(b0)) FAIL(leak.c_str(), "%s refuses a malformed request and leaves %llu memory block(s) behind", nm, (unsigned long long)task_blocks(b0));
		if (hit && !worn && !lv_nat) { // the same call with the same faults on an untouched library: history must not show
			t.cur_faults = used;
			Out again; u64 ph = 0; bool nat2 = false, hit2 = false;
			t.refault = true;
			with_ref([&] { again = job.run(true); ph = t.pre_h; nat2 = t.natural; hit2 = t.hit; }, leak.c_str());
			t.refault = false; t.cur_faults.clear();
			if (hit2 && !nat2 && ph == pre_h && !same(lv, again)) FAIL((str("C10") + (*job.own ? str(",") + job.own : str())).c_str(), "%s: %s, %llu clusters; the same call with the same faults and no history: %s, %llu clusters", nm, ecn(lv.ec), (unsigned long long)lv.ncl, ecn(again.ec), (unsigned long long)again.ncl);
			ST.feat["faulted call repeated without history"]++;
		}
		ST.states.insert(H(std::hash<str>()(job.name), lv.ec, lv.ncl, lv.ctr.total, ref.ctr.total));
		if (job.slot) job.slot->worn = lv.ec != SCC_ER_OK;
		if ((lv.ec == SCC_ER_OK || (l.g("same") && job.slot)) && !last) { if (job.undo) job.undo(); }
		else if (last && job.commit) job.commit(lv);
	}
	t.att = 0;
}
// ---------------------------------------------------------------- individual operations
static str unch_tags(const Job& job) { return str("C05") + (job.ex.presearch ? ",C21" : "") + (P.profile == "CAP" || P.profile == "HUGE" ? ",C19" : ""); }
static void audit(Client& k, const char* when) { for (auto& s : k.s) check_slot(s, "C14,C10", when); }
static void op_sc(Client& k, const Line& l) {
	Job job; job.name = "sc";
	auto J = std::make_shared<ScJob>();
	Wipe w;
	if (!prep_sc(job, *J, k, l, w)) return;
	Slot pre = *J->s;
	job.failtag = J->A.s.srm || J->A.s.prm == SCC_RM_USE_SUPPLIED || J->A.s.erm == SCC_RM_USE_SUPPLIED || J->A.s.prm == SCC_RM_USE_ESTIMATED || J->A.s.erm == SCC_RM_USE_ESTIMATED ? "C01,C18,C19" : "C01,C19";
	J->unch = unch_tags(job);
	job.slot = J->s;
	job.run = [=](bool ref) { return run_sc(*J, ref); };
	job.oracle = [=](const Out& r) { oracle_sc(*J, r, true); };
	job.unchanged = [=](const Out&) { check_slot(*J->s, J->unch.c_str(), "after a failed call"); if (J->tmp.alive) check_slot(J->tmp, J->unch.c_str(), "after a failed call"); };
	bool plain = !J->fake && !J->target && !J->tmp.alive;
	job.undo = [=] { if (plain) { Slot q = pre; recreate(*J->s, q); } };
	job.commit = [=](const Out& r) { if (plain && r.ec == SCC_ER_OK) { J->s->ncl = r.ncl; J->s->L = r.L; if (J->s->ext && memcmp(J->s->ext, r.L.data(), J->s->n * sizeof(CL))) FAIL("C14", "the caller-supplied label array does not hold the labels"); } };
	run_job(job, l);
	if (J->tmp.alive) kill_slot(J->tmp);
}
static Out run_hi(ScJob& J, uint32_t sc, bool batch, bool ref) {
	Out r;
	bool plain = !J.fake;
	Slot* s = J.tmp.alive ? &J.tmp : J.s;
	scc_Clustering* c = J.fake == (void*)1 ? nullptr : J.fake ? (scc_Clustering*)J.fake : ref ? clone(*s) : s->c;
	if (ref) cur->budget = ref_budget(J.d->n);
	begin_call(ref);
	r.ec = scc_hierarchical_clustering(J.dp, sc, batch, c);
	r.ctr = end_call();
	if (ref) cur->mode = M_REF;
	if (r.ec != SCC_ER_OK) check_error_text(r.ec, "scc_hierarchical_clustering");
	if (plain) {
		if (r.ec == SCC_ER_OK) read_clustering(c, r.n, r.ncl, r.L, P.profile == "CAP" || P.profile == "HUGE" ? "C03,C14,C19" : "C03,C14");
		else if (ref) { Slot t2 = *s; t2.c = c; t2.ext = nullptr; check_slot(t2, J.unch.c_str(), "after a refused call"); }
		if (ref) scc_free_clustering(&c);
	} else if (J.fake != (void*)1 && fake_touched(J.fake)) FAIL("C21", "a refused call wrote into an uninitialised object");
	return r;
}
static void op_hi(Client& k, const Line& l) {
	Job job; job.name = "hi"; job.failtag = "C03,C19";
	auto J = std::make_shared<ScJob>();
	J->d = pick_data(l); J->s = &k.s[(u64)l.g("s") % 6]; J->dp = pick_ptr(k, l, J->d);
	if (!J->s->alive) make_empty(*J->s, J->d->n, l.g("ext"));
	if (J->s->oor) return;
	uint32_t sc = (uint32_t)l.g("sc", 2); bool batch = l.g("batch");
	u64 h = (u64)l.g("bh"); Wipe w;
	switch (l.g("bad")) {
		case 1: J->fake = (void*)1; break;
		case 2: J->fake = zero_fake(); break;
		case 3: case 4: bad_target(l, J->d, J->dp, (int)l.g("bad"), h, w); break;
		case 5: make_empty(J->tmp, J->d->n <= 2 || (h & 1) ? J->d->n + 1 : J->d->n - 1, false); break;
		case 7: sc = 0; break;
		case 8: sc = 1; break;
		case 9: sc = (uint32_t)(J->d->n + 1); break;
	}
	Slot* s = J->tmp.alive ? &J->tmp : J->s;
	auto bad = [&](int c) { job.ex.bad(c); job.ex.presearch = true; };
	if (J->fake || bad_ptrs.count(J->dp)) bad(2);
	if (!J->fake && !bad_ptrs.count(J->dp) && s->n != J->d->n) bad(2);
	if (sc < 2) bad(2);
	if ((J->fake ? J->d->n : s->n) < sc) bad(4);
	if (job.ex.ok) {
		u64 k = 0, lo = 0;
		std::vector<u64> sz(s->ncl ? s->ncl : 1, 0);
		if (s->ncl) { for (auto x : s->L) if (x != SCC_CLABEL_NA) sz[x]++; } else sz[0] = s->n;
		for (u64 x : sz) if (x) { k += std::max<u64>(1, x / sc); lo += x < 2ull * sc ? 1 : (x + 2ull * sc - 2) / (2ull * sc - 1); }
		if (k > CLMAX) job.also.insert(5);
		if (lo > CLMAX) job.ex.bad(5);
	}
	Slot pre = *J->s; Labels prel = s->L; u64 prencl = s->ncl;
	J->unch = unch_tags(job);
	job.slot = J->s;
	job.run = [=](bool ref) { return run_hi(*J, sc, batch, ref); };
	job.oracle = [=](const Out& r) { if (r.n != J->d->n) { note("C03", "clustering reports %llu points", (unsigned long long)r.n); return; } oracle_hi(*J->d, J->d->n, sc, batch, prencl, prel, r.L, r.ncl); };
	job.unchanged = [=](const Out&) { check_slot(*J->s, J->unch.c_str(), "after a failed call"); if (J->tmp.alive) check_slot(J->tmp, J->unch.c_str(), "after a failed call"); };
	bool plain = !J->fake && !J->tmp.alive;
	job.undo = [=] { if (plain) recreate(*J->s, pre); };
	job.commit = [=](const Out& r) { if (plain && r.ec == SCC_ER_OK) { J->s->ncl = r.ncl; J->s->L = r.L; if (J->s->ext && r.ncl && memcmp(J->s->ext, r.L.data(), J->s->n * sizeof(CL))) FAIL("C14", "the caller-supplied label array does not hold the labels"); } };
	run_job(job, l);
	ST.feat[str("hi ") + (batch ? "batch" : "single") + (pre.ncl ? " existing" : " empty")]++;
	if (J->tmp.alive) kill_slot(J->tmp);
}
static void op_check(Client& k, const Line& l) {
	Job job; job.name = "check"; job.failtag = job.own = "C13";
	auto A = std::make_shared<ScArgs>(); Slot* s = &k.s[(u64)l.g("s") % 6];
	if (!s->alive) return;
	SimData* d = pick_data(l);
	build_args(*A, l, *d, s->n);
	u64 h = (u64)l.g("bh"); int bad = (int)l.g("bad");
	void* fake = nullptr; bool noout = bad == 5;
	if (bad == 1) fake = (void*)1; if (bad == 2) fake = zero_fake();
	damage(*A, bad, s->n, h);
	if (bad) resync(*A, s->n);
	A->freeze();
	auto b2 = [&](int c) { job.ex.bad(c); job.ex.presearch = true; };
	if (fake || noout) b2(2); else if (s->ncl == 0) b2(2);
	expect_options(job.ex, *A, s->n, true);
	job.run = [=](bool ref) {
		Out r; scc_Clustering* c = fake == (void*)1 ? nullptr : fake ? (scc_Clustering*)fake : ref ? clone(*s) : s->c;
		bool out = true;
		begin_call(ref); r.ec = scc_check_clustering(c, &A->o, noout ? nullptr : &out); r.ctr = end_call(); if (ref) cur->mode = M_REF;
		if (r.ec != SCC_ER_OK) { check_error_text(r.ec, "scc_check_clustering"); if (!noout && out) FAIL("C05,C13", "scc_check_clustering fails with %s but reports OK", ecn(r.ec)); }
		else r.flag = out;
		A->untouched("scc_check_clustering");
		if (ref && !fake) { Slot t2 = *s; t2.c = c; t2.ext = nullptr; check_slot(t2, "C13", "after a clustering check"); scc_free_clustering(&c); }
		return r;
	};
	Slot pre = *s;
	job.oracle = [=](const Out& r) { bool m = model_check(A->s, s->ncl, s->L); if (r.flag != (int)m) FAIL("C13", "scc_check_clustering says %s, the labels say %s", r.flag ? "OK" : "not OK", m ? "OK" : "not OK"); ST.feat[m ? "check ok" : "check not ok"]++; };
	job.unchanged = [=](const Out&) { check_slot(*s, "C05,C13", "after a failed check"); };
	job.commit = [=](const Out&) { check_slot(*s, "C13", "after a clustering check"); };
	run_job(job, l);
}
static void op_stats(Client& k, const Line& l) {
	Job job; job.name = "stats"; job.failtag = job.own = "C13";
	Slot* s = &k.s[(u64)l.g("s") % 6];
	if (!s->alive || s->oor) return;
	SimData* d = pick_data(l); void* dp = pick_ptr(k, l, d);
	u64 h = (u64)l.g("bh"); int bad = (int)l.g("bad");
	void* fake = nullptr; bool noout = bad == 5;
	if (bad == 1) fake = (void*)1; if (bad == 2) fake = zero_fake();
	Wipe w; bad_target(l, d, dp, bad, h, w);
	auto b2 = [&](int c) { job.ex.bad(c); job.ex.presearch = true; };
	if (fake || noout || bad_ptrs.count(dp)) b2(2); else { if (s->ncl == 0) b2(2); if (s->n != d->n) b2(2); }
	job.run = [=](bool ref) {
		Out r; scc_Clustering* c = fake == (void*)1 ? nullptr : fake ? (scc_Clustering*)fake : ref ? clone(*s) : s->c;
		scc_ClusteringStats st; memset(&st, 0xAB, sizeof st);
		if (ref) cur->budget = ref_budget(d->n) + 8 * s->ncl;
		begin_call(ref); r.ec = scc_get_clustering_stats(dp, c, noout ? nullptr : &st); r.ctr = end_call(); if (ref) cur->mode = M_REF;
		if (r.ec != SCC_ER_OK) {
			check_error_text(r.ec, "scc_get_clustering_stats");
			if (!noout) for (size_t i = 0; i < sizeof st; i++) if (((char*)&st)[i]) { FAIL("C05,C13", "scc_get_clustering_stats fails with %s but leaves a report that is not all zero", ecn(r.ec)); break; }
		} else r.st = st;
		if (ref && !fake) { Slot t2 = *s; t2.c = c; t2.ext = nullptr; check_slot(t2, "C13", "after computing statistics"); scc_free_clustering(&c); }
		return r;
	};
	job.oracle = [=](const Out& r) { scc_ClusteringStats m = model_stats(*d, s->n, s->ncl, s->L); str e = stats_diff(r.st, m); if (!e.empty()) FAIL("C13", "statistics: %s", e.c_str()); };
	job.unchanged = [=](const Out&) { check_slot(*s, "C05,C13", "after failed statistics"); };
	job.commit = [=](const Out&) { check_slot(*s, "C13", "after computing statistics"); };
	run_job(job, l);
}
static void op_init(Client& k, const Line& l) {
	bool ex = l.kind == "initx";
	Slot* s = &k.s[(u64)l.g("s") % 6];
	SimData* d = pick_data(l);
	kill_slot(*s);
	Job job; job.name = l.kind; job.failtag = job.own = "C14";
	u64 n = l.has("n") ? (u64)l.g("n") : d->n, ncl = (u64)l.g("ncl", 1); if (ncl < 1) ncl = 1;
	if (ex && l.has("relcl")) ncl = std::max<u64>(1, n * (u64)l.g("relcl") / 100);
	if (ncl > CLMAX) ncl = CLMAX;
	if (n > PIMAX) n = PIMAX;
	bool ext = l.g("ext"), deep = !ext, noout = false, nolab = false, oor = l.g("oor") && ncl < CLMAX;
	auto m = std::make_shared<Slot>(); m->n = n; m->oor = ex && oor;
	CL* arr = nullptr;
	if (ex) { fill_model_labels(m->L, n, ncl, (u64)l.g("h"), l.g("na", 10), oor); m->ncl = ncl; }
	if (ex || ext) { arr = (CL*)hal(n * sizeof(CL)); if (ex) memcpy(arr, m->L.data(), n * sizeof(CL)); else memset(arr, 0x44, n * sizeof(CL)); }
	u64 an = n, acl = ncl;
	auto bad = [&](int c) { job.ex.bad(c); job.ex.presearch = true; };
	switch (l.g("bad")) {
		case 1: noout = true; bad(2); break;
		case 2: an = 0; bad(2); break;
		case 3: if (PIMAX < ~0ull) { an = PIMAX + 1 + (u64)l.g("bh") % 3; bad(5); } else { an = 0; bad(2); } break;
		case 4: if (ex) { acl = 0; bad(2); } break;
		case 5: if (ex && CLMAX < ~0ull) { acl = CLMAX + 1 + (u64)l.g("bh") % 3; bad(5); } break;
		case 6: if (ex) { nolab = true; bad(2); } break;
	}
	auto got = std::make_shared<scc_Clustering*>(nullptr);
	job.run = [=](bool ref) {
		Out r; scc_Clustering* c = (scc_Clustering*)0x1; CL* a = arr; 
		if (ref && arr) { a = (CL*)malloc(n * sizeof(CL)); if (ex) memcpy(a, m->L.data(), n * sizeof(CL)); else memset(a, 0x44, n * sizeof(CL)); }
		begin_call(ref);
		if (ex) r.ec = scc_init_existing_clustering(an, acl, nolab ? nullptr : a, deep, noout ? nullptr : &c);
		else r.ec = scc_init_empty_clustering(an, ext ? a : nullptr, noout ? nullptr : &c);
		r.ctr = end_call(); if (ref) cur->mode = M_REF;
		if (r.ec != SCC_ER_OK) { check_error_text(r.ec, l.kind.c_str()); if (!noout && c) { FAIL("C05,C14", "%s fails with %s but yields an object", l.kind.c_str(), ecn(r.ec)); } c = nullptr; }
		else {
			r.obj = c != nullptr && !noout;
			if (!r.obj || c == (scc_Clustering*)0x1) { FAIL("C14", "%s succeeds without an object", l.kind.c_str()); return r; }
			if (ex && deep) { memset(a, 0x5A, n * sizeof(CL)); }
			read_clustering(c, r.n, r.ncl, r.L, "C14");
			if (ex && deep && !ref) memcpy(a, m->L.data(), n * sizeof(CL));
		}
		if (ref) { if (c) { scc_free_clustering(&c); if (c) FAIL("C14", "freeing a clustering does not null the pointer"); } if (a) free(a); }
		else *got = c;
		return r;
	};
	job.oracle = [=](const Out& r) { if (r.n != n || r.ncl != m->ncl || r.L != m->L) FAIL("C14", "new clustering does not hold what it was created with (%llu points, %llu clusters)", (unsigned long long)r.n, (unsigned long long)r.ncl); };
	job.undo = [=] { scc_Clustering* c = *got; scc_free_clustering(&c); *got = nullptr; if (arr && !hblocks.count(arr)) FAIL("C14,C06", "the caller's label array was freed"); };
	job.commit = [=](const Out& r) { if (r.ec == SCC_ER_OK) { *s = *m; s->c = *got; s->alive = true; s->ext = ext ? arr : nullptr; } };
	run_job(job, l);
	if (arr && s->ext != arr) hfree(arr);
}
static void op_copy(Client& k, const Line& l) {
	Slot* a = &k.s[(u64)l.g("s") % 6]; Slot* b = &k.s[(u64)l.g("to") % 6];
	if (a == b || !a->alive) return;
	kill_slot(*b);
	Job job; job.name = "copy"; job.failtag = job.own = "C14";
	void* fake = nullptr; bool noout = false;
	auto bad = [&](int c) { job.ex.bad(c); job.ex.presearch = true; };
	switch (l.g("bad")) { case 1: fake = (void*)1; bad(2); break; case 2: fake = zero_fake(); bad(2); break; case 3: noout = true; bad(2); break; }
	auto got = std::make_shared<scc_Clustering*>(nullptr);
	job.run = [=](bool ref) {
		Out r; scc_Clustering* src = fake == (void*)1 ? nullptr : fake ? (scc_Clustering*)fake : ref ? clone(*a) : a->c; scc_Clustering* c = (scc_Clustering*)0x1;
		begin_call(ref); r.ec = scc_copy_clustering(src, noout ? nullptr : &c); r.ctr = end_call(); if (ref) cur->mode = M_REF;
		if (r.ec != SCC_ER_OK) { check_error_text(r.ec, "scc_copy_clustering"); if (!noout && c) FAIL("C05,C14", "scc_copy_clustering fails with %s but yields an object", ecn(r.ec)); c = nullptr; }
		else {
			r.obj = 1;
			if (ref && !fake) { scc_free_clustering(&src); }
			read_clustering(c, r.n, r.ncl, r.L, "C14");
		}
		if (ref) { if (c && !noout) scc_free_clustering(&c); if (!fake && src) scc_free_clustering(&src); } else *got = c;
		return r;
	};
	job.oracle = [=](const Out& r) { if (r.n != a->n || r.ncl != a->ncl || r.L != a->L) FAIL("C14", "copy differs from its source"); };
	job.unchanged = [=](const Out&) { check_slot(*a, "C05,C14", "after a failed copy"); };
	job.undo = [=] { scc_Clustering* c = *got; scc_free_clustering(&c); check_slot(*a, "C14", "after freeing its copy"); };
	job.commit = [=](const Out& r) { if (r.ec == SCC_ER_OK) { *b = Slot(); b->c = *got; b->alive = true; b->n = a->n; b->ncl = a->ncl; b->L = a->L; b->oor = a->oor; } };
	run_job(job, l);
}
static void op_labels(Client& k, const Line& l) {
	Slot* s = &k.s[(u64)l.g("s") % 6];
	if (!s->alive) return;
	Job job; job.name = "labels"; job.failtag = job.own = "C14";
	u64 h = (u64)l.g("h"), len;
	switch (h % 5) { case 0: len = s->n; break; case 1: len = 1; break; case 2: len = s->n + 1 + h % 7; break; case 3: len = std::max<u64>(1, s->n - 1); break; default: len = 1 + (h >> 8) % (2 * s->n); }
	void* fake = nullptr; bool nobuf = false;
	auto bad = [&](int c) { job.ex.bad(c); job.ex.presearch = true; };
	switch (l.g("bad")) { case 1: fake = (void*)1; bad(2); break; case 2: fake = zero_fake(); bad(2); break; case 3: nobuf = true; bad(2); break; case 4: len = 0; bad(2); break; }
	if (!fake && s->ncl == 0) bad(2);
	job.run = [=](bool ref) {
		Out r; scc_Clustering* c = fake == (void*)1 ? nullptr : fake ? (scc_Clustering*)fake : ref ? clone(*s) : s->c;
		CL* b = (CL*)malloc(std::max<u64>(len, 1) * sizeof(CL)); memset(b, 0x66, std::max<u64>(len, 1) * sizeof(CL));
		begin_call(ref); r.ec = scc_get_cluster_labels(c, len, nobuf ? nullptr : b); r.ctr = end_call(); if (ref) cur->mode = M_REF;
		if (r.ec == SCC_ER_OK) r.L.assign(b, b + len); else check_error_text(r.ec, "scc_get_cluster_labels");
		free(b);
		if (ref && !fake) scc_free_clustering(&c);
		return r;
	};
	job.oracle = [=](const Out& r) { for (u64 i = 0; i < len; i++) { CL w = i < s->n ? s->L[i] : SCC_CLABEL_NA; if (r.L[i] != w) { FAIL("C14", "exported label %llu of %llu is %lld, expected %lld", (unsigned long long)i, (unsigned long long)len, (long long)r.L[i], (long long)w); break; } } };
	job.unchanged = [=](const Out&) { check_slot(*s, "C05,C14", "after a refused label export"); };
	run_job(job, l);
}
static void op_info(Client& k, const Line& l) {
	Slot* s = &k.s[(u64)l.g("s") % 6];
	int bad = (int)l.g("bad");
	if (bad) {
		void* f = bad == 1 ? nullptr : zero_fake(); uint64_t a = 77, b = 78;
		int ec = scc_get_clustering_info((scc_Clustering*)f, &a, &b);
		if (ec != SCC_ER_INVALID_INPUT) FAIL("C21", "inspecting an invalid clustering gives %s", ecn(ec)); else check_error_text(ec, "scc_get_clustering_info");
		if (scc_is_initialized_clustering((scc_Clustering*)f)) FAIL("C21,C14", "an uninitialised clustering is reported as initialised");
		return;
	}
	if (!s->alive) return;
	uint64_t a = 77, b = 78;
	int ec = scc_get_clustering_info(s->c, l.g("h") & 1 ? nullptr : &a, l.g("h") & 2 ? nullptr : &b);
	if (ec != SCC_ER_OK) FAIL("C14", "inspecting a clustering gives %s", ecn(ec));
	if ((!(l.g("h") & 1) && a != s->n) || (!(l.g("h") & 2) && b != s->ncl)) FAIL("C14", "clustering reports %llu points, %llu clusters; it has %llu and %llu", (unsigned long long)a, (unsigned long long)b, (unsigned long long)s->n, (unsigned long long)s->ncl);
	check_slot(*s, "C14", "on inspection");
}
static void op_free(Client& k, const Line& l) {
	Slot* s = &k.s[(u64)l.g("s") % 6];
	if (l.g("null")) { scc_free_clustering(nullptr); scc_Clustering* c = nullptr; scc_free_clustering(&c); if (c) FAIL("C14", "freeing a null clustering sets the pointer"); }
	if (s->alive) kill_slot(*s);
}
static void op_ds(Client& k, const Line& l) {
	DSlot* x = &k.ds[(u64)l.g("ds") % 3];
	SimData* d = pick_data(l);
	auto drop = [&] {
		if (!x->p) return;
		data_by_ptr.erase(x->p);
		scc_free_data_set(&x->p);
		if (x->p) FAIL("C14", "freeing a data set does not null the pointer");
		scc_free_data_set(&x->p);
		x->d = nullptr;
	};
	if (l.kind == "dsfree") { drop(); if (l.g("null")) scc_free_data_set(nullptr); return; }
	if (d->implicit) return;
	drop();
	Job job; job.name = "dsinit"; job.failtag = job.own = "C14";
	u64 n = d->n; uint32_t dim = (uint32_t)d->dim; size_t len = n * dim + (l.g("h") & 1) * 3; const double* mat = d->mat; bool noout = false, foreign = false;
	auto bad = [&](int c) { job.ex.bad(c); job.ex.presearch = true; };
	switch (l.g("bad")) {
		case 1: noout = true; bad(2); break;
		case 2: n = 0; bad(2); break;
		case 3: if (PIMAX < ~0ull) { n = PIMAX + 1; len = SIZE_MAX; bad(5); } break;
		case 4: dim = 0; bad(2); break;
		case 5: dim = 65536 + (uint32_t)(l.g("bh") % 2) * 1000; len = n * dim; bad(5); break;
		case 6: len = n * dim - 1; bad(2); break;
		case 7: mat = nullptr; bad(2); break;
		case 9: { static double* wide = (double*)calloc(65535, sizeof(double)); n = 1; dim = 65535; len = 65535; mat = wide; foreign = true; break; }
		case 10: if (PIMAX == ~0ull) { static const u64 D[] = {2, 4, 16, 256, 32768}; dim = (uint32_t)D[l.g("bh") % 5]; n = (u64)(-1) / dim + 1 + d->n % 3; len = d->n * d->dim; bad(2); job.ex.ec.insert(5); } break;
		case 8: { scc_DataSet* f = (scc_DataSet*)zero_fake(); if (scc_is_initialized_data_set(f) || scc_is_initialized_data_set(nullptr)) FAIL("C21,C14", "an uninitialised data set is reported as initialised"); break; }
	}
	auto got = std::make_shared<scc_DataSet*>(nullptr);
	job.run = [=](bool ref) {
		Out r; scc_DataSet* c = (scc_DataSet*)0x1;
		begin_call(ref); r.ec = scc_init_data_set(n, dim, len, mat, noout ? nullptr : &c); r.ctr = end_call(); if (ref) cur->mode = M_REF;
		if (r.ec != SCC_ER_OK) { check_error_text(r.ec, "scc_init_data_set"); if (!noout && c) FAIL("C05,C14", "scc_init_data_set fails with %s but yields an object", ecn(r.ec)); c = nullptr; }
		else { r.obj = 1; if (!scc_is_initialized_data_set(c)) FAIL("C14", "a new data set is reported as not initialised"); }
		if (ref) { if (!noout && c) { scc_free_data_set(&c); if (c) FAIL("C14", "freeing a data set does not null the pointer"); } } else *got = c;
		return r;
	};
	job.undo = [=] { scc_DataSet* c = *got; scc_free_data_set(&c); };
	job.commit = [=](const Out& r) { if (r.ec == SCC_ER_OK && foreign) { scc_DataSet* c = *got; scc_free_data_set(&c); } else if (r.ec == SCC_ER_OK) { x->p = *got; x->d = d; data_by_ptr[x->p] = d; } };
	run_job(job, l);
}
// ---------------------------------------------------------------- installation (C09)
static void probe_table(const char* when) {
	SimData* d = nullptr; for (auto* q : datas) if (!q->implicit && q->n >= 2) { d = q; break; }
	if (!d) return;
	in_direct = true;
	void* dp = data_ptr(d);
	for (int f = 0; f < NFN; f++) {
		u64 before[3]; for (int v = 0; v < 3; v++) before[v] = vcalls[v][f];
		double out[4]; PI pi[4] = {0, 1, 0, 0}, oi[4], oq[4]; size_t nok; bool ok = true;
		iscc_MaxDistObject* mo = nullptr; iscc_NNSearchObject* no = nullptr;
		switch (f) {
			case FN_CHECK: ok = iscc_check_data_set(dp); break;
			case FN_NUM: ok = iscc_num_data_points(dp) == d->n; break;
			case FN_MATRIX: ok = iscc_get_dist_matrix(dp, 2, pi, out); break;
			case FN_ROWS: ok = iscc_get_dist_rows(dp, 1, pi, 1, pi + 1, out); break;
			case FN_MDI: ok = iscc_init_max_dist_object(dp, 2, pi, &mo); if (ok) { ok = iscc_get_max_dist(mo, 1, pi, oi, out) && oi[0] < 2; ok &= iscc_close_max_dist_object(&mo); } break;
			case FN_NNI: ok = iscc_init_nn_search_object(dp, 2, pi, &no); if (ok) { ok = iscc_nearest_neighbor_search(no, 1, pi, 1, false, 0, &nok, oq, oi) && nok == 1; ok &= iscc_close_nn_search_object(&no); } break;
			default: continue;
		}
		for (int g = f; g < NFN && g < ((f == FN_MDI || f == FN_NNI) ? f + 3 : f + 1); g++) for (int v = 0; v < 3; v++) {
			bool called = g == f ? vcalls[v][g] != before[v] : vcalls[v][g] != 0 && inst[g] == v;
			if (g == f && called != (inst[f] == v)) FAIL("C09", "%s: %s goes to %s", when, FNN[f], called ? "a function that should no longer be installed" : "another function than the one installed last");
		}
		if (!ok) FAIL("C09", "%s: %s does not work", when, FNN[f]);
	}
	in_direct = false;
}
static void op_spi(Client& k, const Line& l) {
	if (l.kind == "reset") {
		if (!scc_reset_dist_functions()) FAIL("C09", "reset was refused");
		for (int f = 0; f < NFN; f++) inst[f] = -1;
		probe_table("after a reset");
		return;
	}
	int mask = (int)l.g("mask"), v = (int)l.g("v") % 3;
	bool want = true;
	for (int b : {4, 7}) { int m = (mask >> b) & 7; if (m != 0 && m != 7) want = false; }
	bool ok = spi_set(mask, v);
	if (ok != want) { FAIL("C09", want ? "a complete installation was refused" : "an incomplete search-object triple was accepted"); return; }
	if (want) for (int f = 0; f < NFN; f++) if (mask >> f & 1) inst[f] = v;
	probe_table(want ? "after an installation" : "after a refused installation");
	ST.feat[want ? "spi install" : "spi refused"]++;
}
// ---------------------------------------------------------------- the shipped backends called directly (C12)
static double tolr() { return back == B_ANN ? 1e-9 : 1e-12; }

static std::vector<u64> pick_set(u64 n, u64 h, int dens) {
	std::vector<u64> m;
	if (dens == 4) { std::set<u64> z; for (u64 j = 0; j < 1 + h % 5; j++) z.insert(H(h, j, 11) % 2 ? n - 1 - H(h, j) % std::min<u64>(n, 900) : H(h, j) % n); m.assign(z.begin(), z.end()); } // few
	else for (u64 i = 0; i < n; i++) { u64 x = H(h, i) % 8; bool in = dens == 0 || (dens == 1 && x < 4) || (dens == 2 && x < 1) || (dens == 3 && x < 7); if (in) m.push_back(i); }
	if (dens == 5) { m.clear(); for (u64 j = 0; j < std::min<u64>(n, 1 + h % 3); j++) m.push_back(j); } // the first few
	if (m.empty()) m.push_back(H(h, 7) % n);
	if (h & 1) { Rng r(h); for (size_t i = m.size() - 1; i > 0; i--) std::swap(m[i], m[r.below(i + 1)]); }
	return m;
}
template <class F> static bool attempts(const Line& l, const char* nm, u64 allocs, F f) { // f(): performs the call, true on success
	int natt = (int)l.g("natt"); Task& t = *cur;
	for (int att = 0; att <= natt; att++) {
		t.att = att; t.cur_faults.clear(); ST.attempts++;
		Out r; r.ctr.clear(); r.ctr.c[K_ALLOC] = allocs;
		if (att < natt || !P.adaptive) gen_faults(l, att, r);
		t.budget = 5000000;
		u64 b0 = blk_seq;
		begin_call(false);
		bool ok = f();
		end_call();
		t.cur_faults.clear();
		bool hit = t.fired[K_ALLOC] > 0 || t.natural;
		ST.ec[str(nm) + (ok ? " OK" : " failed") + (hit ? " faulty" : "")]++;
		trace_h = H(trace_h, ok, t.ctr.total);
		if (!ok && !hit) FAIL("C12", "%s reports failure although nothing failed", nm);
		if (!ok && task_blocks(b0)) FAIL("C12,C06", "%s failed and left %lld memory block(s) behind", nm, (long long)task_blocks(b0));
		if (ok && att < natt && str(nm) == "search object set-up") { t.att = 0; return true; }
		if (ok && att == natt) { t.att = 0; return true; }
	}
	t.att = 0;
	return false;
}
static void op_bopen(Client& k, const Line& l, bool mx) {
	BSlot& b = mx ? k.m[(u64)l.g("b") % 3] : k.b[(u64)l.g("b") % 3];
	if (b.open) return;
	SimData* d = pick_data(l); if (d->implicit) return;
	ST.ops++;
	int dens = (int)l.g("dens");
	b.d = d; b.idx = nullptr; b.mem.clear();
	if (dens < 0) { u64 len = 1 + (u64)l.g("h") % d->n; if (dens == -1) len = d->n; for (u64 i = 0; i < len; i++) b.mem.push_back(i); }
	else { b.mem = pick_set(d->n, (u64)l.g("h"), dens); b.idx = (PI*)hal(b.mem.size() * sizeof(PI)); for (size_t i = 0; i < b.mem.size(); i++) b.idx[i] = (PI)b.mem[i]; }
	b.len = b.mem.size();
	bool ok = attempts(l, "search object set-up", 2, [&] {
		if (mx) { iscc_MaxDistObject* o = nullptr; bool r = iscc_init_max_dist_object(d->real, b.len, b.idx, &o); b.o = o; return r; }
		iscc_NNSearchObject* o = nullptr; bool r = iscc_init_nn_search_object(d->real, b.len, b.idx, &o); b.o = o; return r; });
	if (!ok) { hfree(b.idx); b.idx = nullptr; return; }
	if (!b.o) { FAIL("C12", "search object set-up succeeds without an object"); return; }
	b.open = true;
}
static void close_b(BSlot& b, bool mx) {
	if (!b.open) return;
	bool ok; void* left;
	if (mx) { iscc_MaxDistObject* o = (iscc_MaxDistObject*)b.o; ok = iscc_close_max_dist_object(&o); left = o; }
	else { iscc_NNSearchObject* o = (iscc_NNSearchObject*)b.o; ok = iscc_close_nn_search_object(&o); left = o; }
	if (!ok || left) FAIL("C12", "closing a search object %s", ok ? "does not null the pointer" : "fails");
	hfree(b.idx);
	b = BSlot();
}
static void op_bsearch(Client& k, const Line& l) {
	BSlot& b = k.b[(u64)l.g("b") % 3];
	if (!b.open) return;
	ST.ops++;
	SimData& d = *b.d; u64 h = (u64)l.g("h");
	std::vector<u64> qs; bool seq = (int)l.g("qd") < 0;
	if (seq) { u64 m = 1 + h % d.n; for (u64 i = 0; i < m; i++) qs.push_back(i); } else qs = pick_set(d.n, h, (int)l.g("qd"));
	if (!seq && l.g("rep")) { qs.push_back(qs[0]); qs.push_back(qs[qs.size() / 2]); }
	u64 kk = 1 + (u64)l.g("k") % b.len; if (l.g("kall")) kk = b.len;
	bool rs = l.g("rs"); double r = rs ? d.radius(l.g("rh"), l.g("rf")) : (h & 64 ? -1.0 : 0.0);
	bool alias = l.g("alias") && !seq, noq = l.g("noq") && !rs && !alias;
	size_t nq = qs.size();
	PI* q = nullptr; if (!seq) { q = (PI*)malloc(nq * sizeof(PI)); }
	PI* oq = noq ? nullptr : alias ? q : (PI*)malloc(nq * sizeof(PI));
	PI* on = (PI*)malloc(nq * kk * sizeof(PI));
	size_t nok = 0;
	double* dm = (double*)malloc(d.n * d.dim * sizeof(double)); memcpy(dm, d.mat, d.n * d.dim * sizeof(double));
	bool ok = attempts(l, "nearest neighbour search", 2, [&] {
		if (q) for (size_t i = 0; i < nq; i++) q[i] = (PI)qs[i];
		if (oq && !alias) memset(oq, 0x77, nq * sizeof(PI));
		memset(on, 0x77, nq * kk * sizeof(PI)); nok = nq + 5;
		return iscc_nearest_neighbor_search((iscc_NNSearchObject*)b.o, nq, q, (uint32_t)kk, rs, r, &nok, oq, on); });
	if (memcmp(dm, d.mat, d.n * d.dim * sizeof(double))) FAIL("C12,C07", "a search modified the data matrix");
	free(dm);
	if (b.idx) for (size_t i = 0; i < b.len; i++) if ((u64)b.idx[i] != b.mem[i]) { FAIL("C12,C07", "a search modified the search indices"); break; }
	if (q && !alias) for (size_t i = 0; i < nq; i++) if ((u64)q[i] != qs[i]) { FAIL("C12,C07", "a search modified the query indices"); break; }
	if (ok) {
		ST.oracles++;
		size_t at = 0; double tol = tolr();
		std::vector<char> member(d.n, 0); for (u64 m : b.mem) member[m] = 1;
		std::vector<u64> seen(d.n, 0);
		for (size_t i = 0; i < nq && pend.empty(); i++) {
			std::vector<double> ds; for (u64 m : b.mem) ds.push_back(d.sq(qs[i], m));
			std::sort(ds.begin(), ds.end());
			double kd = sqrt(ds[kk - 1]); bool must = true, may = true;
			if (rs) { must = kd <= r * (1 - tol) || (d.integral() && back != B_ANN && ds[kk - 1] == r * r); may = kd <= r * (1 + tol); }
			bool here = at < nok && (!oq || (u64)oq[at] == qs[i]);
			if (noq) here = at < nok;
			if (here && !may && oq) here = false;
			if (must && !here) { note("C12", "query point %llu has %llu points within the radius but is not answered (answers so far %zu of %zu)", (unsigned long long)qs[i], (unsigned long long)kk, at, nok); break; }
			if (!must && here && oq) { // boundary: accept if the answer is for this query
			}
			if (!here) continue;
			for (u64 t = 0; t < kk; t++) {
				u64 x = (u64)on[at * kk + t];
				if (x >= d.n || !member[x]) { note("C12", "neighbour %llu of query %llu is not in the search set", (unsigned long long)x, (unsigned long long)qs[i]); break; }
				if (seen[x] == at + 1) { note("C12", "neighbour %llu of query %llu is returned twice", (unsigned long long)x, (unsigned long long)qs[i]); break; }
				seen[x] = at + 1;
				double got = sqrt(d.sq(qs[i], x)), wantd = sqrt(ds[t]);
				if (fabs(got - wantd) > tol * std::max(got, wantd)) { note("C12", "neighbour %llu of %llu of query %llu lies at %.17g, the %llu-th nearest at %.17g", (unsigned long long)t, (unsigned long long)kk, (unsigned long long)qs[i], got, (unsigned long long)t, wantd); break; }
			}
			at++;
		}
		if (pend.empty() && at != nok) note("C12", "%zu queries reported as answered, %zu have enough points within the radius", nok, at);
		ST.feat[str("backend search ") + (rs ? "radius" : "plain") + (alias ? " aliased" : "")]++;
		if (nok <= nq) for (size_t i = 0; i < nok * kk; i++) trace_h = H(trace_h, (u64)on[i]);
	}
	free(on); if (!alias) free(oq); free(q);
	flush_viol();
}
static void op_mget(Client& k, const Line& l) {
	BSlot& b = k.m[(u64)l.g("b") % 3];
	if (!b.open) return;
	ST.ops++;
	SimData& d = *b.d; u64 h = (u64)l.g("h"); bool seq = (int)l.g("qd") < 0;
	std::vector<u64> qs; if (seq) { u64 m = 1 + h % d.n; for (u64 i = 0; i < m; i++) qs.push_back(i); } else qs = pick_set(d.n, h, (int)l.g("qd"));
	size_t nq = qs.size();
	PI* q = seq ? nullptr : (PI*)malloc(nq * sizeof(PI)); PI* oi = (PI*)malloc(nq * sizeof(PI)); double* od = (double*)malloc(nq * sizeof(double));
	if (q) for (size_t i = 0; i < nq; i++) q[i] = (PI)qs[i];
	bool ok = attempts(l, "farthest point search", 0, [&] { memset(oi, 0x77, nq * sizeof(PI)); memset(od, 0x77, nq * 8); return iscc_get_max_dist((iscc_MaxDistObject*)b.o, nq, q, oi, od); });
	std::vector<char> member(d.n, 0); for (u64 m : b.mem) member[m] = 1;
	if (ok) for (size_t i = 0; i < nq; i++) {
		ST.oracles++;
		double m = -1; for (u64 x : b.mem) m = std::max(m, d.sq(qs[i], x)); m = sqrt(m);
		u64 x = (u64)oi[i];
		if (x >= d.n || !member[x]) { note("C12", "farthest point of %llu is not in the search set", (unsigned long long)qs[i]); break; }
		double g = sqrt(d.sq(qs[i], x));
		if (!(fabs(g - m) <= 1e-12 * m && fabs(od[i] - m) <= 1e-12 * m)) { note("C12", "farthest point of %llu: index at %.17g, distance %.17g, farthest is %.17g", (unsigned long long)qs[i], g, od[i], m); break; }
	}
	free(q); free(oi); free(od);
	flush_viol();
}
static void op_dist(Client& k, const Line& l) {
	SimData* dd = pick_data(l); if (dd->implicit) return; SimData& d = *dd; u64 h = (u64)l.g("h");
	ST.ops++;
	auto list = [&](int dens, u64 hh, bool& seq) { std::vector<u64> v; seq = dens < 0; if (seq) { u64 m = 1 + hh % d.n; for (u64 i = 0; i < m; i++) v.push_back(i); } else v = pick_set(d.n, hh, dens); return v; };
	auto arr = [](const std::vector<u64>& v, bool seq) -> PI* { if (seq) return nullptr; PI* p = (PI*)malloc(v.size() * sizeof(PI)); for (size_t i = 0; i < v.size(); i++) p[i] = (PI)v[i]; return p; };
	bool s1, s2; auto a = list((int)l.g("qd"), h, s1), c = list((int)l.g("cd"), H(h, 3) & 0xffffff, s2);
	PI *pa = arr(a, s1), *pc = arr(c, s2);
	if (l.kind == "matrix") {
		if (a.size() >= 2) {
			size_t m = a.size() * (a.size() - 1) / 2; double* out = (double*)malloc(m * 8); size_t w = 0;
			bool ok = attempts(l, "distance matrix", 0, [&] { return iscc_get_dist_matrix(d.real, a.size(), pa, out); });
			if (ok) for (size_t i = 0; i < a.size(); i++) for (size_t j = i + 1; j < a.size(); j++, w++) if (!(fabs(out[w] - sqrt(d.sq(a[i], a[j]))) <= 1e-12 * out[w])) { note("C12", "distance matrix entry for %llu,%llu is %.17g", (unsigned long long)a[i], (unsigned long long)a[j], out[w]); i = a.size(); break; }
			free(out);
		}
	} else {
		double* out = (double*)malloc(a.size() * c.size() * 8); size_t w = 0;
		bool ok = attempts(l, "distance rows", 0, [&] { return iscc_get_dist_rows(d.real, a.size(), pa, c.size(), pc, out); });
		if (ok) for (size_t i = 0; i < a.size(); i++) for (size_t j = 0; j < c.size(); j++, w++) if (!(fabs(out[w] - sqrt(d.sq(a[i], c[j]))) <= 1e-12 * out[w])) { note("C12", "distance of %llu and %llu is given as %.17g", (unsigned long long)a[i], (unsigned long long)c[j], out[w]); i = a.size(); break; }
		free(out);
	}
	free(pa); free(pc);
	ST.oracles++;
	flush_viol();
}
// ---------------------------------------------------------------- more points than 31 bits count, on a machine that has the memory
// A small clustering that claims more clusters than any array can hold: refused, or handled without touching foreign memory.
static void op_claim(const Line& l) {
	SimData* d = pick_data(l); Task& t = *cur; ST.ops++; u64 n = d->n, b0 = blk_seq, k = (u64)l.g("k"), nt = (u64)l.g("nt"); t.budget = 2000;
	if (k > (u64)CLMAX || n > 1000) return;
	CL* a = (CL*)malloc(n * sizeof(CL)); for (u64 i = 0; i < n; i++) a[i] = i % 7 == 3 ? SCC_CLABEL_NA : (CL)(i % 3);
	std::vector<CL> L(a, a + n); scc_Clustering *c = nullptr, *c2 = nullptr;
	auto call = [&](const std::function<scc_ErrorCode()>& f) { begin_call(false); scc_ErrorCode ec = f(); end_call(); trace_h = H(trace_h, ec, t.ctr.total); ST.ec[str("claim ") + ecn(ec)]++; return ec; };
	auto same = [&](scc_Clustering* x, const char* w) {
		u64 nn = 0, kk = 0; std::vector<CL> o(n); call([&] { return scc_get_clustering_info(x, &nn, &kk); }); call([&] { return scc_get_cluster_labels(x, n, o.data()); });
		if (nn != n || kk != k || o != L) FAIL("C19,C05,C14", "%s: %llu points in %llu claimed clusters: now %llu and %llu", w, (unsigned long long)n, (unsigned long long)k, (unsigned long long)nn, (unsigned long long)kk);
	};
	auto refused = [&](scc_ErrorCode ec, const char* w) { if (ec != SCC_ER_NO_MEMORY && ec != SCC_ER_TOO_LARGE_PROBLEM) FAIL("C19,C04", "%s with %llu claimed clusters: %s", w, (unsigned long long)k, ecn(ec)); };
	if (call([&] { return scc_init_existing_clustering(n, k, a, !l.g("ext"), &c); }) != SCC_ER_OK) FAIL("C19,C14", "cannot set up a clustering with %llu clusters", (unsigned long long)k);
	switch (l.g("what") % 4) {
	case 0: {
		bool ok = true; scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = (uint32_t)l.g("sc"); std::vector<uint32_t> tc(nt, 0); std::vector<scc_TypeLabel> tl(n);
		for (u64 i = 0; i < n; i++) tl[i] = nt ? (scc_TypeLabel)(i % nt) : 0;
		if (nt >= 2) { o.num_types = (uint32_t)nt; o.type_constraints = tc.data(); o.type_labels = tl.data(); o.len_type_labels = n; }
		scc_ErrorCode ec = call([&] { return scc_check_clustering(c, &o, &ok); });
		if (ec != SCC_ER_OK) refused(ec, "check");
		if (ok) FAIL("C13,C19", "check approves %llu clusters for %llu points", (unsigned long long)k, (unsigned long long)n);
		break; }
	case 1: {
		scc_ClusteringStats st, z; memset(&st, 0x55, sizeof st); memset(&z, 0, sizeof z);
		scc_ErrorCode ec = call([&] { return scc_get_clustering_stats(d->cookie, c, &st); });
		refused(ec, "statistics"); if (st.num_data_points || st.num_clusters || st.sum_dists != 0) FAIL("C13,C05", "failed statistics leave a report behind");
		break; }
	case 2: { scc_ErrorCode ec = call([&] { return scc_hierarchical_clustering(d->cookie, (uint32_t)l.g("sc"), false, c); }); refused(ec, "refinement"); break; }
	default:
		if (call([&] { return scc_copy_clustering(c, &c2); }) != SCC_ER_OK) FAIL("C19,C14", "cannot copy a clustering that claims %llu clusters", (unsigned long long)k);
		same(c2, "copy"); call([&] { scc_free_clustering(&c2); return SCC_ER_OK; });
	}
	same(c, "afterwards");
	call([&] { scc_free_clustering(&c); return SCC_ER_OK; }); free(a);
	if (task_blocks(b0)) FAIL("C06,C19", "%llu memory block(s) left behind", (unsigned long long)task_blocks(b0));
	ST.oracles++; ST.feat["claimed clusters"]++;
}
static void op_vast(const Line& l) {
	if (l.g("w") == 6) { op_claim(l); return; }
	SimData* d = pick_data(l); if (!d->implicit || d->n < (1u << 28) || !vast) return;
	Task& t = *cur; ST.ops++; u64 n = d->n, b0 = blk_seq, sc = (u64)l.g("sc"); static const char* W[] = {"hi", "stats", "check", "copy", "sc", "types"}; str what = W[(u64)l.g("w") % 6]; t.budget = 200;
	CL* ext = nullptr; scc_Clustering* c = nullptr;
	auto call = [&](const std::function<scc_ErrorCode()>& f) { begin_call(false); scc_ErrorCode ec = f(); end_call(); trace_h = H(trace_h, ec, t.ctr.total); ST.ec[str("vast ") + what + " " + ecn(ec)]++; return ec; };
	if (l.g("ext")) ext = (CL*)vast_map(n * sizeof(CL)); // all zero: everyone in the first cluster
	if (call([&] { return ext && !l.g("empty") ? scc_init_existing_clustering(n, 1 + (u64)l.g("more"), ext, l.g("copy"), &c) : scc_init_empty_clustering(n, nullptr, &c); }) != SCC_ER_OK) FAIL("C19,C14", "cannot set up a clustering of %llu points", (unsigned long long)n);
	u64 calls = 0; bool made = !(ext && !l.g("empty"));
	auto backend = [&] { u64 s = 0; for (int k = 0; k < NK; k++) if (k != K_ALLOC && k != K_FREE && k != K_NUM && k != K_CHECK) s += t.ctr.c[k]; return s; };
	if (what == "hi") { // fewer than twice the constraint: must be left in one piece
		scc_ErrorCode ec = call([&] { return scc_hierarchical_clustering(d->cookie, (uint32_t)sc, l.g("batch"), c); }); calls = backend();
		bool expect = n < 2 * sc && n >= sc;
		if (expect && (ec != SCC_ER_OK || calls)) FAIL("C19,C03", "%llu points, size constraint %llu: %s after %llu backend calls, although there is nothing to split", (unsigned long long)n, (unsigned long long)sc, ecn(ec), (unsigned long long)calls);
		if (expect) {
			CL head[1000]; size_t k = 0, nn = 0;
			call([&] { return scc_get_clustering_info(c, &nn, &k); });
			call([&] { return scc_get_cluster_labels(c, 1000, head); });
			if (nn != n || k != 1) FAIL("C19,C03", "one cluster of %llu points: the result has %llu clusters", (unsigned long long)n, (unsigned long long)k);
			for (CL x : head) if (x != 0) FAIL("C19,C03", "one cluster of %llu points: label %lld", (unsigned long long)n, (long long)x);
		}
	} else if (what == "sc" || what == "types") {
		scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = (uint32_t)sc; o.seed_method = (scc_SeedMethod)l.g("seedm"); o.batch_size = (uint32_t)l.g("bs"); o.primary_unassigned_method = SCC_UM_ANY_NEIGHBOR;
		uint32_t tc[3] = {1u << 31, 1u << 31, (uint32_t)l.g("rest")}; scc_TypeLabel* tl = nullptr;
		if (what == "types") {
			tl = (scc_TypeLabel*)vast_map(n * sizeof(scc_TypeLabel)); for (size_t i = 0; i < VAST_PIECE / sizeof(scc_TypeLabel); i++) tl[i] = (scc_TypeLabel)(i & 1); // all pieces are the same memory
			o.num_types = 2; o.type_constraints = tc; o.type_labels = tl; o.len_type_labels = n;
			if (l.g("rest")) tc[0] = (uint32_t)((1u << 31) - 5 + l.g("rest"));
		}
		scc_ErrorCode ec = call([&] { return scc_sc_clustering(d->cookie, &o, c); });
		u64 k = 1, nn = 0; call([&] { return scc_get_clustering_info(c, &nn, &k); });
		if (what == "types") { if (ec != SCC_ER_INVALID_INPUT && ec != SCC_ER_NO_MEMORY && ec != SCC_ER_TOO_LARGE_PROBLEM && ec != SCC_ER_NO_SOLUTION) FAIL("C19,C21", "%u and %u points of each type demanded in clusters of %llu: %s", tc[0], tc[1], (unsigned long long)sc, ecn(ec)); }
		else if (ec != SCC_ER_NO_MEMORY && ec != SCC_ER_TOO_LARGE_PROBLEM) FAIL("C19", "%llu neighbours for each of %llu points: %s", (unsigned long long)sc, (unsigned long long)n, ecn(ec));
		if (k || nn != n) FAIL("C19,C05", "a refused request leaves %llu clusters of %llu points", (unsigned long long)k, (unsigned long long)nn);
		if (tl) vast_unmap(tl, n * sizeof(scc_TypeLabel));
	} else if (what == "stats" && !made) { // the distance matrix cannot fit
		scc_ClusteringStats st, z; memset(&st, 0x55, sizeof st); memset(&z, 0, sizeof z);
		scc_ErrorCode ec = call([&] { return scc_get_clustering_stats(d->cookie, c, &st); });
		if (ec != SCC_ER_NO_MEMORY && ec != SCC_ER_TOO_LARGE_PROBLEM) FAIL("C19,C13", "statistics of a cluster of %llu points: %s", (unsigned long long)n, ecn(ec));
		if (st.num_data_points || st.num_assigned || st.num_clusters || st.max_cluster_size || st.sum_dists != 0) FAIL("C13,C05", "failed statistics leave a report behind");
	} else if (what == "check" && !made) {
		bool ok = false; scc_ClusterOptions o = scc_get_default_options(); o.size_constraint = (uint32_t)sc;
		scc_ErrorCode ec = call([&] { return scc_check_clustering(c, &o, &ok); });
		if (sc <= n && (ec != SCC_ER_OK || ok != !l.g("more"))) FAIL("C19,C13", "check of a cluster of %llu points against size %llu: %s, %s", (unsigned long long)n, (unsigned long long)sc, ecn(ec), ok ? "fine" : "not fine");
	} else if (what == "copy" && !made) {
		scc_Clustering* c2 = nullptr; CL head[100]; size_t k = 0, nn = 0;
		if (call([&] { return scc_copy_clustering(c, &c2); }) != SCC_ER_OK) FAIL("C19,C14", "cannot copy a clustering of %llu points", (unsigned long long)n);
		call([&] { return scc_get_clustering_info(c2, &nn, &k); });
		call([&] { return scc_get_cluster_labels(c2, 100, head); });
		if (nn != n || k != 1 + (u64)l.g("more")) FAIL("C19,C14", "the copy reports %llu points, %llu clusters", (unsigned long long)nn, (unsigned long long)k);
		for (CL x : head) if (x != 0) FAIL("C19,C14", "a copied label is %lld", (long long)x);
		call([&] { scc_free_clustering(&c2); return SCC_ER_OK; });
	}
	call([&] { scc_free_clustering(&c); return SCC_ER_OK; });
	if (task_blocks(b0)) FAIL("C06,C19", "%llu memory block(s) left behind", (unsigned long long)task_blocks(b0));
	if (ext) { if (ext[0] || ext[n - 1]) FAIL("C19,C14", "the caller's labels have changed"); vast_unmap(ext, n * sizeof(CL)); }
	ST.oracles++; ST.feat["vast " + what]++;
}
static void run_op(Client& k, const Line& l) {
	const str& o = l.kind;
	if (o == "vast") { op_vast(l); return; }
	if (o == "sc") op_sc(k, l); else if (o == "hi") op_hi(k, l); else if (o == "check") op_check(k, l); else if (o == "stats") op_stats(k, l);
	else if (o == "init" || o == "initx") op_init(k, l); else if (o == "copy") op_copy(k, l); else if (o == "labels") op_labels(k, l); else if (o == "info") op_info(k, l);
	else if (o == "free") op_free(k, l); else if (o == "dsinit" || o == "dsfree") op_ds(k, l); else if (o == "spi" || o == "reset") op_spi(k, l);
	else if (o == "bopen") op_bopen(k, l, false); else if (o == "mopen") op_bopen(k, l, true);
	else if (o == "bsearch") op_bsearch(k, l); else if (o == "mget") op_mget(k, l);
	else if (o == "bclose") close_b(k.b[(u64)l.g("b") % 3], false); else if (o == "mclose") close_b(k.m[(u64)l.g("b") % 3], true);
	else if (o == "matrix" || o == "rows") op_dist(k, l);
	else { fprintf(stderr, "unknown operation %s\n", o.c_str()); _exit(2); }
}
