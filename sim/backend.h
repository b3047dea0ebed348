// Distance backends under the simulator's control: a simulated one (opaque data handles), and a proxy that
// checks every call against the contract before it hands it to the shipped backend.
#pragma once
#include "model.h"
enum { B_SIM, B_PROXY, B_BUILTIN, B_PROXY_ANN, B_ANN };
enum { FN_CHECK, FN_NUM, FN_MATRIX, FN_ROWS, FN_MDI, FN_MDG, FN_MDC, FN_NNI, FN_NNS, FN_NNC, NFN };
static const char* FNN[] = {"check_data_set", "num_data_points", "get_dist_matrix", "get_dist_rows", "init_max_dist_object", "get_max_dist", "close_max_dist_object", "init_nn_search_object", "nearest_neighbor_search", "close_nn_search_object"};
static int back = B_SIM;
static int inst[NFN];                 // model of the installed table: -1 built-in, 0..2 ours, -2 ANN
static u64 vcalls[3][NFN];            // calls seen by each of our variants
static iscc_dist_functions_struct builtin_fns, ann_fns;
static std::set<const void*> bad_ptrs; // pointers deliberately handed over as "not a data set"
struct Handle {
	int type = 0, variant = 0, task = 0, op = 0;
	bool ref = false, open = false, direct = false;
	SimData* d = nullptr;
	size_t len = 0;
	const PI* idx = nullptr;
	std::vector<PI> copy;
	std::vector<char> in;
	std::vector<uint32_t> sp;
	void* inner = nullptr;
	u64 queried = 0;
};
static std::vector<Handle*> handles;
static char* handle_base = nullptr;
static const size_t HANDLE_CAP = 1u << 22;
static bool in_direct = false;         // the harness itself is calling (probe)
static void handles_reset() { for (auto* h : handles) delete h; handles.clear(); }
static void* new_handle(Handle* h) {
	handles.push_back(h);
	if (handles.size() >= HANDLE_CAP) { fprintf(stderr, "handle space exhausted\n"); abort(); }
	return handle_base + 64 * handles.size();
}
static Handle* get_handle(const void* p) {
	if ((const char*)p <= handle_base || (const char*)p > handle_base + 64 * handles.size()) return nullptr;
	size_t off = (const char*)p - handle_base;
	if (off % 64) return nullptr;
	return handles[off / 64 - 1];
}
static bool is_proxy() { return back == B_PROXY || back == B_PROXY_ANN; }
static iscc_dist_functions_struct& nnf() { return back == B_PROXY_ANN ? ann_fns : builtin_fns; }
static void variant_check(int fn, int v) {
	vcalls[v][fn]++;
	if (inst[fn] != v) FAIL("C09,C10", "%s went to a function that is not the installed one (variant %d called, installed %d)", FNN[fn], v, inst[fn]);
}
static SimData* find_data(const void* p) { auto it = data_by_ptr.find(p); return it == data_by_ptr.end() ? nullptr : it->second; }
static SimData* need_data(const void* p, const char* what) {
	SimData* d = find_data(p);
	if (!d) FAIL("C08,C07", "%s called with a data set handle the caller never passed", what);
	return d;
}
static void check_list(SimData* d, size_t len, const PI* ix, const char* what) {
	if (len == 0) FAIL("C08", "%s: empty index list", what);
	if (!ix) { if (len > d->n) FAIL("C08", "%s: implicit index list of length %llu on %llu points", what, (unsigned long long)len, (unsigned long long)d->n); return; }
	if (len > (1ull << 34) || !region_ok(ix, len * sizeof(PI))) FAIL("C08,C07", "%s: index list is not readable for its stated length %llu", what, (unsigned long long)len);
	for (size_t i = 0; i < len; i++) if ((i64)ix[i] < 0 || (u64)ix[i] >= d->n) FAIL("C08", "%s: index %lld at position %llu, data set has %llu points", what, (long long)ix[i], (unsigned long long)i, (unsigned long long)d->n);
}
static void check_out(const void* p, u64 n, u64 sz, const char* what) {
	u64 b;
	if (__builtin_mul_overflow(n, sz, &b)) b = ~0ull;
	if (b && !p) FAIL("C08", "%s: null output buffer", what);
	if (!region_ok(p, b)) FAIL("C08,C07,C19", "%s: output buffer too small for %llu elements", what, (unsigned long long)n);
}
static void scribble(void* p, u64 n) { u64 x = garb_seed; for (u64 i = 0; i < n && i < (1u << 16); i++) { if (!(i & 7)) x = mix(x + i); ((unsigned char*)p)[i] = (unsigned char)(x >> (8 * (i & 7))); } }

template <int V> static bool f_check(void* p) {
	variant_check(FN_CHECK, V);
	if (seam(K_CHECK, 0)) return false;
	SimData* d = find_data(p);
	if (!d) { if (!bad_ptrs.count(p)) FAIL("C08,C07", "check_data_set called with a data set handle the caller never passed"); return is_proxy() ? builtin_fns.check_data_set(p) : false; }
	return is_proxy() ? builtin_fns.check_data_set(p) : true;
}
template <int V> static size_t f_num(void* p) {
	variant_check(FN_NUM, V);
	seam(K_NUM, 0);
	SimData* d = need_data(p, "num_data_points");
	return is_proxy() ? builtin_fns.num_data_points(p) : d->n;
}
template <int V> static bool f_matrix(void* p, size_t len, const PI* ix, double* out) {
	variant_check(FN_MATRIX, V);
	SimData* d = need_data(p, "get_dist_matrix");
	check_list(d, len, ix, "get_dist_matrix");
	u64 cells = (u64)len * (len - 1) / 2;
	check_out(out, cells, sizeof(double), "get_dist_matrix");
	if (seam(K_MATRIX, len)) { scribble(out, cells * 8); return false; }
	if (is_proxy()) { bool r = builtin_fns.get_dist_matrix(p, len, ix, out); if (!r) cur->inner_fail = true; return r; }
	size_t w = 0;
	for (size_t a = 0; a < len; a++) for (size_t b = a + 1; b < len; b++) out[w++] = d->d(ix ? (u64)ix[a] : a, ix ? (u64)ix[b] : b);
	return true;
}
template <int V> static bool f_rows(void* p, size_t lq, const PI* q, size_t lc, const PI* c, double* out) {
	variant_check(FN_ROWS, V);
	SimData* d = need_data(p, "get_dist_rows");
	check_list(d, lq, q, "get_dist_rows (rows)");
	check_list(d, lc, c, "get_dist_rows (columns)");
	check_out(out, (u64)lq * lc, sizeof(double), "get_dist_rows");
	if (seam(K_ROWS, lq * lc)) { scribble(out, lq * lc * 8); return false; }
	if (is_proxy()) { bool r = builtin_fns.get_dist_rows(p, lq, q, lc, c, out); if (!r) cur->inner_fail = true; return r; }
	size_t w = 0;
	for (size_t a = 0; a < lq; a++) for (size_t b = 0; b < lc; b++) out[w++] = d->d(q ? (u64)q[a] : a, c ? (u64)c[b] : b);
	return true;
}
static Handle* mk_handle(int type, int v, SimData* d, size_t len, const PI* ix) {
	Handle* h = new Handle;
	h->type = type; h->variant = v; h->d = d; h->len = len; h->idx = ix; h->open = true; h->task = cur->id; h->op = cur->op; h->ref = cur->mode == M_REF; h->direct = in_direct;
	if (ix) { h->copy.assign(ix, ix + len); if (d->lin) h->sp = d->sorted_pos(ix, len); else if (!d->implicit) { h->in.assign(d->n, 0); for (size_t i = 0; i < len; i++) h->in[ix[i]] = 1; } }
	return h;
}
static Handle* use_handle(void* p, int type, int v, const char* what) {
	Handle* h = get_handle(p);
	if (!h) { FAIL("C08,C06", "%s: handle %s", what, p ? "never returned by this backend" : "is null"); return nullptr; }
	if (h->type != type || h->variant != v) { FAIL("C08,C09", "%s: handle of another kind or backend", what); return nullptr; }
	if (!h->open) { FAIL("C06,C08", "%s: handle already closed", what); return nullptr; }
	if (h->task != cur->id || h->ref != (cur->mode == M_REF)) { FAIL("C08,C10", "%s: handle belongs to another client's call", what); return nullptr; }
	return h;
}
static void check_still(Handle* h, const char* what) {
	if (!h->idx) return;
	if (!region_ok(h->idx, h->len * sizeof(PI))) FAIL("C06,C07", "%s: the search indices given when the handle was opened have been freed", what);
	if (memcmp(h->idx, h->copy.data(), h->len * sizeof(PI))) FAIL("C06", "%s: the search indices given when the handle was opened have changed", what);
}
template <int V> static bool f_mdi(void* p, size_t len, const PI* ix, iscc_MaxDistObject** out) {
	variant_check(FN_MDI, V);
	SimData* d = need_data(p, "init_max_dist_object");
	if (vast) FAIL("C19,C03", "a cluster of %llu points is split although it is smaller than twice the size constraint", (unsigned long long)len);
	check_list(d, len, ix, "init_max_dist_object");
	check_out(out, 1, sizeof *out, "init_max_dist_object");
	u64 g = H(garb_seed, handles.size());
	if (seam(K_MDINIT, len)) { if (g & 1) *out = nullptr; return false; }
	void* inner = nullptr;
	if (is_proxy() && !builtin_fns.init_max_dist_object(p, len, ix, (iscc_MaxDistObject**)&inner)) { cur->inner_fail = true; if (g & 1) *out = nullptr; return false; }
	Handle* h = mk_handle(0, V, d, len, ix);
	h->inner = inner;
	*out = (iscc_MaxDistObject*)new_handle(h);
	return true;
}
template <int V> static bool f_mdg(iscc_MaxDistObject* o, size_t lq, const PI* q, PI* oi, double* od) {
	variant_check(FN_MDG, V);
	Handle* h = use_handle(o, 0, V, "get_max_dist");
	check_still(h, "get_max_dist");
	check_list(h->d, lq, q, "get_max_dist");
	check_out(oi, lq, sizeof(PI), "get_max_dist (indices)");
	check_out(od, lq, sizeof(double), "get_max_dist (distances)");
	h->queried += lq;
	if (!h->direct && h->queried > 2 * h->len + 100) FAIL("C17", "farthest-point search repeats: %llu queries on %llu points", (unsigned long long)h->queried, (unsigned long long)h->len);
	if (seam(K_MDGET, lq)) { scribble(oi, lq * sizeof(PI)); scribble(od, lq * 8); return false; }
	if (is_proxy()) { bool r = builtin_fns.get_max_dist((iscc_MaxDistObject*)h->inner, lq, q, oi, od); if (!r) cur->inner_fail = true; return r; }
	std::vector<PI> qs; if (q) qs.assign(q, q + lq);
	for (size_t a = 0; a < lq; a++) {
		u64 qq = q ? (u64)qs[a] : a, best = 0, bk = 0; double bd = -1;
		if (h->d->lin && h->idx) { // the farthest member lies at one of the ends
			u64 e0 = h->d->at[h->sp.front()], e1 = h->d->at[h->sp.back()]; double x0 = h->d->d(qq, e0), x1 = h->d->d(qq, e1);
			bool f = x0 > x1 || (x0 == x1 && (h->d->tie & 1)); oi[a] = (PI)(f ? e0 : e1); od[a] = f ? x0 : x1; continue;
		}
		for (size_t b = 0; b < h->len; b++) {
			u64 c = h->idx ? (u64)h->copy[b] : b; double x = h->d->d(qq, c); u64 k = h->d->tiekey(qq, c);
			if (x > bd || (x == bd && k < bk)) { bd = x; best = c; bk = k; }
		}
		oi[a] = (PI)best; od[a] = bd;
	}
	return true;
}
template <int V> static bool f_mdc(iscc_MaxDistObject** o) {
	variant_check(FN_MDC, V);
	if (!o) { FAIL("C08", "close_max_dist_object with a null argument"); return false; }
	Handle* h = use_handle(*o, 0, V, "close_max_dist_object");
	bool f = seam(K_MDCLOSE, 0);
	h->open = false;
	*o = nullptr;
	if (is_proxy()) { auto* x = (iscc_MaxDistObject*)h->inner; if (!builtin_fns.close_max_dist_object(&x)) f = true; }
	return !f;
}
template <int V> static bool f_nni(void* p, size_t len, const PI* ix, iscc_NNSearchObject** out) {
	variant_check(FN_NNI, V);
	SimData* d = need_data(p, "init_nn_search_object");
	check_list(d, len, ix, "init_nn_search_object");
	check_out(out, 1, sizeof *out, "init_nn_search_object");
	u64 g = H(garb_seed, handles.size(), 3);
	if (seam(K_NNINIT, len)) { if (g & 1) *out = nullptr; return false; }
	void* inner = nullptr;
	if (is_proxy() && !nnf().init_nn_search_object(p, len, ix, (iscc_NNSearchObject**)&inner)) { cur->inner_fail = true; if (g & 1) *out = nullptr; return false; }
	Handle* h = mk_handle(1, V, d, len, ix);
	h->inner = inner;
	*out = (iscc_NNSearchObject*)new_handle(h);
	return true;
}
template <int V> static bool f_nns(iscc_NNSearchObject* o, size_t lq, const PI* q, uint32_t k, bool rs, double r, size_t* nok, PI* oq, PI* on) {
	variant_check(FN_NNS, V);
	Handle* h = use_handle(o, 1, V, "nearest_neighbor_search");
	check_still(h, "nearest_neighbor_search");
	check_list(h->d, lq, q, "nearest_neighbor_search");
	if (vast) FAIL("C19,C07", "a search for %u neighbours of %llu points has been started: no buffer can hold its answer", k, (unsigned long long)lq);
	if (k == 0 || k > h->len) FAIL("C08", "nearest_neighbor_search: %u neighbours requested from %llu points", k, (unsigned long long)h->len);
	if (rs && !(r > 0)) FAIL("C08,C18", "nearest_neighbor_search: radius search with radius %g", r);
	check_out(nok, 1, sizeof *nok, "nearest_neighbor_search (count)");
	check_out(on, (u64)lq * k, sizeof(PI), "nearest_neighbor_search (neighbours)");
	if (rs && !oq) FAIL("C08", "nearest_neighbor_search: radius search without a buffer for the answered queries");
	if (oq) check_out(oq, lq, sizeof(PI), "nearest_neighbor_search (queries)");
	h->queried += lq;
	if (seam(K_NNSEARCH, lq)) {
		u64 g = H(garb_seed, h->queried, 9);
		if (g & 1) *nok = (g >> 8) % (lq + 1);
		if (oq && oq != q) scribble(oq, lq * sizeof(PI));
		scribble(on, (u64)lq * k * sizeof(PI));
		return false;
	}
	if (is_proxy()) { bool ok = nnf().nearest_neighbor_search((iscc_NNSearchObject*)h->inner, lq, q, k, rs, r, nok, oq, on); if (!ok) cur->inner_fail = true; return ok; }
	size_t ok = 0;
	if (h->d->implicit && h->idx) { // nearest member of a list on the ring: binary search
		std::vector<PI> s(h->copy); std::sort(s.begin(), s.end());
		for (size_t a = 0; a < lq; a++) {
			u64 qq = q ? (u64)q[a] : a; size_t m = s.size();
			size_t hi = std::lower_bound(s.begin(), s.end(), (PI)qq) - s.begin(); size_t lo = (hi + m - 1) % m; hi %= m;
			std::vector<PI> got;
			for (uint32_t t = 0; t < k; t++) { double dh = h->d->d(qq, s[hi]), dl = h->d->d(qq, s[lo]); if (dh <= dl) { got.push_back(s[hi]); hi = (hi + 1) % m; } else { got.push_back(s[lo]); lo = (lo + m - 1) % m; } }
			if (rs && h->d->d(qq, got.back()) > r) continue;
			memcpy(on + ok * k, got.data(), k * sizeof(PI));
			if (oq) oq[ok] = (PI)qq;
			ok++;
		}
		*nok = ok;
		return true;
	}
	std::vector<u64> ans;
	for (size_t a = 0; a < lq; a++) {
		u64 qq = q ? (u64)q[a] : a;
		if (h->d->lin ? !h->d->answer_lin(h->idx ? &h->sp : nullptr, qq, k, rs, r, ans) : !h->d->answer(h->idx ? &h->in : nullptr, h->len, qq, k, rs, r, ans)) continue;
		for (uint32_t t = 0; t < k; t++) on[ok * k + t] = (PI)ans[t];
		if (oq) oq[ok] = (PI)qq;
		ok++;
	}
	if (ok < lq) memset(on + ok * k, 0xEE, std::min<u64>((lq - ok) * k * sizeof(PI), 1u << 16));
	*nok = ok;
	return true;
}
template <int V> static bool f_nnc(iscc_NNSearchObject** o) {
	variant_check(FN_NNC, V);
	if (!o) { FAIL("C08", "close_nn_search_object with a null argument"); return false; }
	Handle* h = use_handle(*o, 1, V, "close_nn_search_object");
	bool f = seam(K_NNCLOSE, 0);
	h->open = false;
	*o = nullptr;
	if (is_proxy()) { auto* x = (iscc_NNSearchObject*)h->inner; if (!nnf().close_nn_search_object(&x)) f = true; }
	return !f;
}
static iscc_dist_functions_struct VF[3];
template <int V> static void fill_variant() { VF[V] = {f_check<V>, f_num<V>, f_matrix<V>, f_rows<V>, f_mdi<V>, f_mdg<V>, f_mdc<V>, f_nni<V>, f_nns<V>, f_nnc<V>}; }
static bool spi_set(int mask, int v) {
	auto& f = VF[v];
	return scc_set_dist_functions(mask & 1 ? f.check_data_set : nullptr, mask & 2 ? f.num_data_points : nullptr, mask & 4 ? f.get_dist_matrix : nullptr, mask & 8 ? f.get_dist_rows : nullptr,
	                              mask & 16 ? f.init_max_dist_object : nullptr, mask & 32 ? f.get_max_dist : nullptr, mask & 64 ? f.close_max_dist_object : nullptr,
	                              mask & 128 ? f.init_nn_search_object : nullptr, mask & 256 ? f.nearest_neighbor_search : nullptr, mask & 512 ? f.close_nn_search_object : nullptr);
}
// Installs what the model says is installed, starting from the untouched library.
static void apply_table() {
	for (int v = 0; v < 3; v++) { int m = 0; for (int f = 0; f < NFN; f++) if (inst[f] == v) m |= 1 << f; if (m && !spi_set(m, v)) FAIL("C09", "a complete installation was refused"); }
#if HAVE_ANN
	if (inst[FN_NNI] == -2 && !scc_set_ann_dist_search()) FAIL("C09", "installing the ANN backend was refused");
#endif
}
static void backend_startup() {
	handle_base = (char*)mmap(nullptr, 64 * (HANDLE_CAP + 2), PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	fill_variant<0>(); fill_variant<1>(); fill_variant<2>();
	builtin_fns = iscc_dist_functions;
#if HAVE_ANN
	Globals g; g.save();
	scc_set_ann_dist_search();
	ann_fns = iscc_dist_functions;
	g.load();
#endif
}
static void* data_ptr(SimData* d) { return back == B_SIM ? d->cookie : (void*)d->real; }
static bool exact_rows(SimData* d) { return back == B_SIM || (d->fam == 0 && d->met == 0); }
static double fixr(double r) { return back == B_SIM ? r : r * (1 + 1e-9); }
// every handle opened by the call that just ended must be closed
static void check_handles(bool ref, size_t h0) {
	for (size_t i = handles.size(); i-- > h0;) {
		Handle* h = handles[i];
		if (h->op < 0) continue;
		if (h->op == cur->op && h->task == cur->id && h->ref == ref && h->open && !h->direct) { h->open = false; FAIL("C06", "%s object left open when the call returned", h->type ? "nearest-neighbour search" : "max-distance"); }
	}
}
