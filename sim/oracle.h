// Executable reference: what the answer of each operation must satisfy, computed from the data alone.
#pragma once
#include "backend.h"
typedef std::vector<CL> Labels;
struct ScSpec {
	u64 n = 0; uint32_t sc = 0; uint32_t nt = 0;
	std::vector<uint32_t> tc; std::vector<u64> tl;
	int seedm = 0, pum = 0, sum = 0, srm = 0, prm = 0, erm = 0;
	double sr = 0, pr = 0, er = 0;
	bool hasprim = false; std::vector<char> prim; u64 nprim = 0;
	uint32_t bs = 0;
	bool typed() const { if (nt < 2) return false; for (auto x : tc) if (x) return true; return false; }
	bool isprim(u64 v) const { return !hasprim || prim[v]; }
	u64 nq() const { return hasprim ? nprim : n; }
	bool eff_prad(double& r) const { // does a radius limit the primary closest-point stage?
		if (prm == SCC_RM_USE_SUPPLIED) { r = pr; return true; }
		if (prm == SCC_RM_USE_SEED_RADIUS && srm == SCC_RM_USE_SUPPLIED) { r = sr; return true; }
		return false;
	}
	bool eff_erad(double& r) const {
		if (erm == SCC_RM_USE_SUPPLIED) { r = er; return true; }
		if (erm == SCC_RM_USE_SEED_RADIUS && srm == SCC_RM_USE_SUPPLIED) { r = sr; return true; }
		return false;
	}
};
struct Rows { std::vector<char> elig; std::vector<std::vector<u64>> N, raw; u64 arcs = 0; };
static void make_rows(SimData& d, const ScSpec& s, Rows& R) {
	R.elig.assign(s.n, 0); R.N.assign(s.n, {}); R.raw.assign(s.n, {});
	bool rs = s.srm == SCC_RM_USE_SUPPLIED;
	std::vector<std::vector<char>> grp;
	bool typed = s.typed();
	uint32_t tsum = 0;
	if (typed) { grp.assign(s.nt, {}); for (uint32_t t = 0; t < s.nt; t++) if (s.tc[t]) grp[t].assign(s.n, 0); for (u64 i = 0; i < s.n; i++) if (s.tc[s.tl[i]]) grp[s.tl[i]][i] = 1; for (auto x : s.tc) tsum += x; }
	std::vector<u64> a;
	std::vector<std::vector<uint32_t>> gp;
	if (typed && d.lin) for (auto& g : grp) gp.push_back(g.empty() ? std::vector<uint32_t>() : d.sorted_pos(g));
	auto ask = [&](i64 t, u64 q, u64 k) { return d.lin ? d.answer_lin(t < 0 ? nullptr : &gp[(size_t)t], q, k, rs, s.sr, a) : d.answer(t < 0 ? nullptr : &grp[(size_t)t], s.n, q, k, rs, s.sr, a); };
	for (u64 q = 0; q < s.n; q++) {
		if (!s.isprim(q)) continue;
		if (!typed) {
			if (!ask(-1, q, s.sc)) continue;
			R.elig[q] = 1; R.raw[q] = a;
			if (std::find(a.begin(), a.end(), q) == a.end()) a.back() = q;
			for (u64 x : a) if (x != q) R.N[q].push_back(x);
		} else {
			std::vector<u64> u; bool ok = true;
			for (uint32_t t = 0; t < s.nt && ok; t++) {
				if (!s.tc[t]) continue;
				if (!ask(t, q, s.tc[t])) { ok = false; break; }
				if (grp[t][q] && std::find(a.begin(), a.end(), q) == a.end()) a.back() = q;
				u.insert(u.end(), a.begin(), a.end());
			}
			if (ok && s.sc > tsum) {
				if (!ask(-1, q, s.sc)) ok = false;
				else { uint32_t need = s.sc - tsum; std::vector<u64> add; for (u64 x : a) { if (add.size() == need) break; if (std::find(u.begin(), u.end(), x) == u.end()) add.push_back(x); } u.insert(u.end(), add.begin(), add.end()); }
			}
			if (!ok) continue;
			R.elig[q] = 1;
			for (u64 x : u) if (x != q) R.N[q].push_back(x);
		}
		R.arcs += R.N[q].size();
	}
}
static bool touches(const Rows& R, u64 v, const std::vector<char>& mark) { if (mark[v]) return true; for (u64 x : R.N[v]) if (mark[x]) return true; return false; }
static void put(const Rows& R, u64 v, std::vector<char>& mark) { mark[v] = 1; for (u64 x : R.N[v]) mark[x] = 1; }
static bool conflict(const Rows& R, u64 a, u64 b) { // N[x] are small
	if (a == b) return true;
	for (u64 x : R.N[a]) { if (x == b) return true; }
	for (u64 y : R.N[b]) { if (y == a) return true; for (u64 x : R.N[a]) if (x == y) return true; }
	return false;
}
// Required number of stored arcs of the exclusion graph and its intermediate product.
static u64 exclusion_need(const Rows& R, u64 n) {
	u64 prod = 0, uni = 0;
	std::vector<std::vector<u64>> T(n);
	for (u64 v = 0; v < n; v++) for (u64 x : R.N[v]) T[x].push_back(v);
	std::vector<char> m(n);
	for (u64 v = 0; v < n; v++) {
		std::fill(m.begin(), m.end(), 0); m[v] = 1; u64 c = 0;
		for (u64 x : T[v]) if (!m[x]) { m[x] = 1; c++; }
		for (u64 a : R.N[v]) for (u64 x : T[a]) if (!m[x]) { m[x] = 1; c++; }
		prod += c;
		if (R.elig[v]) { for (u64 x : R.N[v]) if (!m[x]) { m[x] = 1; c++; } uni += c; }
	}
	return std::max(std::max(prod, uni), R.arcs);
}
// Lexical greedy packing; labels in seed order.
static Labels lexical(const Rows& R, u64 n, u64& ncl) {
	Labels L(n, SCC_CLABEL_NA); std::vector<char> m(n, 0); ncl = 0;
	for (u64 v = 0; v < n; v++) if (R.elig[v] && !touches(R, v, m)) { put(R, v, m); L[v] = (CL)ncl; for (u64 x : R.N[v]) L[x] = (CL)ncl; ncl++; }
	return L;
}
static Labels batches(const Rows& R, const ScSpec& s, u64& ncl) {
	Labels L(s.n, SCC_CLABEL_NA); std::vector<char> as(s.n, 0); ncl = 0;
	for (u64 v = 0; v < s.n; v++) {
		if (!R.elig[v] || as[v]) continue;
		auto& raw = R.raw[v]; bool bad = false;
		for (u64 x : raw) if (as[x]) bad = true;
		if (bad) continue;
		bool self = std::find(raw.begin(), raw.end(), v) != raw.end();
		for (size_t i = 0; i < raw.size(); i++) { u64 x = (!self && i + 1 == raw.size()) ? v : raw[i]; as[x] = 1; L[x] = (CL)ncl; }
		ncl++;
	}
	return L;
}
// ---------------------------------------------------------------- which outcomes are legal without faults
struct Expect { bool ok = true; std::set<int> ec; bool presearch = false; void bad(int e) { ok = false; ec.insert(e); } };

// ---------------------------------------------------------------- basic validity (C01, C02)
static bool valid_labels(const Labels& L, u64 ncl, const char* tags, const char* what) {
	if (ncl == 0) { note(tags, "%s: success but no clusters", what); return false; }
	if (ncl > CLMAX) { note("C01,C03,C19", "%s: %llu clusters, the label type allows %llu", what, (unsigned long long)ncl, (unsigned long long)CLMAX); return false; }
	std::vector<char> used;
	if (ncl > L.size()) { note(tags, "%s: more clusters than points", what); return false; }
	used.assign(ncl, 0);
	for (size_t i = 0; i < L.size(); i++) {
		if (L[i] == SCC_CLABEL_NA) continue;
		if ((i64)L[i] < 0 || (u64)L[i] >= ncl) { note(tags, "%s: point %llu has label %lld outside 0..%llu", what, (unsigned long long)i, (long long)L[i], (unsigned long long)ncl - 1); return false; }
		used[L[i]] = 1;
	}
	for (u64 c = 0; c < ncl; c++) if (!used[c]) { note(tags, "%s: label %llu of %llu is unused", what, (unsigned long long)c, (unsigned long long)ncl); return false; }
	return true;
}
static void oracle_sc_basic(SimData& d, const ScSpec& s, const Labels& L, u64 ncl) {
	ST.oracles++;
	if (!valid_labels(L, ncl, "C01,C19", "size-constrained clustering")) return;
	std::vector<u64> sz(ncl, 0);
	for (auto l : L) if (l != SCC_CLABEL_NA) sz[l]++;
	for (u64 c = 0; c < ncl; c++) if (sz[c] < s.sc) { note("C01,C19", "cluster %llu has %llu points, %u requested", (unsigned long long)c, (unsigned long long)sz[c], s.sc); break; }
	if (s.nt >= 2) {
		std::vector<i64> col(s.nt, -1); u64 m = 0; // only the types that are constrained
		for (uint32_t t = 0; t < s.nt; t++) if (s.tc[t]) col[t] = (i64)m++;
		std::vector<u64> ts(ncl * m, 0);
		for (u64 i = 0; i < s.n; i++) if (L[i] != SCC_CLABEL_NA && col[s.tl[i]] >= 0) ts[L[i] * m + (u64)col[s.tl[i]]]++;
		for (uint32_t t = 0; t < s.nt && m; t++) if (col[t] >= 0) for (u64 c = 0; c < ncl; c++) if (ts[c * m + (u64)col[t]] < s.tc[t]) { note("C01", "cluster %llu has %llu points of type %u, %u requested", (unsigned long long)c, (unsigned long long)ts[c * m + (u64)col[t]], t, s.tc[t]); t = s.nt - 1; break; }
	}
	double r;
	bool norad = s.srm == SCC_RM_NO_RADIUS && s.prm != SCC_RM_USE_ESTIMATED && !s.eff_prad(r);
	if (s.pum == SCC_UM_ANY_NEIGHBOR) norad = s.srm == SCC_RM_NO_RADIUS;
	if (norad && s.pum != SCC_UM_IGNORE) for (u64 i = 0; i < s.n; i++) if (s.isprim(i) && L[i] == SCC_CLABEL_NA) { note("C02,C20", "primary point %llu left unassigned although no radius applies", (unsigned long long)i); break; }
	if (s.sum != SCC_UM_IGNORE && s.erm != SCC_RM_USE_ESTIMATED && !s.eff_erad(r)) for (u64 i = 0; i < s.n; i++) if (L[i] == SCC_CLABEL_NA) { note("C02,C20", "point %llu left unassigned although a secondary method without radius was requested", (unsigned long long)i); break; }
}
// ---------------------------------------------------------------- cores (C16, C18, C20)
struct Cores { std::vector<std::vector<u64>> mem; std::vector<std::vector<u64>> cand; std::vector<char> asg; bool ok = false; };
static bool same_partition(const Labels& A, const Labels& B) {
	if (A.size() != B.size()) return false;
	std::unordered_map<u64, u64> f, g;
	for (size_t i = 0; i < A.size(); i++) {
		if ((A[i] == SCC_CLABEL_NA) != (B[i] == SCC_CLABEL_NA)) return false;
		if (A[i] == SCC_CLABEL_NA) continue;
		auto a = f.emplace((u64)A[i], (u64)B[i]); if (a.first->second != (u64)B[i]) return false;
		auto b = g.emplace((u64)B[i], (u64)A[i]); if (b.first->second != (u64)A[i]) return false;
	}
	return true;
}
struct UpdSearch { // is the observed set of cores a run of the updating method under some tie breaking?
	const Rows& R; u64 n; const Cores& C; u64 budget;
	std::vector<int> core_of; // candidate -> core
	std::unordered_set<u64> seen;
	bool dead = false;
	UpdSearch(const Rows& r, u64 nn, const Cores& c) : R(r), n(nn), C(c), budget(20000), core_of(nn, -1) { for (size_t i = 0; i < c.cand.size(); i++) for (u64 v : c.cand[i]) core_of[v] = (int)i; }
	bool excl(std::vector<char> in, const std::vector<std::vector<u64>>& adj, std::vector<char> chosen, size_t left) {
		for (;;) {
			u64 mn = ~0ull; std::vector<u64> M;
			for (u64 v = 0; v < n; v++) if (in[v]) { u64 k = 0; for (u64 w : adj[v]) k += in[w]; if (k < mn) { mn = k; M.clear(); } if (k == mn) M.push_back(v); budget -= budget > 0; }
			if (!budget) { dead = true; return true; }
			if (M.empty()) return left == 0;
			std::set<int> opt; for (u64 v : M) if (core_of[v] >= 0 && !chosen[core_of[v]]) opt.insert(core_of[v]);
			if (opt.empty()) return false;
			if (opt.size() > 1) {
				u64 h = 7; for (char c : chosen) h = H(h, c);
				if (!seen.insert(h).second) return false;
				for (int c : opt) { auto i2 = in; auto c2 = chosen; take(i2, adj, C.cand[c][0]); c2[c] = 1; if (excl(i2, adj, c2, left - 1)) return true; }
				return false;
			}
			int c = *opt.begin(); take(in, adj, C.cand[c][0]); chosen[c] = 1; left--;
		}
	}
	static void take(std::vector<char>& in, const std::vector<std::vector<u64>>& adj, u64 v) { in[v] = 0; for (u64 w : adj[v]) in[w] = 0; }
	bool inw(std::vector<char> todo, std::vector<char> mark, std::vector<char> chosen, size_t left) {
		// todo: not yet considered; count = arcs from points neither assigned nor considered
		for (;;) {
			std::vector<u64> cnt(n, 0);
			for (u64 u = 0; u < n; u++) if (todo[u] && !mark[u]) for (u64 w : R.N[u]) cnt[w]++;
			budget -= std::min<u64>(budget, n);
			if (!budget) { dead = true; return true; }
			u64 mn = ~0ull; std::vector<u64> M;
			for (u64 v = 0; v < n; v++) if (todo[v] && !mark[v] && R.elig[v]) { if (cnt[v] < mn) { mn = cnt[v]; M.clear(); } if (cnt[v] == mn) M.push_back(v); }
			if (M.empty()) return left == 0;
			std::vector<u64> opt;
			for (u64 v : M) { if (touches(R, v, mark)) opt.push_back(v); else if (core_of[v] >= 0 && !chosen[core_of[v]]) opt.push_back(v); }
			if (opt.empty()) return false;
			if (opt.size() == 1) { step(opt[0], todo, mark, chosen, left); continue; }
			u64 h = 11; for (u64 v = 0; v < n; v++) h = H(h, todo[v], mark[v]);
			if (!seen.insert(h).second) return false;
			for (u64 v : opt) { auto t = todo; auto m = mark; auto c = chosen; size_t l = left; step(v, t, m, c, l); if (inw(t, m, c, l)) return true; }
			return false;
		}
	}
	void step(u64 v, std::vector<char>& todo, std::vector<char>& mark, std::vector<char>& chosen, size_t& left) { todo[v] = 0; if (!touches(R, v, mark)) { put(R, v, mark); chosen[core_of[v]] = 1; left--; } }
};
static Cores oracle_cores(SimData& d, const ScSpec& s, const Rows& R, const Labels& L0, u64 ncl) {
	Cores C; C.asg.assign(s.n, 0);
	ST.oracles++;
	if (!valid_labels(L0, ncl, "C01,C16", "clustering without leftover assignment")) return C;
	C.mem.resize(ncl); C.cand.resize(ncl);
	for (u64 i = 0; i < s.n; i++) if (L0[i] != SCC_CLABEL_NA) { C.mem[L0[i]].push_back(i); C.asg[i] = 1; }
	const char* tag = s.srm == SCC_RM_USE_SUPPLIED ? "C16,C18" : "C16";
	if (s.seedm == SCC_SM_BATCHES) {
		u64 k; Labels B = batches(R, s, k);
		if (!same_partition(B, L0)) { note(s.srm == SCC_RM_USE_SUPPLIED ? "C16,C15,C18" : "C16,C15", "batch clusters are not the greedy packing by point number"); return C; }
		for (u64 v = 0; v < s.n; v++) if (R.elig[v] && L0[v] != SCC_CLABEL_NA) C.cand[L0[v]].push_back(v);
		C.ok = true;
		return C;
	}
	for (u64 v = 0; v < s.n; v++) {
		if (!R.elig[v] || L0[v] == SCC_CLABEL_NA) continue;
		auto& m = C.mem[L0[v]];
		if (R.N[v].size() + 1 != m.size()) continue;
		bool in = true; for (u64 x : R.N[v]) if (L0[x] != L0[v]) { in = false; break; }
		if (in) C.cand[L0[v]].push_back(v);
	}
	for (u64 c = 0; c < ncl; c++) if (C.cand[c].empty()) { note(tag, "cluster %llu (%llu points) is not one eligible seed with its nearest neighbours", (unsigned long long)c, (unsigned long long)C.mem[c].size()); return C; }
	for (u64 v = 0; v < s.n; v++) if (R.elig[v] && !touches(R, v, C.asg)) { note("C16", "not maximal: point %llu and all its neighbours are free but form no cluster", (unsigned long long)v); return C; }
	C.ok = true;
	if (s.seedm == SCC_SM_LEXICAL) {
		u64 k; Labels X = lexical(R, s.n, k);
		if (!same_partition(X, L0)) note("C16", "lexical seeds are not chosen by point number");
		return C;
	}
	bool ex = s.seedm == SCC_SM_EXCLUSION_ORDER || s.seedm == SCC_SM_EXCLUSION_UPDATING;
	std::vector<std::vector<u64>> adj;
	if (ex) {
		adj.resize(s.n);
		if (s.n > 300) {
			std::vector<std::vector<u64>> T(s.n); u64 tot = 0;
			for (u64 v = 0; v < s.n; v++) if (R.elig[v]) { T[v].push_back(v); for (u64 x : R.N[v]) T[x].push_back(v); }
			for (u64 v = 0; v < s.n; v++) tot += T[v].size() * T[v].size();
			if (tot > 60000000) return C;
			for (u64 v = 0; v < s.n; v++) if (R.elig[v]) {
				auto& o = adj[v];
				o.insert(o.end(), T[v].begin(), T[v].end()); for (u64 x : R.N[v]) o.insert(o.end(), T[x].begin(), T[x].end());
				std::sort(o.begin(), o.end()); o.erase(std::unique(o.begin(), o.end()), o.end()); o.erase(std::remove(o.begin(), o.end(), v), o.end());
			}
		} else for (u64 a = 0; a < s.n; a++) if (R.elig[a]) for (u64 b = a + 1; b < s.n; b++) if (R.elig[b] && conflict(R, a, b)) { adj[a].push_back(b); adj[b].push_back(a); }
	}
	if (s.seedm == SCC_SM_INWARDS_ORDER || s.seedm == SCC_SM_EXCLUSION_ORDER) {
		std::vector<u64> key(s.n, 0);
		if (ex) for (u64 v = 0; v < s.n; v++) key[v] = adj[v].size();
		else for (u64 v = 0; v < s.n; v++) for (u64 x : R.N[v]) key[x]++;
		std::vector<u64> best(s.n, ~0ull); // smallest seed key among clusters covering each point
		for (u64 c = 0; c < ncl; c++) { u64 k = ~0ull; for (u64 v : C.cand[c]) k = std::min(k, key[v]); for (u64 x : C.mem[c]) best[x] = k; }
		for (u64 v = 0; v < s.n; v++) if (R.elig[v]) {
			u64 b = best[v]; for (u64 x : R.N[v]) b = std::min(b, best[x]);
			if (b > key[v]) { note("C16", "seed order: point %llu with %llu %s was passed over for seeds with at least %llu", (unsigned long long)v, (unsigned long long)key[v], ex ? "exclusion edges" : "incoming arcs", (unsigned long long)b); return C; }
		}
	} else if (s.n <= 120) {
		UpdSearch U(R, s.n, C);
		if (ex) { std::vector<char> in(s.n); for (u64 v = 0; v < s.n; v++) in[v] = R.elig[v]; if (!U.excl(in, adj, std::vector<char>(ncl, 0), ncl)) note("C16", "seeds do not follow the order by fewest remaining exclusion-graph edges"); }
		else { std::vector<char> t(s.n, 1); if (!U.inw(t, std::vector<char>(s.n, 0), std::vector<char>(ncl, 0), ncl)) note("C16", "seeds do not follow the order by fewest incoming arcs from unassigned points"); }
		if (U.dead) ST.feat["order search out of budget"]++;
	}
	return C;
}
static void oracle_assign(SimData& d, const ScSpec& s, const Rows& R, const Cores& C, const Labels& L0, const Labels& L, u64 ncl) {
	ST.oracles++;
	for (u64 i = 0; i < s.n; i++) if (L0[i] != SCC_CLABEL_NA && L[i] != L0[i]) { note("C16,C20", "point %llu is in core %lld but ends up with label %lld", (unsigned long long)i, (long long)L0[i], (long long)L[i]); return; }
	double tol = back == B_SIM ? 0 : 1e-9;
	// estimated radius: interval over the possible seeds of each core
	double elo = 0, ehi = 0; std::vector<double> vlo, vhi; // the library averages over at least a thousand seeds, or all of them
	for (u64 c = 0; c < ncl; c++) { double lo = INFINITY, hi = 0; for (u64 v : C.cand[c]) { double t = 0; for (u64 x : R.N[v]) t += d.d(v, x); t /= (double)std::max<size_t>(1, R.N[v].size()); lo = std::min(lo, t); hi = std::max(hi, t); } vlo.push_back(lo); vhi.push_back(hi); }
	if (ncl > 1000) { std::sort(vlo.begin(), vlo.end()); std::sort(vhi.rbegin(), vhi.rend()); vlo.resize(1000); vhi.resize(1000); }
	for (double x : vlo) elo += x; for (double x : vhi) ehi += x;
	elo /= (double)vlo.size(); ehi /= (double)vhi.size(); elo *= 1 - 1e-9; ehi *= 1 + 1e-9;
	auto stage_r = [&](bool prim, double& lo, double& hi) -> bool {
		int m = prim ? s.prm : s.erm; double r;
		if (m == SCC_RM_USE_ESTIMATED) { lo = elo; hi = ehi; return true; }
		if (prim ? s.eff_prad(r) : s.eff_erad(r)) { lo = r * (1 - tol); hi = r * (1 + tol); return true; }
		lo = hi = INFINITY; return false;
	};
	std::vector<uint32_t> sp_asg, sp_cand; std::vector<i64> cof;
	if (d.lin) {
		sp_asg = d.sorted_pos(C.asg);
		std::vector<char> m(s.n, 0); for (u64 c = 0; c < ncl; c++) for (u64 v : C.cand[c]) m[v] = 1;
		sp_cand = d.sorted_pos(m);
	}
	u64 steps = 0; // many candidates at one place: beyond a budget the remaining points are taken on trust
	// may = may be left unassigned at this stage, labels = possible labels
	auto closest = [&](u64 v, int method, bool prim, std::set<u64>& lab, bool& may_na) {
		double rlo, rhi; stage_r(prim, rlo, rhi);
		lab.clear(); may_na = false;
		if (d.lin) {
			u64 u; double x;
			if (method == SCC_UM_CLOSEST_ASSIGNED) {
				SimData::Walk w(d, &sp_asg, v); double m = INFINITY;
				while (w.next(u, x) && ++steps < 8000000) { if (x > m * (1 + tol)) break; if (m == INFINITY) { m = x; may_na = m > rlo; if (m > rhi) break; } lab.insert((u64)L0[u]); }
			} else {
				SimData::Walk w(d, &sp_cand, v); double minhi = INFINITY;
				while (w.next(u, x) && ++steps < 8000000) { if (x > minhi * (1 + tol)) break; u64 c = (u64)L0[u]; double hi = 0; for (u64 y : C.cand[c]) hi = std::max(hi, d.d(v, y)); minhi = std::min(minhi, hi); if (x <= rhi) lab.insert(c); }
				may_na = minhi > rlo;
			}
			return;
		}
		if (method == SCC_UM_CLOSEST_ASSIGNED) {
			double m = INFINITY; for (u64 u = 0; u < s.n; u++) if (C.asg[u]) m = std::min(m, d.sd(v, u));
			double lim = m * (1 + tol);
			if (m > rlo) may_na = true;
			if (m <= rhi) for (u64 u = 0; u < s.n; u++) if (C.asg[u] && d.sd(v, u) <= lim) lab.insert((u64)L0[u]);
		} else {
			double minhi = INFINITY;
			std::vector<double> lo(ncl, INFINITY), hi(ncl, 0);
			for (u64 c = 0; c < ncl; c++) { for (u64 u : C.cand[c]) { double x = d.sd(v, u); lo[c] = std::min(lo[c], x); hi[c] = std::max(hi[c], x); } minhi = std::min(minhi, hi[c]); }
			double minlo = *std::min_element(lo.begin(), lo.end());
			may_na = minhi > rlo;
			(void)minlo;
			for (u64 c = 0; c < ncl; c++) if (lo[c] <= minhi * (1 + tol) && lo[c] <= rhi) lab.insert(c);
		}
	};
	for (u64 v = 0; v < s.n; v++) {
		if (C.asg[v]) continue;
		std::set<u64> ok; bool na = true; // na: may still be unassigned after the primary stage
		if (s.isprim(v)) {
			if (s.pum == SCC_UM_ANY_NEIGHBOR) {
				const auto& nb = s.seedm == SCC_SM_BATCHES ? R.raw[v] : R.N[v];
				if (R.elig[v]) for (u64 x : nb) if (C.asg[x]) ok.insert((u64)L0[x]);
				na = ok.empty();
			} else if (s.pum == SCC_UM_CLOSEST_ASSIGNED || s.pum == SCC_UM_CLOSEST_SEED) closest(v, s.pum, true, ok, na);
		}
		if (steps >= 8000000) break;
		bool fin_na = na;
		if (na && s.sum != SCC_UM_IGNORE) { std::set<u64> o2; bool n2; closest(v, s.sum, false, o2, n2); ok.insert(o2.begin(), o2.end()); fin_na = n2; }
		if (steps >= 8000000) break;
		bool rad = s.srm || s.prm == SCC_RM_USE_SUPPLIED || s.prm == SCC_RM_USE_ESTIMATED || s.erm == SCC_RM_USE_SUPPLIED || s.erm == SCC_RM_USE_ESTIMATED;
		if (L[v] == SCC_CLABEL_NA) {
			if (!fin_na) { note(rad ? "C18,C20,C02" : "C20,C02", "leftover point %llu is unassigned although its assignment method reaches a cluster", (unsigned long long)v); return; }
		} else if (!ok.count((u64)L[v])) {
			note(rad ? "C18,C20" : "C20", "leftover point %llu was put into cluster %lld; the requested method allows %s", (unsigned long long)v, (long long)L[v], ok.empty() ? "none (nothing within the radius)" : (std::to_string(*ok.begin()) + (ok.size() > 1 ? " and others" : "")).c_str());
			return;
		}
	}
	// quality guarantee
	bool exact = d.eps == 0 && d.metric() && !s.hasprim && s.srm == SCC_RM_NO_RADIUS && s.seedm != SCC_SM_BATCHES;
	if (exact && (s.sum == SCC_UM_IGNORE || s.pum != SCC_UM_IGNORE) && (s.prm == SCC_RM_NO_RADIUS || s.prm == SCC_RM_USE_SEED_RADIUS)) {
		double lam = 0; for (u64 v = 0; v < s.n; v++) for (u64 x : R.N[v]) lam = std::max(lam, d.d(v, x));
		double f = 4;
		if (s.sc == 2 && !s.typed() && s.seedm == SCC_SM_INWARDS_UPDATING && s.pum != SCC_UM_CLOSEST_SEED) f = 2;
		std::vector<std::vector<u64>> M(ncl); for (u64 a = 0; a < s.n; a++) if (L[a] != SCC_CLABEL_NA) M[L[a]].push_back(a);
		if (d.lin) for (auto& m : M) { if (m.empty()) continue; u64 a = m[0], b = m[0]; for (u64 x : m) { if (d.pos[x] < d.pos[a]) a = x; if (d.pos[x] > d.pos[b]) b = x; } m = {a, b}; }
		for (auto& m : M) for (size_t i = 0; i < m.size(); i++) for (size_t j = i + 1; j < m.size(); j++) if (u64 a = m[i], b = m[j]; d.d(a, b) > f * lam * (1 + 1e-9)) { note("C20", "points %llu and %llu share a cluster at distance %g, more than %g times the longest neighbour distance %g", (unsigned long long)a, (unsigned long long)b, d.d(a, b), f, lam); return; }
	}
}
// ---------------------------------------------------------------- hierarchical (C03)
static void oracle_hi(SimData& d, u64 n, uint32_t sc, bool batch, u64 prencl, const Labels& pre, const Labels& L, u64 ncl) {
	ST.oracles++;
	bool any = prencl == 0;
	if (prencl) for (auto l : pre) any |= l != SCC_CLABEL_NA;
	if (!any) { if (ncl) note("C03", "hierarchical clustering of an all-unassigned clustering reports %llu clusters", (unsigned long long)ncl); return; }
	if (!valid_labels(L, ncl, "C03", "hierarchical clustering")) return;
	std::vector<u64> sz(ncl, 0);
	for (auto l : L) if (l != SCC_CLABEL_NA) sz[l]++;
	std::vector<u64> psz(prencl ? prencl : 1, 0);
	auto pl = [&](u64 i) -> i64 { return prencl ? (pre[i] == SCC_CLABEL_NA ? -1 : (i64)pre[i]) : 0; };
	for (u64 i = 0; i < n; i++) {
		if ((pl(i) < 0) != (L[i] == SCC_CLABEL_NA)) { note("C03", pl(i) < 0 ? "unassigned point %llu was given a label" : "point %llu lost its cluster", (unsigned long long)i); return; }
		if (pl(i) >= 0) psz[pl(i)]++;
	}
	std::vector<i64> from(ncl, -1);
	for (u64 i = 0; i < n; i++) if (L[i] != SCC_CLABEL_NA) {
		if (from[L[i]] == -1) from[L[i]] = pl(i);
		else if (from[L[i]] != pl(i)) { note("C03", "cluster %lld merges points of two clusters", (long long)L[i]); return; }
	}
	for (u64 c = 0; c < ncl; c++) {
		u64 p = psz[from[c]];
		if (p < 2ull * sc) { if (sz[c] != p) { note("C03", "a cluster of %llu points, below twice the constraint %u, was split", (unsigned long long)p, sc); return; } }
		else if (sz[c] < sc || sz[c] >= 2ull * sc) { note("C03", "cluster %llu has %llu points, constraint %u", (unsigned long long)c, (unsigned long long)sz[c], sc); return; }
	}
	if (!batch && d.fam == 5 && d.spec.g("par", 3) == 2 && d.met <= 2 && !d.implicit) {
		auto grp = [&](u64 i) { return H(d.seed, i, 999) % 2; };
		std::vector<std::vector<u64>> gs(psz.size(), std::vector<u64>(2, 0));
		for (u64 i = 0; i < n; i++) if (pl(i) >= 0) gs[pl(i)][grp(i)]++;
		std::vector<int> g(ncl, -1);
		for (u64 i = 0; i < n; i++) if (L[i] != SCC_CLABEL_NA) {
			u64 p = (u64)pl(i);
			if (gs[p][0] < sc || gs[p][1] < sc) continue;
			if (g[L[i]] == -1) g[L[i]] = (int)grp(i);
			else if (g[L[i]] != (int)grp(i)) { note("C03", "cluster %lld mixes two groups that are far apart", (long long)L[i]); return; }
		}
	}
}
// ---------------------------------------------------------------- statistics and checks (C13)
static bool near(double a, double b) { return a == b || fabs(a - b) <= 1e-9 * std::max(fabs(a), fabs(b)); }
static scc_ClusteringStats model_stats(SimData& d, u64 n, u64 ncl, const Labels& L) {
	scc_ClusteringStats s; memset(&s, 0, sizeof s);
	std::vector<std::vector<u64>> m(ncl);
	for (u64 i = 0; i < n; i++) if (L[i] != SCC_CLABEL_NA) m[L[i]].push_back(i);
	s.num_data_points = n; s.num_clusters = ncl; s.min_cluster_size = UINT64_MAX; s.min_dist = DBL_MAX;
	double sums = 0;
	for (auto& c : m) {
		if (c.empty()) continue;
		s.num_populated_clusters++; s.num_assigned += c.size();
		s.min_cluster_size = std::min<u64>(s.min_cluster_size, c.size()); s.max_cluster_size = std::max<u64>(s.max_cluster_size, c.size());
		if (c.size() == 1) { s.min_dist = 0; continue; }
		double sum = 0, mn = INFINITY, mx = 0; u64 k = 0;
		for (size_t a = 0; a < c.size(); a++) for (size_t b = a + 1; b < c.size(); b++) { double x = d.d(c[a], c[b]); sum += x; mn = std::min(mn, x); mx = std::max(mx, x); k++; }
		sums += sum; s.min_dist = std::min(s.min_dist, mn); s.max_dist = std::max(s.max_dist, mx);
		s.avg_min_dist += mn; s.avg_max_dist += mx; s.avg_dist_weighted += (double)c.size() * sum / (double)k; s.avg_dist_unweighted += sum / (double)k;
	}
	if (!s.num_populated_clusters) return s;
	s.sum_dists = sums;
	double p = (double)s.num_populated_clusters;
	s.avg_cluster_size = (double)s.num_assigned / p; s.avg_min_dist /= p; s.avg_max_dist /= p; s.avg_dist_weighted /= (double)s.num_assigned; s.avg_dist_unweighted /= p;
	return s;
}
static str stats_diff(const scc_ClusteringStats& a, const scc_ClusteringStats& b) {
	char t[200];
#define CMPI(f) if (a.f != b.f) { snprintf(t, sizeof t, #f " is %llu, labels imply %llu", (unsigned long long)a.f, (unsigned long long)b.f); return t; }
#define CMPD(f) if (!near(a.f, b.f)) { snprintf(t, sizeof t, #f " is %.17g, labels and distances imply %.17g", a.f, b.f); return t; }
	CMPI(num_data_points) CMPI(num_assigned) CMPI(num_clusters) CMPI(num_populated_clusters) CMPI(min_cluster_size) CMPI(max_cluster_size)
	CMPD(avg_cluster_size) CMPD(sum_dists) CMPD(min_dist) CMPD(max_dist) CMPD(avg_min_dist) CMPD(avg_max_dist) CMPD(avg_dist_weighted) CMPD(avg_dist_unweighted)
	return "";
}
static bool model_check(const ScSpec& s, u64 ncl, const Labels& L) {
	for (auto l : L) if (l != SCC_CLABEL_NA && ((i64)l < 0 || (u64)l >= ncl)) return false;
	if (s.hasprim) for (u64 i = 0; i < s.n; i++) if (s.prim[i] && L[i] == SCC_CLABEL_NA) return false;
	std::vector<u64> sz(ncl, 0); for (auto l : L) if (l != SCC_CLABEL_NA) sz[l]++;
	for (u64 c = 0; c < ncl; c++) if (sz[c] < s.sc) return false;
	if (s.nt >= 2) {
		for (uint32_t t = 0; t < s.nt; t++) {
			if (!s.tc[t]) continue;
			std::vector<u64> ts(ncl, 0);
			for (u64 i = 0; i < s.n; i++) if (L[i] != SCC_CLABEL_NA && s.tl[i] == t) ts[L[i]]++;
			for (u64 c = 0; c < ncl; c++) if (ts[c] < s.tc[t]) return false;
		}
	}
	return true;
}
