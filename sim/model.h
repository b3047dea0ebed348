// The simulated data sets: geometry, metric, and the exact answers every legal backend may give.
#pragma once
#include "core.h"
struct SimData {
	Line spec;
	u64 n = 0;
	int dim = 1, fam = 0, met = 0, tie = 0;
	double eps = 0;
	u64 seed = 0;
	bool implicit = false;          // ring of huge size: everything computed on the fly
	bool lin = false;               // many points on a line: neighbours found by walking the sorted order
	std::vector<uint32_t> at, pos;  // point at each position, position of each point
	double* mat = nullptr;          // exact-size heap block, so that over-reads are caught
	std::vector<double> dcache;
	std::vector<std::vector<uint32_t>> order;
	scc_DataSet* real = nullptr;
	void* cookie = nullptr;
	~SimData() { free(mat); }
	// points per place; half the time such that the most named of them counts exactly 2^8, 2^15 or 2^16 others
	u64 hub() const {
		bool x = seed >> 20 & 1;
		switch (spec.g("par") % 7) {
			case 4: return x ? 65537 + (seed >> 24) % 2 : 66000 + seed % 30000;
			case 5: return x ? 257 + (seed >> 24) % 2 : 257 + seed % 60;
			default: return x ? 32769 + (seed >> 24) % 2 : 33000 + seed % 20000;
		}
	}
	void build(const Line& l) {
		spec = l;
		n = (u64)l.g("n", 8); dim = (int)l.g("dim", 1); fam = (int)l.g("fam"); met = (int)l.g("met"); tie = (int)l.g("tie");
		eps = (double)l.g("eps") / 100.0; seed = (u64)l.g("seed");
		if (fam == 9) { implicit = true; return; }
		if (fam == 11) { lin = true; dim = 1; met = 0; eps = 0; }
		double scale = 1.0, off = l.g("off") == 1 ? 4194304 : l.g("off") == 2 ? -1e8 : 0; // far from the origin, where careless arithmetic loses the differences
		switch (l.g("scale")) { case 1: scale = 1e-3; break; case 2: scale = 1e6; break; case 3: scale = 0.125; break; }
		mat = (double*)malloc(sizeof(double) * n * dim);
		u64 par = (u64)l.g("par", 3); if (!par) par = 1;
		int sgn = (int)(H(seed, 0x516) % 3);
		std::vector<u64> perm(n);
		for (u64 i = 0; i < n; i++) perm[i] = i;
		if (fam == 6 || fam == 4 || fam == 11) { Rng r(seed); for (u64 i = n; i-- > 1;) std::swap(perm[i], perm[r.below(i + 1)]); }
		for (u64 i = 0; i < n; i++) for (int d = 0; d < dim; d++) {
			u64 h = H(seed, i, d);
			double v = 0;
			switch (fam) {
				case 0: v = U01(h); break;
				case 1: v = (double)(h % (par + 1)); break;
				case 2: v = 0.5; break;
				case 3: v = U01(H(seed, 77, H(seed, i) % par, d)); break;
				case 4: v = d == 0 ? pow(l.g("gr", 0) ? 1.1 : 1.5, (double)(perm[i] % 400)) * 1e-3 : 0; break;
				case 5: v = (double)((H(seed, i, 999) % par)) * 1000.0 * (d == 0) + U01(h); break;
				case 6: v = d == 0 ? (double)perm[i] : 0; break;
				case 7: v = d == 0 ? (double)i : 0; break;
				case 10: { // geometric, largest first: every split cuts off a few points, so the stack of pending clusters grows deep
					u64 k = l.g("asc") ? i : n - 1 - i; double R[] = {1.5, 1.55, 1.6, 1.45, 1.35, 2.0, 1.28};
					v = d == 0 ? pow(R[par % 7], (double)k - (double)n / 2) : 0; break; }
				case 11: { u64 p = perm[i]; switch (par % 7) { case 0: v = (double)p; break; case 1: v = (double)p + 0.9 * U01(H(seed, p)); break; case 2: v = (double)(p / 3); break; case 3: v = (double)(p / 7) * 5 + U01(H(seed, p)); break;
					default: v = (double)(p / hub()); } break; }
				case 8: v = (H(seed, i, 5) % 5 == 0) ? 10.0 * (double)(h % 4) : 1.0; break;
			}
			if (sgn == 1) v = -v; else if (sgn == 2 && (fam <= 3 || fam == 5 || fam == 8)) v -= (double)par / 2; // coordinates of either sign
			mat[i * dim + d] = v * scale + off;
		}
		if (n <= 512) {
			dcache.resize(n * n);
			for (u64 i = 0; i < n; i++) for (u64 j = 0; j < n; j++) dcache[i * n + j] = calc(i, j);
		}
		if (lin) {
			at.resize(n); pos.resize(n);
			for (u64 i = 0; i < n; i++) at[i] = (uint32_t)i;
			std::sort(at.begin(), at.end(), [&](uint32_t a, uint32_t b) { return mat[a] != mat[b] ? mat[a] < mat[b] : a < b; });
			for (u64 p = 0; p < n; p++) pos[at[p]] = (uint32_t)p;
		} else order.resize(n);
	}
	// Walks the members of a sorted list of positions (nullptr: every position) outwards from q, nearest first.
	struct Walk {
		const SimData& D; const std::vector<uint32_t>* s; u64 q; double x; i64 lo, hi, m;
		Walk(const SimData& d, const std::vector<uint32_t>* S, u64 Q) : D(d), s(S), q(Q), x(d.mat[Q]) {
			m = s ? (i64)s->size() : (i64)d.n;
			if (d.tie & 2) { // everyone at a place names the same of its points first
				i64 a = 0, b = m;
				while (a < b) { i64 c = (a + b) / 2; if (D.mat[pt(c)] < x) a = c + 1; else b = c; }
				hi = a;
			} else hi = s ? (i64)(std::lower_bound(s->begin(), s->end(), d.pos[Q]) - s->begin()) : (i64)d.pos[Q];
			lo = hi - 1;
		}
		u64 pt(i64 i) const { return D.at[s ? (*s)[(size_t)i] : (u64)i]; }
		bool next(u64& v, double& dist) {
			if (lo < 0 && hi >= m) return false;
			double a = lo >= 0 ? x - D.mat[pt(lo)] : INFINITY, b = hi < m ? D.mat[pt(hi)] - x : INFINITY;
			bool left = D.tie & 1 ? a <= b : a < b;
			if (left) { v = pt(lo--); dist = a; } else { v = pt(hi++); dist = b; }
			return true;
		}
	};
	std::vector<uint32_t> sorted_pos(const PI* ix, size_t len) const { std::vector<uint32_t> r(len); for (size_t i = 0; i < len; i++) r[i] = pos[(u64)ix[i]]; std::sort(r.begin(), r.end()); return r; }
	std::vector<uint32_t> sorted_pos(const std::vector<char>& in) const { std::vector<uint32_t> r; for (u64 p = 0; p < n; p++) if (in[at[p]]) r.push_back((uint32_t)p); return r; }
	bool answer_lin(const std::vector<uint32_t>* s, u64 q, u64 k, bool rs, double r, std::vector<u64>& out) const {
		out.clear(); Walk w(*this, s, q); u64 v; double x;
		while (out.size() < k) { if (!w.next(v, x) || (rs && x > r)) return false; out.push_back(v); }
		return true;
	}
	double sq(u64 i, u64 j) const {
		double t = 0; const double *a = mat + i * dim, *b = mat + j * dim;
		for (int d = 0; d < dim; d++) { double v = a[d] - b[d]; t += v * v; }
		return t;
	}
	bool same(u64 i, u64 j) const { return memcmp(mat + i * dim, mat + j * dim, sizeof(double) * dim) == 0; }
	double calc(u64 i, u64 j) const {
		if (implicit) { u64 a = i < j ? j - i : i - j; return (double)std::min(a, n - a); }
		if (i == j) return 0;
		switch (met) {
			case 0: return sqrt(sq(i, j));
			case 1: { double t = 0; for (int d = 0; d < dim; d++) t += fabs(mat[i * dim + d] - mat[j * dim + d]); return t; }
			case 2: { double t = 0; for (int d = 0; d < dim; d++) t = std::max(t, fabs(mat[i * dim + d] - mat[j * dim + d])); return t; }
			case 3: return same(i, j) ? 0.0 : 1.0;
			case 4: return U01(H(seed, 4, std::min(i, j), std::max(i, j)));
			case 5: return 1.0 + U01(H(seed, 5, std::min(i, j), std::max(i, j)));
			default: return 1.0 + (double)(H(seed, 6, std::min(i, j), std::max(i, j)) % 2);
		}
	}
	bool integral() const { return (fam == 1 || fam == 6 || fam == 7) && (spec.g("scale") == 0 || spec.g("scale") == 3); } // distances computed without rounding in any order of summation
	bool metric() const { return met != 4; }
	double d(u64 i, u64 j) const { return dcache.empty() ? calc(i, j) : dcache[i * n + j]; }
	double sd(u64 q, u64 c) const { double x = d(q, c); return eps == 0 ? x : x * (1.0 + eps * U01(H(seed, 0xE, q, c))); }
	u64 tiekey(u64 q, u64 c) const {
		switch (tie) {
			case 0: return c;
			case 1: return ~c;
			case 2: return H(seed, 0x71, q, c);
			default: return q == c ? ~0ull : H(seed, 0x72, q, c) >> 1; // a point prefers its duplicates to itself
		}
	}
	const std::vector<uint32_t>& ord(u64 q) {
		auto& o = order[q];
		if (o.empty()) {
			std::vector<std::pair<std::pair<double, u64>, uint32_t>> v(n);
			for (u64 c = 0; c < n; c++) v[c] = {{sd(q, c), tiekey(q, c)}, (uint32_t)c};
			std::sort(v.begin(), v.end());
			o.resize(n);
			for (u64 i = 0; i < n; i++) o[i] = v[i].second;
		}
		return o;
	}
	// The k nearest members of S (nullptr: everything below slen), or false if fewer than k lie within the radius.
	bool answer(const std::vector<char>* in, u64 slen, u64 q, u64 k, bool rs, double r, std::vector<u64>& out) {
		out.clear();
		if (implicit) {
			for (u64 s = 0; out.size() < k; s++) {
				if (rs && (double)s > r) return false;
				out.push_back((q + s) % n);
				if (s && out.size() < k) out.push_back((q + n - s) % n);
			}
			return true;
		}
		for (uint32_t c : ord(q)) {
			if (in ? !(*in)[c] : c >= slen) continue;
			if (rs && sd(q, c) > r) return false;
			out.push_back(c);
			if (out.size() == k) return true;
		}
		return false;
	}
	// radius described by three small numbers, so that shrinking the data keeps it meaningful
	double radius(i64 h, i64 f) const {
		double b;
		if (implicit || lin) b = 3 * (lin ? fabs(mat[at[n - 1]] - mat[at[0]]) / (double)n : 1); else {
			u64 i = H((u64)h, 1) % n, j = H((u64)h, 2) % n;
			b = d(i, j);
			for (int t = 0; t < 8 && !(b > 0); t++) b = d(H((u64)h, 3, t) % n, H((u64)h, 4, t) % n);
			if (!(b > 0)) b = 1.0;
		}
		switch (f) { case 1: return b * 0.5; case 2: return b * 1.75; case 3: return b * 0.05; case 4: return b * 0.2; case 5: return 1e300; }
		return b;
	}
};
static std::vector<SimData*> datas;
static std::unordered_map<const void*, SimData*> data_by_ptr;
