// Seeded generation of simulated histories: data sets, clients, operations, knobs. Faults and preemptions are drawn while the run proceeds.
#pragma once
#include "ops.h"
static u64 cap_n(u64 n) { return std::min<u64>(n, std::min<u64>(PIMAX, 1u << 30)); }
static Line gen_data(Rng& r, u64 lo, u64 hi, bool sim) {
	Line l("data");
	u64 n = lo + r.below(hi - lo + 1);
	l.set("n", (i64)cap_n(n)).set("dim", r.chance(3, 5) ? 1 + (i64)r.below(2) : r.chance(1, 12) ? 1 + (i64)r.below(40) : r.chance(1, 60) ? 1 + (i64)r.below(400) : 1 + (i64)r.below(5));
	static const int F[] = {0, 0, 0, 1, 1, 1, 2, 3, 3, 4, 5, 5, 6, 7, 8};
	int fam = F[r.below(sizeof F / sizeof *F)];
	l.set("fam", fam).set("par", 1 + (i64)r.below(6)).set("seed", (i64)r.hv());
	if (fam == 4) l.set("gr", (i64)r.below(2));
	if (r.chance(1, 8)) l.set("scale", 1 + (i64)r.below(3));
	if (sim) {
		if (r.chance(1, 3)) l.set("met", 1 + (i64)r.below(6));
		l.set("tie", (i64)r.below(4));
		if (r.chance(1, 6)) l.set("eps", r.chance(1, 2) ? 10 : 60);
	}
	return l;
}
static u64 gen_sc_size(Rng& r, u64 n) {
	u64 v;
	switch (r.below(10)) { case 0: case 1: case 2: case 3: v = 2; break; case 4: case 5: v = 3; break; case 6: v = 4; break; case 7: v = 2 + r.below(std::max<u64>(1, n / 3)); break; case 8: v = 2 + r.below(std::max<u64>(1, n - 1)); break; default: v = 2 + r.below(5); }
	if (v > n && r.chance(39, 40)) v = n;
	return std::max<u64>(v, 2);
}
static void gen_rad(Rng& r, Line& l, const char* m, const char* h, const char* f, int mode) {
	l.set(m, mode);
	if (mode == 1) { l.set(h, (i64)r.below(100000)); static const int F[] = {0, 0, 1, 1, 2, 3, 4, 4, 5}; l.set(f, F[r.below(9)]); }
}
// options of one clustering request
static void gen_opts(Rng& r, Line& l, u64 n, int force_seed = -1) {
	u64 sc = gen_sc_size(r, n);
	while (sc > 50 && n * sc * sc > 200000000) sc -= sc / 8;      // the exclusion graph costs n sc^2: keep a run well under the watchdog
	int seedm = force_seed >= 0 ? force_seed : (int)r.below(6);
	l.set("sc", (i64)sc).set("seedm", seedm);
	if (seedm == SCC_SM_BATCHES) {
		l.set("pum", (i64)r.below(2)).set("sum", 0).set("prm", 2);
		static const int B[] = {0, 1, 2, 3, 7};
		l.set("bs", r.chance(1, 25) ? (r.chance(1, 2) ? 0xffffffffll : 0x80000000ll) : r.chance(3, 5) ? B[r.below(5)] : 1 + (i64)r.below(n + 3));
		gen_rad(r, l, "srm", "srh", "srf", r.chance(2, 5));
		if (r.chance(1, 3)) gen_rad(r, l, "erm", "erh", "erf", (int)r.below(4));
	} else {
		l.set("pum", r.chance(1, 5) ? 0 : 1 + (i64)r.below(3));
		static const int S[] = {0, 2, 3}; l.set("sum", S[r.below(3)]);
		gen_rad(r, l, "srm", "srh", "srf", r.chance(2, 5));
		gen_rad(r, l, "prm", "prh", "prf", (int)r.below(4));
		gen_rad(r, l, "erm", "erh", "erf", (int)r.below(4));
		if (r.chance(1, 4)) {
			u64 nt = r.chance(1, 8) ? 2 + r.below(18) : 2 + r.below(3), left = sc; i64 tcs = 0;
			bool over = r.chance(1, 25); u64 mx = r.chance(1, 6) ? 7 : 4;
			for (u64 t = 0; t < nt; t++) { u64 c = r.below(std::min<u64>(left, mx) + 1); if (nt > 4 && r.chance(1, 2)) c = 0; if (over) c = 1 + r.below(4); tcs |= (i64)c << (3 * t); left -= std::min(left, c); }
			if (r.chance(1, 15)) tcs = 0;
			if (r.chance(1, 60)) { static const int N[] = {22, 40, 255, 256, 257, 300, 4000, 65535}; nt = (u64)N[r.below(8)]; }
			l.set("nt", (i64)nt).set("tcs", tcs).set("th", (i64)r.below(1 << 20));
		} else if (r.chance(1, 10)) l.set("nt", 1);
	}
	if (r.chance(1, 3)) { static const int PL[] = {1, 1, 2, 3, 3, 4, 5, 6, 7}; l.set("pl", PL[r.below(9)]).set("ph", (i64)r.below(1 << 20)); }
}
struct GenCtx { Rng r; int nid = 0; explicit GenCtx(u64 s) : r(s) {}
	Line& add(const char* kind, int t, int natt = 0) { Line l(kind); l.set("t", t).set("id", nid++); if (natt) l.set("natt", natt); P.ops.push_back(l); return P.ops.back(); }
	u64 dn(i64 d) { return (u64)P.datas[(size_t)d].g("n"); }
};
static int gen_natt(Rng& r, bool faulty, int mx) { return faulty ? 1 + (int)r.below(mx) : 0; }
static void gen_object_op(GenCtx& g, int t, bool faulty, bool allow_ds, bool bads) {
	Rng& r = g.r; i64 d = (i64)r.below(P.datas.size()); u64 n = g.dn(d);
	int natt = faulty && r.chance(2, 3) ? 1 + (int)r.below(3) : 0;
	i64 bad = bads && r.chance(1, 4) ? 1 + (i64)r.below(10) : 0;
	auto fin = [&](Line& l) { l.set("s", (i64)r.below(4)).set("d", d); if (bad) l.set("bad", bad).set("bh", (i64)r.below(1000)); };
	switch (r.below(allow_ds ? 12 : 11)) {
		case 0: { Line& l = g.add("init", t, natt); fin(l); l.set("ext", r.chance(1, 3)); break; }
		case 1: case 2: case 3: {
			Line& l = g.add("initx", t, natt); fin(l); l.set("h", (i64)r.hv()).set("na", r.chance(1, 2) ? 0 : (i64)r.below(60)).set("ext", r.chance(1, 3));
			if (r.chance(1, 3)) l.set("relcl", 10 + (i64)r.below(140)); else l.set("ncl", 1 + (i64)r.below(8));
			if (r.chance(1, 12)) l.set("oor", 1);
			break; }
		case 4: case 5: { Line& l = g.add("copy", t, natt); fin(l); l.set("to", (i64)r.below(4)); break; }
		case 6: { Line& l = g.add("labels", t, natt); fin(l); l.set("h", (i64)r.hv()); break; }
		case 7: { Line& l = g.add("info", t); fin(l); l.set("h", (i64)r.below(4)); break; }
		case 8: { Line& l = g.add("free", t); fin(l); if (r.chance(1, 4)) l.set("null", 1); break; }
		case 9: { Line& l = g.add("check", t, natt); gen_opts(r, l, n); if (r.chance(1, 2)) l.set("sc", 2); fin(l); if (bad) l.set("bad", bad < 6 ? bad : 6 + (i64)r.below(33)); break; }
		case 10: { Line& l = g.add("stats", t, natt); fin(l); break; }
		case 11: { Line& l = g.add(r.chance(1, 4) ? "dsfree" : "dsinit", t, natt); fin(l); l.set("ds", (i64)r.below(3)).set("h", (i64)r.below(4)); if (l.kind == "dsfree" && r.chance(1, 3)) l.set("null", 1); break; }
	}
}
static void gen_cluster_op(GenCtx& g, int t, int natt, int hi_pct, bool bads, int force_seed = -1, i64 slot = -1) {
	Rng& r = g.r; i64 d = (i64)r.below(P.datas.size()); u64 n = g.dn(d);
	bool hi = (int)r.below(100) < hi_pct;
	Line& l = g.add(hi ? "hi" : "sc", t, natt);
	l.set("s", slot >= 0 ? slot : (i64)r.below(4)).set("d", d);
	if (r.chance(1, 5)) l.set("ext", 1);
	if (hi) l.set("sc", (i64)gen_sc_size(r, n)).set("batch", (i64)r.below(2)); else gen_opts(r, l, n, force_seed);
	if (bads) { l.set("bad", 1 + (i64)r.below(38)).set("bh", (i64)r.below(100000)); if (r.chance(1, 4)) l.set("bad2", 1 + (i64)r.below(38)); }
}
static void knobs(Rng& r, int b) {
	P.knob.set("ps", (i64)P.seed).set("back", b).set("gl", (i64)r.below(11)).set("gr", (i64)r.below(11)).set("gs", (i64)r.hv()).set("qs", (i64)r.hv());
}
static int pick_back(Rng& r, int sim, int proxy, int builtin) {
#if HAVE_ANN
	int x = (int)r.below(100); return x < sim ? (r.chance(1, 3) ? B_PROXY : B_PROXY_ANN) : x < sim + proxy ? B_PROXY_ANN : B_ANN;
#else
	int x = (int)r.below(100); return x < sim ? B_SIM : x < sim + proxy ? B_PROXY : B_BUILTIN;
#endif
}
// Every operation of a client uses its own label slots; slots 4,5 are used by the generator to force fresh targets.
static void generate(const str& prof, u64 seed) {
	seed &= 0x7fffffffffffffffull;
	P = Plan(); P.profile = prof; P.seed = seed; P.adaptive = true;
	GenCtx g(seed); Rng& r = g.r;
	auto fresh = [&](int t, i64 s) { Line& l = g.add("free", t); l.set("s", s); };
	auto deep = [&](Line& d) { d.set("fam", 10).set("n", (i64)cap_n(170 + r.below(r.chance(1, 3) ? 1400 : 350))).set("par", (i64)r.below(7)).set("dim", 1).set("met", 0).set("eps", 0); if (r.chance(1, 5)) d.set("asc", 1); };
	if (prof == "FUNC" || prof == "TINYFUNC" || prof == "BATCH") {
		int b = pick_back(r, 60, 20, 20); knobs(r, b);
		P.knob.set("orc", 1);
		u64 hi = prof == "TINYFUNC" ? 6 : r.chance(1, 3000) ? 2600 : r.chance(1, 250) ? 900 : r.chance(1, 50) ? 300 : r.chance(1, 12) ? 120 : r.chance(1, 3) ? 30 : 12;
		P.datas.push_back(gen_data(r, hi > 2000 ? 2100 : 2, hi, b == B_SIM));
		if (hi > 2000) { P.datas[0].set("fam", r.chance(1, 2) ? 0 : 6).set("dim", 1).set("met", 0); }
		int k = hi > 2000 ? 1 : 1 + (int)r.below(3);
		for (int i = 0; i < k; i++) { gen_cluster_op(g, 0, 0, 0, false, prof == "BATCH" ? (int)SCC_SM_BATCHES : -1, i); if (hi > 2000) { Line& l = P.ops.back(); l.set("sc", 2); if (prof == "FUNC") { l.set("nt", 0).set("seedm", r.chance(1, 3) ? 2 : 0).set("pum", 2 + (i64)r.below(2)).set("sum", 0).set("prm", 3).set("pl", 0); } } }
		if (r.chance(1, 3)) { Line& l = g.add("check", 0); gen_opts(r, l, g.dn(0)); l.set("s", 0).set("d", 0); }
		if (r.chance(1, 3)) { Line& l = g.add("stats", 0); l.set("s", 0).set("d", 0); }
	} else if (prof == "HIER") {
		int b = pick_back(r, 60, 25, 15); knobs(r, b);
		u64 hi = r.chance(1, 400) ? 2500 : r.chance(1, 25) ? 600 : r.chance(1, 5) ? 150 : r.chance(1, 2) ? 40 : 12;
		P.datas.push_back(gen_data(r, 2, hi, b == B_SIM));
		if (r.chance(1, 2)) P.datas[0].set("fam", 5).set("par", 2).set("met", 0);
		if (r.chance(1, 60)) deep(P.datas[0]);
		int k = 1 + (int)r.below(3);
		for (int i = 0; i < k; i++) {
			if (r.chance(1, 2)) { Line& l = g.add("initx", 0); l.set("s", i).set("d", 0).set("h", (i64)r.hv()).set("na", r.chance(1, 2) ? 0 : (i64)r.below(60)).set("ext", r.chance(1, 3)); if (r.chance(1, 3)) l.set("relcl", 10 + (i64)r.below(120)); else l.set("ncl", 1 + (i64)r.below(4)); }
			else if (r.chance(1, 4)) gen_cluster_op(g, 0, 0, 0, false, -1, i);
			gen_cluster_op(g, 0, 0, 100, false, -1, i);
			if (r.chance(1, 4)) gen_cluster_op(g, 0, 0, 100, false, -1, i);
		}
	} else if (prof == "FAULT" || prof == "HIFAULT") {
		int b = pick_back(r, 60, 25, 15); knobs(r, b); P.knob.set("orc", r.chance(1, 3));
		u64 hi = r.chance(1, 60) ? 300 : r.chance(1, 8) ? 60 : r.chance(1, 2) ? 20 : 8;
		int nd = 1 + (int)r.below(2);
		for (int i = 0; i < nd; i++) P.datas.push_back(gen_data(r, 2, hi, b == B_SIM));
		int k = 1 + (int)r.below(3);
		if (prof == "HIFAULT" && r.chance(1, 60)) deep(P.datas[0]);
		for (int i = 0; i < k; i++) {
			if (prof == "HIFAULT" && r.chance(1, 2)) { Line& l = g.add("initx", 0); l.set("s", i).set("d", 0).set("h", (i64)r.hv()).set("na", r.chance(1, 2) ? 0 : (i64)r.below(60)).set("ncl", 1 + (i64)r.below(4)); }
			gen_cluster_op(g, 0, 1 + (int)r.below(6), prof == "HIFAULT" ? 100 : 10, false, -1, i);
			if (r.chance(1, 3)) { Line& l = g.add("stats", 0, 1 + (int)r.below(3)); l.set("s", i).set("d", P.ops.back().g("d")); l.set("d", P.ops[P.ops.size() - 2].g("d")); }
			if (r.chance(1, 4)) { Line& l = g.add("check", 0, 1 + (int)r.below(2)); gen_opts(r, l, 4); l.set("s", i).set("d", 0); }
		}
	} else if (prof == "INTER") {
		int b = pick_back(r, 55, 25, 20); knobs(r, b); P.knob.set("orc", 0);
		static const int D[] = {1, 2, 5, 20, 100}; P.knob.set("pden", D[r.below(5)]).set("audit", 1);
		int nt = 2 + (int)r.below(3), nd = 1 + (int)r.below(3);
		for (int i = 0; i < nd; i++) P.datas.push_back(gen_data(r, 2, r.chance(1, 60) ? 250 : r.chance(1, 4) ? 40 : 12, b == B_SIM));
		for (int t = 0; t < nt; t++) {
			int k = 1 + (int)r.below(3);
			for (int i = 0; i < k; i++) {
				bool f = r.chance(1, 3);
				if (r.chance(2, 3)) gen_cluster_op(g, t, f ? 1 + (int)r.below(3) : 0, 30, r.chance(1, 12));
				else gen_object_op(g, t, f, true, true);
			}
		}
	} else if (prof == "HIST") { // long histories of few distinct requests, many of them repeated with the same faults
		int b = pick_back(r, 60, 25, 15); knobs(r, b); P.knob.set("orc", 0);
		int nd = 1 + (int)r.below(2), ns = 1 + (int)r.below(3);
		for (int i = 0; i < nd; i++) P.datas.push_back(gen_data(r, 2, r.chance(1, 20) ? 40 : r.chance(1, 2) ? 14 : 8, b == B_SIM));
		std::vector<Line> tmpl;
		for (int i = 0; i < ns; i++) { if (r.chance(4, 5)) gen_cluster_op(g, 0, 0, 25, r.chance(1, 12)); else gen_object_op(g, 0, true, false, false); tmpl.push_back(P.ops.back()); P.ops.pop_back(); g.nid--; }
		int k = 3 + (int)r.below(r.chance(1, 8) ? 60 : 12);
		for (int i = 0; i < k; i++) {
			Line l = tmpl[r.below(ns)]; l.set("id", g.nid++).set("natt", 0);
			if (r.chance(1, 2)) { l.set("natt", 1 + (i64)r.below(r.chance(1, 4) ? 20 : 5)); l.set("same", r.chance(2, 3)); }
			if (l.kind == "sc" || l.kind == "hi") { Line f("free"); f.set("t", 0).set("id", g.nid++).set("s", l.g("s")); P.ops.push_back(f); }
			P.ops.push_back(l);
		}
	} else if (prof == "LIFE" || prof == "LIFEFAULT") {
		bool f = prof == "LIFEFAULT";
		int b = pick_back(r, 40, 30, 30); knobs(r, b); P.knob.set("orc", 0).set("audit", 1);
		int nd = 1 + (int)r.below(3);
		for (int i = 0; i < nd; i++) P.datas.push_back(gen_data(r, 1, r.chance(1, 40) ? 300 : r.chance(1, 4) ? 30 : 9, b == B_SIM));
		int k = 4 + (int)r.below(r.chance(1, 6) ? 40 : 12);
		for (int i = 0; i < k; i++) { if (r.chance(1, 5)) gen_cluster_op(g, 0, f && r.chance(1, 2) ? 1 + (int)r.below(2) : 0, 40, r.chance(1, 8)); else gen_object_op(g, 0, f, true, true); }
	} else if (prof == "STATS") {
		int b = pick_back(r, 60, 20, 20); knobs(r, b); P.knob.set("orc", 0);
		P.datas.push_back(gen_data(r, 1, r.chance(1, 700) ? 2500 : r.chance(1, 40) ? 400 : r.chance(1, 10) ? 80 : 14, b == B_SIM));
		int k = 1 + (int)r.below(3);
		for (int i = 0; i < k; i++) {
			if (r.chance(2, 3)) { Line& l = g.add("initx", 0); l.set("s", i).set("d", 0).set("h", (i64)r.hv()).set("na", r.chance(1, 2) ? 0 : (i64)r.below(60)); if (r.chance(1, 3)) l.set("relcl", 10 + (i64)r.below(140)); else l.set("ncl", 1 + (i64)r.below(5)); if (r.chance(1, 10)) l.set("oor", 1); if (r.chance(1, 20)) l.set("na", 100); }
			else gen_cluster_op(g, 0, 0, 40, false, -1, i);
			bool f = r.chance(1, 3);
			{ Line& l = g.add("stats", 0, f ? 1 + (int)r.below(3) : 0); l.set("s", i).set("d", 0); if (r.chance(1, 10)) l.set("bad", 1 + (i64)r.below(5)); }
			int c = 1 + (int)r.below(4);
			for (int q = 0; q < c; q++) {
				Line& l = g.add("check", 0, r.chance(1, 4) ? 1 + (int)r.below(2) : 0); gen_opts(r, l, g.dn(0)); l.set("s", i).set("d", 0);
				if (r.chance(2, 3)) l.set("sc", 2 + (i64)r.below(2));
				if (r.chance(1, 2)) { u64 nt = 2 + r.below(3); i64 t = 0; for (u64 x = 0; x < nt; x++) t |= (i64)(r.below(5) < 2) << (3 * x); l.set("nt", (i64)nt).set("tcs", t).set("th", (i64)r.below(1 << 20)); if (l.g("seedm") == SCC_SM_BATCHES) l.set("seedm", 0); }
				if (r.chance(1, 15)) l.set("bad", 1 + (i64)r.below(38)).set("bh", (i64)r.below(1000));
			}
		}
	} else if (prof == "BAD") {
		int b = pick_back(r, 60, 25, 15); knobs(r, b); P.knob.set("orc", 0);
		P.datas.push_back(gen_data(r, 2, r.chance(1, 20) ? 120 : 14, b == B_SIM));
		int k = 3 + (int)r.below(6);
		for (int i = 0; i < k; i++) {
			u64 w = r.below(10);
			if (w < 6) gen_cluster_op(g, 0, r.chance(1, 10), 15, r.chance(5, 6), -1, -1);
			else gen_object_op(g, 0, r.chance(1, 8), true, true);
		}
	} else if (prof == "SPI") {
		knobs(r, B_PROXY); P.knob.set("orc", 0).set("spi", 1);
		P.datas.push_back(gen_data(r, 3, 12, false));
		if (r.chance(1, 2)) P.datas[0].set("fam", 0);
		int k = 3 + (int)r.below(10);
		for (int i = 0; i < k; i++) {
			u64 w = r.below(10);
			if (w < 5) {
				Line& l = g.add("spi", 0); i64 m = 0;
				switch (r.below(5)) { case 0: m = 1023; break; case 1: m = 0; for (int q = 0; q < 4; q++) m |= (i64)r.below(2) << q; if (r.chance(1, 2)) m |= 0x70; if (r.chance(1, 2)) m |= 0x380; break; default: m = (i64)r.below(1024); }
				l.set("mask", m).set("v", (i64)r.below(3));
			} else if (w < 6) g.add("reset", 0);
			else if (w < 9) { gen_cluster_op(g, 0, 0, 40, false, -1, i % 4); }
			else { Line& l = g.add("stats", 0); l.set("s", (i64)r.below(4)).set("d", 0); }
		}
	} else if (prof == "BACKEND") {
		knobs(r, HAVE_ANN ? B_ANN : B_BUILTIN); P.knob.set("orc", 0);
		int nt = 1 + (int)r.below(3); if (nt > 1) { static const int D[] = {1, 2, 5, 20}; P.knob.set("pden", D[r.below(4)]); }
		int nd = 1 + (int)r.below(2);
		for (int i = 0; i < nd; i++) P.datas.push_back(gen_data(r, 1, r.chance(1, 800) ? 3000 : r.chance(1, 100) ? 500 : r.chance(1, 10) ? 150 : r.chance(1, 2) ? 30 : 8, false));
		for (int t = 0; t < nt; t++) {
			int k = 4 + (int)r.below(10);
			for (int i = 0; i < k; i++) {
				int natt = r.chance(1, 4) ? 1 + (int)r.below(2) : 0;
				u64 w = r.below(12); i64 d = (i64)r.below(P.datas.size());
				auto lst = [&](Line& l) { l.set("d", d).set("b", (i64)r.below(3)).set("h", (i64)r.hv()); };
				static const int DN[] = {-1, -1, -2, 0, 1, 1, 2, 3};
				if (i == 0 || w < 2) { Line& l = g.add(r.chance(2, 3) ? "bopen" : "mopen", t, natt); lst(l); l.set("dens", DN[r.below(8)]); if (i == 0) l.kind = "bopen"; }
				else if (w < 8) { Line& l = g.add("bsearch", t, natt); lst(l); l.set("qd", r.chance(1, 3) ? -1 : (i64)r.below(4)).set("k", r.chance(1, 2) ? (i64)r.below(4) : (i64)r.below(1000)); if (r.chance(1, 6)) l.set("kall", 1); if (r.chance(1, 2)) { static const int F[] = {0, 0, 1, 2, 3, 4, 5}; l.set("rs", 1).set("rh", (i64)r.below(100000)).set("rf", F[r.below(7)]); } if (r.chance(1, 4)) l.set("alias", 1); if (r.chance(1, 4)) l.set("noq", 1); if (r.chance(1, 4)) l.set("rep", 1); }
				else if (w < 9) { Line& l = g.add("mget", t, natt); lst(l); l.set("qd", r.chance(1, 3) ? -1 : (i64)r.below(4)); }
				else if (w < 11) { Line& l = g.add(r.chance(1, 2) ? "matrix" : "rows", t); lst(l); l.set("qd", (i64)r.below(5) - 1).set("cd", (i64)r.below(5) - 1); }
				else { Line& l = g.add(r.chance(1, 2) ? "bclose" : "mclose", t); lst(l); }
			}
		}
		if (r.chance(1, 250)) { // more points than 16 bits can count, few queries or few points searched
			for (auto& d : P.datas) d.set("n", (i64)cap_n(r.chance(1, 3) ? 32768 + r.below(2000) : 65534 + r.below(3000))).set("dim", 1 + (i64)r.below(2));
			if (r.chance(1, 2)) for (auto& l : P.ops) { // many queries, few points searched
				if (l.has("dens")) l.set("dens", 4);
				if (l.kind == "matrix") l.kind = "rows";
				if (l.has("qd") && l.g("qd") != 0) l.set("qd", r.chance(1, 2) ? 3 : l.g("qd") < 0 ? -1 : 0);
				if (l.has("cd")) l.set("cd", 4);
				if (l.has("h") && l.has("qd") && l.g("qd") < 0) l.set("h", (i64)(P.datas[0].g("n") * (1 + r.below(50)) - 1 - (i64)r.below(60)));
			} else
			{
				bool all = r.chance(1, 3); // as many neighbours as there are points: in sorted data, where that is cheap
				if (all) for (auto& d : P.datas) d.set("fam", 7).set("dim", 1);
				for (auto& l : P.ops) {
					if (l.has("qd")) l.set("qd", all ? 5 : 4);
					if (l.has("cd")) l.set("cd", r.chance(1, 2) ? -1 : 4);
					if (l.has("k")) { if (l.g("k") > 50) l.set("k", l.g("k") % 50); l.set("kall", all && r.chance(1, 2)); }
					if (all && l.has("dens")) { l.set("h", l.g("h") & ~1ll); if (l.g("dens") == -2) l.set("dens", -1); }
				}
			}
		}
	} else if (prof == "CAP") { // narrow integer types: every limit is reachable
		int b = r.chance(3, 4) ? B_SIM : B_PROXY; knobs(r, b); P.knob.set("orc", r.chance(1, 2));
		u64 top = std::min<u64>(PIMAX, 255);
		P.datas.push_back(gen_data(r, 2, r.chance(1, 2) ? 40 : top, b == B_SIM));
		bool exact = ARCMAX == 255 && r.chance(1, 6); // arcs that fill the arc type exactly
		if (exact) P.datas[0].set("n", r.chance(1, 2) ? 17 : 51);
		u64 n = g.dn(0); int k = 1 + (int)r.below(3);
		for (int i = 0; i < k; i++) {
			u64 w = r.below(4);
			if (w == 0) { Line& l = g.add("initx", 0); l.set("s", i).set("d", 0).set("h", (i64)r.hv()).set("na", r.chance(1, 2) ? 0 : (i64)r.below(90)).set("ncl", 1 + (i64)r.below(CLMAX < 20 ? CLMAX : 20)); if (r.chance(1, 4)) l.set("bad", 1 + (i64)r.below(6)).set("bh", (i64)r.below(100)); }
			gen_cluster_op(g, 0, r.chance(1, 6), w == 0 ? 100 : 25, false, -1, i);
			Line& l = P.ops.back();
			if (exact && l.kind == "sc" && r.chance(3, 4)) { l.set("sc", (i64)(255 / n)).set("nt", 0).set("pl", 0); if (l.g("seedm") == SCC_SM_BATCHES) l.set("bs", 0); }
			else if (r.chance(1, 2)) { // near the limits
				u64 sc = 2;
				switch (r.below(3)) { case 0: sc = n / std::min<u64>(CLMAX, n); break; case 1: sc = ARCMAX / n; break; default: sc = n / std::min<u64>(CLMAX, n) + 1; }
				sc += r.below(3); if (sc) sc -= r.below(2);
				l.set("sc", (i64)std::min<u64>(std::max<u64>(2, sc), n));
			}
			if (r.chance(1, 3)) { Line& q = g.add("stats", 0); q.set("s", i).set("d", 0); }
			if (r.chance(1, 4)) { Line& q = g.add("dsinit", 0); q.set("ds", 0).set("d", 0); if (r.chance(1, 2)) q.set("bad", 1 + (i64)r.below(7)); }
		}
	} else if (prof == "HUGE") { // ring of simulated points, most requests do not fit the simulated machine
		knobs(r, B_SIM); P.knob.set("orc", 0).set("lim", 26 + (i64)r.below(3)).set("gl", 0).set("gr", 1);
		Line d("data");
		u64 n;
		if (PIMAX == ~0ull) n = r.chance(1, 2) ? (1ull << (20 + r.below(28))) + r.below(1000) : (1ull << 32) + r.below(100000);
		else { static const u64 C[] = {65536, 65537, 70000, 131072, 1u << 20, (1u << 20) + 1, 1u << 22, 1u << 24, 1u << 28, 1u << 29, (1u << 30) + 5, 1u << 31, (1u << 31) + 1, 4294967294u, 4294967295u}; n = C[r.below(15)]; n = std::min<u64>(n, PIMAX); if (r.chance(1, 2)) n -= r.below(std::min<u64>(n / 2, 100000)); }
		d.set("n", (i64)n).set("dim", 1).set("fam", 9).set("seed", 1);
		P.datas.push_back(d);
		int k = 1 + (int)r.below(2);
		for (int i = 0; i < k; i++) {
			Line& l = g.add(r.chance(1, 6) ? "hi" : "sc", 0);
			l.set("s", i).set("d", 0).set("ext", 0);
			u64 sc; switch (r.below(6)) { case 0: sc = 2 + r.below(4); break; case 1: sc = 65536; break; case 2: sc = 65535 + r.below(4); break; case 3: sc = (1ull << 32) / std::max<u64>(1, std::min<u64>(n, 1u << 31)) + r.below(3); break; case 4: sc = 1ull << (1 + r.below(31)); break; default: sc = 2 + r.below(70000); }
			if (n <= (1u << 22) && sc <= n && sc * n < (1u << 28) && r.chance(3, 4)) { } else if (n < (1u << 26) && sc * n < (1ull << 31) && sc > 8) sc = std::min<u64>(n, (1ull << 32) / n + 1 + r.below(5));
			sc = std::max<u64>(2, std::min<u64>(sc, n)); if (sc > 0x7fffffff) sc = 0x7fffffff;
			l.set("sc", (i64)sc).set("bh", 0);
			if (l.kind == "hi") { l.set("batch", (i64)r.below(2)); if (n < (1u << 28)) l.kind = "sc"; }
			if (l.kind == "sc") {
				int m = r.chance(2, 5) ? (int)SCC_SM_BATCHES : (int)r.below(6);
				if ((m == SCC_SM_EXCLUSION_ORDER || m == SCC_SM_EXCLUSION_UPDATING) && n < (1u << 28) && (double)n * sc * sc > 1e8) m = SCC_SM_BATCHES;
				l.set("seedm", m).set("sum", 0).set("prm", 2).set("pum", (i64)r.below(2));
				if (m == SCC_SM_BATCHES) { static const u64 B[] = {0, 1, 65536, 65537, 131072, 1u << 20, 0x7fffffff, 4294967295u}; u64 bs = B[r.below(8)]; if (r.chance(1, 3)) bs = (1ull << 32) / sc + r.below(3); if (bs && bs < 1000 && n > 100000 && n < (1u << 27)) bs = 65536; l.set("bs", (i64)std::min<u64>(bs, 0xffffffffu)); }
			}
		}
	} else if (prof == "VAST" || prof == "CLAIM") { // more than 2^31 points, and the memory for them
		knobs(r, B_SIM); P.knob.set("orc", 0).set("lim", 62).set("vast", 1).set("gl", 0).set("gr", 1);
		u64 n = (1ull << 31) + 1 + r.below(r.chance(1, 2) ? 4 : 2000); if (PIMAX == ~0ull && r.chance(1, 2)) n = (1ull << 32) + 1 + r.below(4);
		Line d("data"); d.set("n", (i64)n).set("dim", 1).set("fam", 9).set("seed", 1); P.datas.push_back(d);
		static const int W[] = {0, 0, 0, 1, 1, 1, 2, 3, 0, 0, 1, 1, 0, 1, 3, 5};
		int w = prof == "CLAIM" ? r.chance(1, 2) ? 4 : 6 : W[r.below(16)]; if (w == 5 && PIMAX != ~0ull) w = 0; if (w == 6 && PIMAX != ~0ull) w = 4;
		if (w == 4 && PIMAX == ~0ull && r.chance(1, 2)) P.datas[0].set("n", (i64)(n = (1ull << (30 + r.below(6))) + r.below(3)));
		if (w == 4) { // a request whose buffers exceed any memory
			Line& l = g.add("vast", 0); l.set("d", 0).set("w", 4).set("ext", 0).set("h", (i64)r.hv());
			u64 m = std::min<u64>(n, 0xffffffffu); i64 sc = (i64)(r.chance(2, 3) ? 1ull << (20 + r.below(12)) : (1ull << 20) + r.below(m - (1ull << 20)));
			if (PIMAX != ~0ull && r.chance(1, 2)) sc = (i64)((1ull << 62) / n + r.below(3)); // 4 * sc * n is close to 2^64
			sc = (i64)std::min<u64>((u64)sc, m); u64 bs = r.chance(1, 2) ? 0 : r.chance(1, 2) ? 1ull << (20 + r.below(12)) : 0xffffffffu - r.below(3); i64 sm = r.chance(1, 2) ? (i64)SCC_SM_BATCHES : (i64)r.below(6);
			if (sm != (i64)SCC_SM_BATCHES && n > PIMAX) n = PIMAX;
			auto bytes = [&] { u64 rows = sm == (i64)SCC_SM_BATCHES ? std::min<u64>(n, bs ? bs : 0xffffffffu) : n; return (double)rows * (double)sc * sizeof(PI); };
			while (bytes() < 3e14) { if ((u64)sc < m) sc = (i64)std::min<u64>(2 * (u64)sc, m); else if (bs && bs < n) bs = 0; else { n *= 2; m = std::min<u64>(n, 0xffffffffu); } } // more than the address space holds
			P.datas[0].set("n", (i64)n); l.set("sc", sc).set("seedm", sm).set("bs", (i64)bs);
			return;
		}
		if (w == 5) { // more points of each type demanded than 32 bits count
			Line& l = g.add("vast", 0); P.datas[0].set("n", (i64)(n = (1ull << 32) + r.below(5)));
			l.set("d", 0).set("w", 5).set("ext", 0).set("sc", 2 + (i64)r.below(5)).set("seedm", 0).set("rest", r.chance(1, 2) ? 0 : (i64)r.below(5)); return;
		}
		if (w == 6) { // a clustering that claims to have more clusters than any array can hold
			P.datas[0] = Line("data"); P.datas[0].set("n", 4 + (i64)r.below(60)).set("dim", 1).set("fam", 0).set("seed", 1);
			Line& l = g.add("vast", 0); u64 nt = r.chance(1, 4) ? 0 : 2 + r.below(9), k; // types
			switch (r.below(5)) { case 0: k = ~0ull - r.below(3); break; case 1: k = ~0ull / std::max<u64>(nt, 2) + r.below(4); break; case 2: k = (1ull << 63) + r.below(3); break; case 3: k = (1ull << (56 + r.below(8))) + r.below(3); break; default: k = ~0ull - r.below(700); }
			l.set("d", 0).set("w", 6).set("k", (i64)k).set("nt", (i64)nt).set("what", (i64)r.below(4)).set("sc", 2 + (i64)r.below(3)).set("ext", r.chance(1, 2)); return;
		}
		Line& l = g.add("vast", 0); l.set("d", 0).set("w", w);
		l.set("sc", (i64)std::min<u64>(0xffffffffu, r.chance(1, 2) ? (1ull << 31) + r.below(n - (1ull << 31) + 1) : n / 2 + 1 + r.below(100))).set("batch", (i64)r.below(2)).set("ext", w != 0 || r.chance(1, 3)).set("empty", w == 0 && r.chance(1, 2)).set("copy", 0).set("more", w == 0 ? 0 : (i64)r.below(2));
	} else if (prof == "BIG") { // real sizes, checked for validity only
		int b = pick_back(r, 90, 10, 0); b = B_SIM; knobs(r, b); P.knob.set("orc", 0).set("gl", 0).set("gr", 1);
		Line d("data"); d.set("n", 20000 + (i64)r.below(60000)).set("dim", 1).set("fam", 9).set("seed", 1);
		P.datas.push_back(d);
		Line& l = g.add("sc", 0, r.chance(1, 3)); l.set("s", 0).set("d", 0);
		gen_opts(r, l, 40); l.set("nt", 0).set("pum", l.g("seedm") == SCC_SM_BATCHES ? l.g("pum") : (i64)r.below(2)).set("sum", 0);
		if (l.g("seedm") == SCC_SM_BATCHES && l.g("bs") && l.g("bs") < 100) l.set("bs", 100 + (i64)r.below(50000));
	} else if (prof == "LINE" || prof == "LINEHI" || prof == "LINESC" || prof == "LINEOBJ") { // tens of thousands of points on a line, judged by the full model
		knobs(r, B_SIM); P.knob.set("orc", 1).set("gl", (i64)r.below(11)).set("gr", (i64)r.below(11));
		u64 n; switch (r.below(10)) { case 0: case 1: n = 3000 + r.below(9000); break; case 2: n = 32700 + r.below(3000); break; case 3: n = 65536 + r.below(2); break; case 4: case 5: case 6: n = 65536 + r.below(12000); break; default: n = 131072 + r.below(20000); }
		Line d("data"); d.set("n", (i64)cap_n(n)).set("dim", 1).set("fam", 11).set("par", (i64)r.below(4)).set("seed", (i64)r.hv()).set("tie", (i64)r.below(2));
		bool hubs = false;
		P.datas.push_back(d); n = g.dn(0);
		u64 kind = prof == "LINE" ? r.below(20) : prof == "LINESC" ? r.below(11) : prof == "LINEHI" ? 11 + r.below(4) : 15 + r.below(5);
		auto extra = [&](i64 s) {
			if (!hubs && r.chance(1, 3)) { Line& l = g.add("stats", 0, r.chance(1, 6)); l.set("s", s).set("d", 0); }
			if (r.chance(1, 3)) { Line& l = g.add("check", 0, r.chance(1, 6)); gen_opts(r, l, 20); l.set("s", s).set("d", 0).set("sc", 2 + (i64)r.below(3)); }
		};
		if (kind < 11) {
			if (r.chance(1, 3)) P.knob.set("lim", 20 + (i64)r.below(5)); // upper bounds do not fit, exact sizes may
			Line& l = g.add("sc", 0, r.chance(1, 6)); l.set("s", 0).set("d", 0); if (r.chance(1, 5)) l.set("ext", 1);
			gen_opts(r, l, r.chance(1, 10) && n < 20000 ? 60 : 8);
			if (l.g("nt") > 4000 || (l.g("nt") > 300 && n > 20000)) l.set("nt", 300);
			if (l.g("sc") < 2 || (n > 130000 && r.chance(1, 2))) l.set("sc", 2);
			for (const char* f : {"srf", "prf", "erf"}) if (l.g(f) == 3) l.set(f, 1);
			if (r.chance(1, 5)) { // many points at one place, who all name the same neighbours: in-degrees beyond 8 and 16 bits
				hubs = true;
				P.datas[0].set("par", 4 + (i64)r.below(3)).set("tie", r.chance(3, 4) ? 2 + (i64)r.below(2) : (i64)r.below(2));
				bool ex = l.g("seedm") == SCC_SM_EXCLUSION_ORDER || l.g("seedm") == SCC_SM_EXCLUSION_UPDATING;
				if (ex && (P.datas[0].g("par") != 5 || n > 12000)) l.set("seedm", r.chance(1, 2) ? SCC_SM_INWARDS_UPDATING : SCC_SM_INWARDS_ORDER);
				if (P.datas[0].g("par") == 4 && P.datas[0].g("n") < 65537) P.datas[0].set("n", (i64)cap_n(65537 + (H(seed, 'H') & 1) * (H(seed, 'H', 1) % 3000)));
			}
			if (H(seed, 'H', 2) % (prof == "LINESC" ? 14 : 40) == 0) { // the most named point is named exactly 2^16 times, and the order of the seeds depends on it
				hubs = true;
				P.datas[0].set("par", 4).set("tie", 2 + (i64)(H(seed, 'H', 3) & 1)).set("n", (i64)cap_n(65537 + H(seed, 'H', 1) % 3000)).set("seed", (i64)((H(seed, 'H', 4) & ~(1ull << 24)) >> 1 & ~(1ull << 24)) | 1 << 20);
				l.set("seedm", H(seed, 'H', 5) % 3 ? SCC_SM_INWARDS_ORDER : SCC_SM_INWARDS_UPDATING).set("sc", 2 + (i64)(H(seed, 'H', 6) % 3)).set("nt", 0).set("srm", 0).set("pl", 0);
				if (l.g("pum") == 0 && !l.has("sum")) l.set("sum", 0);
			}
			if (l.g("seedm") == SCC_SM_BATCHES && l.g("bs")) { static const i64 B[] = {100, 1000, 32767, 32768, 65535, 65536, 65537, 200000}; l.set("bs", r.chance(1, 2) ? B[r.below(8)] : (i64)(n - 5 + r.below(10))); }
			if (r.chance(1, 14)) { l.set("pl", 4).set("ph", (i64)r.below(1000)).set("sc", (i64)(2 + r.below(n - 1))); if (r.chance(1, 2)) l.set("nt", 0); }
			extra(0);
		} else if (kind < 15) {
			if (r.chance(1, 2)) { Line& l = g.add("initx", 0); l.set("s", 0).set("d", 0).set("h", (i64)r.hv()).set("na", r.chance(1, 2) ? 0 : (i64)r.below(60)).set("ext", r.chance(1, 3)); if (r.chance(1, 2)) l.set("relcl", 1 + (i64)r.below(20)); else l.set("ncl", 1 + (i64)r.below(4)); }
			Line& l = g.add("hi", 0, r.chance(1, 6)); l.set("s", 0).set("d", 0).set("batch", (i64)r.below(2));
			l.set("sc", r.chance(1, 3) ? (i64)(2 + r.below(n / 2)) : n > 130000 ? 2 : 2 + (i64)r.below(20));
			if (l.g("sc") < 100) extra(0);
		} else {
			int b = r.chance(1, 2) ? B_PROXY : B_SIM; P.knob.set("back", b); P.knob.set("audit", 1);
			int k = 2 + (int)r.below(4);
			for (int i = 0; i < k; i++) {
				Line& l = g.add("initx", 0, r.chance(1, 6)); l.set("s", (i64)r.below(2)).set("d", 0).set("h", (i64)r.hv()).set("na", r.chance(1, 2) ? 0 : (i64)r.below(60)).set("ext", r.chance(1, 3));
				if (r.chance(2, 3)) l.set("relcl", 5 + (i64)r.below(100)); else l.set("ncl", (i64)(n / 40 + r.below(n)));
				if (r.chance(1, 10)) l.set("oor", 1);
				extra(l.g("s"));
				if (r.chance(1, 2)) { Line& q = g.add("copy", 0, r.chance(1, 6)); q.set("s", (i64)r.below(2)).set("d", 0).set("to", 2 + (i64)r.below(2)); }
				if (r.chance(1, 2)) { Line& q = g.add("labels", 0); q.set("s", (i64)r.below(4)).set("d", 0).set("h", (i64)r.hv()); }
				if (r.chance(1, 3)) { Line& q = g.add("info", 0); q.set("s", (i64)r.below(4)).set("d", 0).set("h", (i64)r.below(4)); }
				if (r.chance(1, 3)) { Line& q = g.add("free", 0); q.set("s", (i64)r.below(4)); }
			}
		}
	} else { fprintf(stderr, "unknown profile %s\n", prof.c_str()); _exit(2); }
	for (size_t i = 0; i < P.datas.size(); i++) { Line& d = P.datas[i]; if (d.g("fam") <= 8 && d.g("fam") != 4 && H(seed, 'O', i) % 10 == 0) d.set("off", 1 + (i64)(H(seed, 'O', i, 1) % 2)); }
	// the allocator's habit, and data sets of the client's own making: decided apart, so that the draws above stay what they are
	if (prof != "VAST" && prof != "CLAIM" && prof.substr(0, 4) != "LINE" && H(seed, 'R', 1) % 3 == 0) P.knob.set("reu", 1);
	if (P.knob.g("back") != B_SIM && !P.knob.has("vast") && prof != "SPI" && prof != "HUGE" && prof != "BIG" && prof != "VAST" && prof != "CLAIM" && prof.substr(0, 4) != "LINE" && H(seed, 'R', 2) % (prof == "BAD" ? 3 : 6) == 0) {
		Line q("dsinit"); q.set("t", 0).set("id", 900).set("s", 0).set("d", (i64)(H(seed, 'R', 3) % P.datas.size())).set("ds", 0).set("h", (i64)(H(seed, 'R', 4) % 4)); P.ops.insert(P.ops.begin(), q);
	}
	std::map<std::pair<i64, i64>, std::map<i64, int>> have; // task, data: slots
	for (auto& l : P.ops) {
		i64 t = l.g("t"), d = l.g("d") % (i64)P.datas.size();
		if (l.kind == "dsinit" || l.kind == "dsfree") { for (auto& q : have) if (q.first.first == t) q.second.erase(l.g("ds")); if (l.kind == "dsinit" && !l.has("bad")) have[{t, d}][l.g("ds")] = 0; continue; }
		if (l.kind != "sc" && l.kind != "hi" && l.kind != "stats") continue;
		auto it = have.find({t, d});
		if (it == have.end() || it->second.empty()) continue;
		u64 h = H(seed, 'D', (u64)l.g("id"));
		if (h % 3 == 0) continue;
		auto q = it->second.begin(); std::advance(q, (h >> 8) % it->second.size());
		l.set("ds", q->first);
		if (q->second && !l.has("bad2") && (prof == "BAD" || l.has("bad")) && (h >> 16) % 3 == 0) l.set("bad", 4).set("bh", (i64)((h >> 20) % 1000)).set("wipe", 1);
		else if (!l.has("bad")) q->second = 1;
	}
}
