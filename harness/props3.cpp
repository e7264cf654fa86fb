// C22 monotonicity and bounds, C26 equivalent computations: relations between
// results of the library (and the values of the format). The reference comes in
// only where two results differ by the one unit that is allowed next to a tie.
#include "engine.h"
#include <quadmath.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>

static Verdict V(Res r, double e = 0) { return {r, -1, e}; }
static const Op *opn(int t, const std::string &base) { return tk_find(std::string(TYPES[t].name) + "_" + base); }
static double wt(int type) { int n = TYPES[type].n; return n == 8 ? 0.05 : n == 16 ? 0.3 : n == 32 ? 1 : 1.3; }
static std::string hx(int64_t v) { return std::to_string(v); }
static quad dabs(int64_t a, int64_t b) { quad d = (quad)a - b; return d < 0 ? -d : d; }
// results held in 80-bit extended (64 bits) or rounded close to a tie (32 bits)
// may differ by one unit in the last place
static int64_t slack(int t) { return TYPES[t].n >= 32 ? 1 : 0; }
static bool slackok(const Op &o, int64_t a, int64_t b = 0)
{
	static const char *EXACT[] = {"addition", "subtraction", "multiplication", "division", "inversion", "square_root", "absolute", "sign", "root"};
	for (auto e : EXACT) if (o.base == e) {
		bool lin = TYPES[o.t].lin;
		if (lin ? o.base != "root" : o.base != "addition" && o.base != "subtraction") return false; // one monotone rounding after another
	}
	return tk_correct(o, a, b, nullptr);
}
static Target tgt(const std::string &name, std::vector<ArgSpec> args, double w, CheckFn f)
{
	Target g;
	g.name = name; g.args = args; g.check = f; g.weight = w;
	return g;
}
static int64_t enc(int t, quad v) { return tk_encode(t, rnum(v)); }

// ------------------------------------------------------------------ C22
struct Mono { const char *f; int dir; quad lo, hi; bool each; }; // dir on [lo,hi]; each: separately on both signs
static const quad INF_ = 1e4000Q, PI_ = M_PIq;
static const Mono MONO[] = {
	{"exp", 1, -INF_, INF_, false}, {"exp_minus_1", 1, -INF_, INF_, false}, {"2_raised", 1, -INF_, INF_, false}, {"2_raised_minus_1", 1, -INF_, INF_, false},
	{"10_raised", 1, -INF_, INF_, false}, {"10_raised_minus_1", 1, -INF_, INF_, false}, {"ln", 1, 0, INF_, false}, {"lb", 1, 0, INF_, false}, {"lg", 1, 0, INF_, false},
	{"ln_1_plus", 1, -1, INF_, false}, {"lb_1_plus", 1, -1, INF_, false}, {"lg_1_plus", 1, -1, INF_, false}, {"square_root", 1, 0, INF_, false},
	{"sinh", 1, -INF_, INF_, false}, {"tanh", 1, -INF_, INF_, false}, {"cosh", 1, 0, INF_, false}, {"cosh", -1, -INF_, 0, false}, {"sech", -1, 0, INF_, false}, {"sech", 1, -INF_, 0, false},
	{"coth", -1, -INF_, INF_, true}, {"csch", -1, -INF_, INF_, true}, {"inversion", -1, -INF_, INF_, true},
	{"arsinh", 1, -INF_, INF_, false}, {"arcosh", 1, 1, INF_, false}, {"artanh", 1, -1, 1, false}, {"arcoth", -1, 1, INF_, false}, {"arcoth", -1, -INF_, -1, false},
	{"arsech", -1, 0, 1, false}, {"arcsch", -1, -INF_, INF_, true},
	{"arcsin", 1, -1, 1, false}, {"arccos", -1, -1, 1, false}, {"arctan", 1, -INF_, INF_, false}, {"arccot", -1, -INF_, INF_, false},
	{"arcsec", 1, 1, INF_, false}, {"arcsec", 1, -INF_, -1, false}, {"arccsc", -1, 1, INF_, false}, {"arccsc", -1, -INF_, -1, false},
	{"arcsin_over_pi", 1, -1, 1, false}, {"arccos_over_pi", -1, -1, 1, false}, {"arctan_over_pi", 1, -INF_, INF_, false}, {"arccot_over_pi", -1, -INF_, INF_, false},
	{"arcsec_over_pi", 1, 1, INF_, false}, {"arcsec_over_pi", 1, -INF_, -1, false}, {"arccsc_over_pi", -1, 1, INF_, false}, {"arccsc_over_pi", -1, -INF_, -1, false},
	{"sin", 1, -1.57Q, 1.57Q, false}, {"cos", -1, 0, 3.14Q, false}, {"cos", 1, -3.14Q, 0, false}, {"tan", 1, -1.57Q, 1.57Q, false}, {"cot", -1, 0, 3.14Q, false}, {"cot", -1, -3.14Q, 0, false},
	{"sec", 1, 0, 1.57Q, false}, {"sec", 1, 1.571Q, 3.14Q, false}, {"csc", -1, 0, 1.57Q, false}, {"csc", -1, -1.57Q, 0, false},
	{"sin_pi_times", 1, -0.499Q, 0.499Q, false}, {"cos_pi_times", -1, 0, 1, false}, {"cos_pi_times", 1, -0.999Q, 0, false}, {"tan_pi_times", 1, -0.499Q, 0.499Q, false},
	{"cot_pi_times", -1, 0, 0.999Q, false}, {"sec_pi_times", 1, 0, 0.499Q, false}, {"csc_pi_times", -1, 0, 0.499Q, false},
	{"absolute", 1, 0, INF_, false}, {"absolute", -1, -INF_, 0, false}, {"sign", 1, -INF_, INF_, false},
};
// what holds for |f(x)| and x, rounding being monotone: f(x) compared with x, with
// 1 or with a constant of the format
enum BoundKind { LE_ABS, GE_ABS, LE, GE, ABS_LE, ABS_GE };
struct Bound { const char *f; BoundKind k; quad v; };
static const Bound BOUND[] = {
	{"sin", ABS_LE, 1}, {"cos", ABS_LE, 1}, {"sec", ABS_GE, 1}, {"csc", ABS_GE, 1}, {"sin_pi_times", ABS_LE, 1}, {"cos_pi_times", ABS_LE, 1}, {"sec_pi_times", ABS_GE, 1}, {"csc_pi_times", ABS_GE, 1},
	{"sin", LE_ABS, 0}, {"tanh", LE_ABS, 0}, {"tanh", ABS_LE, 1}, {"coth", ABS_GE, 1}, {"sech", LE, 1}, {"sech", GE, 0}, {"cosh", GE, 1}, {"sinh", GE_ABS, 0}, {"arsinh", LE_ABS, 0}, {"artanh", GE_ABS, 0},
	{"arctan", LE_ABS, 0}, {"arctan", ABS_LE, M_PIq / 2}, {"arctan_over_pi", ABS_LE, 0.5Q}, {"arcsin", GE_ABS, 0}, {"arcsin", ABS_LE, M_PIq / 2}, {"arcsin_over_pi", ABS_LE, 0.5Q},
	{"arccos", GE, 0}, {"arccos", LE, M_PIq}, {"arccos_over_pi", GE, 0}, {"arccos_over_pi", LE, 1}, {"arccot", GE, 0}, {"arccot", LE, M_PIq}, {"arccot_over_pi", GE, 0}, {"arccot_over_pi", LE, 1},
	{"arcsec", GE, 0}, {"arcsec", LE, M_PIq}, {"arcsec_over_pi", GE, 0}, {"arcsec_over_pi", LE, 1}, {"arccsc", ABS_LE, M_PIq / 2}, {"arccsc_over_pi", ABS_LE, 0.5Q},
	{"arcosh", GE, 0}, {"arsech", GE, 0}, {"exp", GE, 0}, {"2_raised", GE, 0}, {"10_raised", GE, 0}, {"exp_minus_1", GE, -1}, {"2_raised_minus_1", GE, -1}, {"10_raised_minus_1", GE, -1},
	{"square_root", GE, 0}, {"absolute", GE, 0}, {"sign", ABS_LE, 1},
};
static void build_c22(std::vector<Property> &PR)
{
	Property p;
	p.id = "C22"; p.quick = 30; p.thorough = 800;
	p.rule = "Neighbouring strings (8 and 16 bits: all of them; 32 and 64 bits: generated and the lattice of all exponents with simple mantissas), generated pairs and triples; non-trivial: arguments inside the interval, not NaR, results not both saturated.";
	for (int t = 0; t < 8; t++) {
		int n = TYPES[t].n;
		const int64_t nar = tk_nar(n), mx = tk_max(n);
		auto dec = [t](int64_t a) { return tk_decode(t, a); };
		for (auto &m : MONO) {
			Op o = *opn(t, m.f);
			std::string nm = o.name + (m.dir > 0 ? " increases" : " decreases") + (m.lo == 0 || m.lo == 1 ? " (x>0)" : m.hi == 0 || m.hi == -1 ? " (x<0)" : m.lo > 1 ? " (second quarter)" : "");
			Mono mm = m;
			auto pair = [=](int64_t a, int64_t b, std::string *why) -> int { // 0 fail, 1 pass, 2 trivial
				if (a == nar || b == nar || a == b) return 2;
				if (mm.each && (a == 0 || b == 0 || (a < 0) != (b < 0))) return 2;
				if (a > b) std::swap(a, b);
				quad xa = a == 0 ? 0 : dec(a).x, xb = b == 0 ? 0 : dec(b).x;
				if (xa < mm.lo || xb > mm.hi) return 2;
				int64_t fa = tk_call_un(o, a), fb = tk_call_un(o, b);
				if (fa == nar || fb == nar) return 2; // ends of the domain: C18
				bool ok = mm.dir > 0 ? (quad)fa <= (quad)fb + slack(t) : (quad)fb <= (quad)fa + slack(t);
				if (ok && fa != fb && (mm.dir > 0) == (fa > fb)) ok = slackok(o, a) && slackok(o, b);
				if (!ok) { if (why) *why = "f(" + hx(a) + ") = " + hx(fa) + " and f(" + hx(b) + ") = " + hx(fb) + " are in the wrong order"; return 0; }
				return fa == fb && (fa == mx || fa == -mx || fa == 1 || fa == -1) ? 2 : 1;
			};
			Target g = tgt(nm + ", neighbours", {{A_TAKUM, t}}, wt(t) * 0.5, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i;
				int r1 = a > nar + 1 ? pair(a - 1, a, why) : 2;
				if (!r1) return V(FAIL, 1);
				int r2 = a < mx ? pair(a, a + 1, why) : 2;
				if (!r2) return V(FAIL, 1);
				return V(r1 == 2 && r2 == 2 ? TRIVIAL : PASS);
			});
			g.exhaustive = true;
			g.boundary = true;
			g.op = opn(t, m.f);
			p.targets.push_back(g);
			if (n < 32) continue; // neighbours decide it
			Target h = tgt(nm + ", pairs", {{A_TAKUM, t}, {A_TAKUM, t}}, wt(t) * 0.5, [=](const Case &c, std::string *why) {
				int r = pair(c.a[0].i, c.a[1].i, why);
				return V(r == 0 ? FAIL : r == 1 ? PASS : TRIVIAL, r == 0);
			});
			h.gen = [=](Rng &r, Case &c) {
				c = Case{};
				int64_t a = gen_takum(r, t, nullptr);
				for (int k = 0; k < 6 && a != 0; k++) { // into the interval
					Dec d = tk_decode(t, a);
					if (d.k == R_NUM && d.x >= mm.lo && d.x <= mm.hi) break;
					if (d.k == R_NUM && fabsq(mm.hi) < 10 && r.one_in(2)) a = enc(t, mm.lo > -INF_ && mm.hi < INF_ ? mm.lo + (mm.hi - mm.lo) * (quad)(r.next() >> 1) * 0x1p-63Q : 1);
					else a = gen_takum(r, t, nullptr);
				}
				int64_t d = (int64_t)(r.next() >> (64 - (int)r.range(1, n - 6)));
				c.a[0].i = a;
				c.a[1].i = r.one_in(6) ? gen_takum(r, t, nullptr) : tk_wrap(n, (uint64_t)a + (uint64_t)(r.one_in(2) ? -d : d));
			};
			p.targets.push_back(h);
		}
		for (auto &b : BOUND) {
			Op o = *opn(t, b.f);
			Bound bb = b;
			int64_t lim = bb.k >= LE && bb.v != 0 ? enc(t, bb.v) : 0;
			static const char *KN[] = {"|f(x)| <= |x|", "|f(x)| >= |x|", "f(x) <= ", "f(x) >= ", "|f(x)| <= ", "|f(x)| >= "};
			std::string nm = o.name + ": " + KN[b.k] + (b.k >= LE ? qstr(b.v) : "");
			Target g = tgt(nm, {{A_TAKUM, t}}, wt(t) * 0.25, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i;
				if (a == nar) return V(TRIVIAL);
				int64_t f = tk_call_un(o, a);
				if (f == nar) return V(TRIVIAL);
				quad F = f, A = fabsq(F), X = fabsq((quad)a), s = TYPES[t].n >= 32 && !(bb.k >= LE && bb.v == 0) ? 1 : 0;
				if (bb.v == 1 && TYPES[t].n == 32) s = 0;
				bool ok = bb.k == LE_ABS ? A <= X + s : bb.k == GE_ABS ? A >= X - s : bb.k == LE ? F <= (quad)lim + s : bb.k == GE ? F >= (quad)lim - s : bb.k == ABS_LE ? A <= (quad)lim + s : A >= (quad)lim - s;
				bool strict = bb.k == LE_ABS ? A <= X : bb.k == GE_ABS ? A >= X : bb.k == LE ? F <= (quad)lim : bb.k == GE ? F >= (quad)lim : bb.k == ABS_LE ? A <= (quad)lim : A >= (quad)lim;
				if (ok && !strict) ok = tk_correct(o, a, 0, nullptr);
				if (ok) return V(a == 0 ? TRIVIAL : PASS);
				if (why) *why = "f(x) = " + hx(f) + " for x = " + hx(a) + ", bound " + hx(bb.k >= LE ? lim : a);
				return V(FAIL, 1);
			});
			g.exhaustive = true;
			g.boundary = true;
			g.op = opn(t, b.f);
			p.targets.push_back(g);
		}
		// binary operations, in one argument with the other fixed
		auto tri = [&](const char *what, const Op &o, bool first, std::function<int(int64_t, int64_t, int64_t, int64_t &, int64_t &)> f) {
			// f(a<b, c): -1 nothing claimed, else 1: results must be fa <= fb
			std::string nm = std::string(TYPES[t].name) + ": " + what;
			bool single = what[0] == '|' || strstr(what, ">= max"); // b plays no part
			Target g = tgt(nm, {{A_TAKUM, t}, {A_TAKUM, t}, {A_TAKUM, t}}, wt(t) * 3, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, b = c.a[1].i, z = c.a[2].i, fa = 0, fb = 0;
				if (a == nar || b == nar || z == nar || a == b) return V(TRIVIAL);
				if (a > b) std::swap(a, b);
				if (f(a, b, z, fa, fb) < 0) return V(TRIVIAL);
				if (fa == nar || fb == nar) return V(TRIVIAL);
				if (fa <= fb || ((quad)fa <= (quad)fb + slack(t) && (first ? slackok(o, a, z) && (single || slackok(o, b, z)) : slackok(o, z, a) && slackok(o, z, b)))) return V(fa == fb && (fa == mx || fa == -mx || fa == 1 || fa == -1) ? TRIVIAL : PASS);
				if (why) *why = "results " + hx(fa) + " and " + hx(fb) + " are in the wrong order";
				return V(FAIL, 1);
			});
			g.gen = [=](Rng &r, Case &c) {
				c = Case{};
				gen_pair(r, opn(t, "addition"), t, c.a[0].i, c.a[2].i, nullptr);
				int64_t d = (int64_t)(r.next() >> (64 - (int)r.range(1, n - 3)));
				c.a[1].i = r.one_in(6) ? gen_takum(r, t, nullptr) : tk_wrap(n, (uint64_t)c.a[0].i + (uint64_t)(r.one_in(2) ? -d : d));
				if (r.one_in(4)) { // same sign
					for (int k = 0; k < 3; k++) if (c.a[k].i < 0) c.a[k].i = tk_neg(n, c.a[k].i);
				}
			};
			p.targets.push_back(g);
		};
		Op add = *opn(t, "addition"), sub = *opn(t, "subtraction"), mul = *opn(t, "multiplication"), dv = *opn(t, "division"), hyp = *opn(t, "hypotenuse"), pw = *opn(t, "power"), at = *opn(t, "arctan2"), atp = *opn(t, "arctan2_over_pi");
		tri("a+c increases in a", add, true, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { fa = tk_call_bin(add, a, z); fb = tk_call_bin(add, b, z); return 1; });
		tri("c+a increases in a", add, false, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { fa = tk_call_bin(add, z, a); fb = tk_call_bin(add, z, b); return 1; });
		tri("a-c increases in a", sub, true, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { fa = tk_call_bin(sub, a, z); fb = tk_call_bin(sub, b, z); return 1; });
		tri("c-a decreases in a", sub, false, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { fb = tk_call_bin(sub, z, a); fa = tk_call_bin(sub, z, b); return 1; });
		tri("a*c is monotone in a", mul, true, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { fa = tk_call_bin(mul, a, z); fb = tk_call_bin(mul, b, z); if (z < 0) std::swap(fa, fb); return 1; });
		tri("a/c is monotone in a", dv, true, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { if (z == 0) return -1; fa = tk_call_bin(dv, a, z); fb = tk_call_bin(dv, b, z); if (z < 0) std::swap(fa, fb); return 1; });
		tri("c/a is monotone in a", dv, false, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { if (a == 0 || b == 0 || (a < 0) != (b < 0)) return -1; fb = tk_call_bin(dv, z, a); fa = tk_call_bin(dv, z, b); if (z < 0) std::swap(fa, fb); return 1; });
		tri("hypot(a,c) increases in |a|", hyp, true, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { if (a < 0) { if (b > 0) return -1; fb = tk_call_bin(hyp, a, z); fa = tk_call_bin(hyp, b, z); } else { fa = tk_call_bin(hyp, a, z); fb = tk_call_bin(hyp, b, z); } return 1; });
		tri("hypot(a,c) >= max(|a|,|c|)", hyp, true, [=](int64_t a, int64_t, int64_t z, int64_t &fa, int64_t &fb) { fa = std::max(std::abs(a), std::abs(z)); fb = tk_call_bin(hyp, a, z); return 1; });
		tri("power(a,c) is monotone in a > 0", pw, true, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { if (a <= 0) return -1; fa = tk_call_bin(pw, a, z); fb = tk_call_bin(pw, b, z); if (z < 0) std::swap(fa, fb); return 1; });
		tri("power(c,a) is monotone in a", pw, false, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { if (z <= 0) return -1; fa = tk_call_bin(pw, z, a); fb = tk_call_bin(pw, z, b); if (z < tk_one(n)) std::swap(fa, fb); return 1; });
		for (int w = 0; w < 2; w++) {
			Op o = w ? atp : at;
			int64_t lim = enc(t, w ? (quad)1 : M_PIq);
			tri(w ? "arctan2_over_pi(a,c) is monotone in a, c != 0" : "arctan2(a,c) is monotone in a, c != 0", o, true, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { if (z == 0 || (z < 0 && a <= 0 && b >= 0)) return -1; fa = tk_call_bin(o, a, z); fb = tk_call_bin(o, b, z); if (z < 0) std::swap(fa, fb); return 1; });
			tri(w ? "arctan2_over_pi(c,a) is monotone in a, c != 0" : "arctan2(c,a) is monotone in a, c != 0", o, false, [=](int64_t a, int64_t b, int64_t z, int64_t &fa, int64_t &fb) { if (z == 0) return -1; fa = tk_call_bin(o, z, a); fb = tk_call_bin(o, z, b); if (z > 0) std::swap(fa, fb); return 1; });
			tri(w ? "|arctan2_over_pi| <= 1" : "|arctan2| <= pi", o, true, [=](int64_t a, int64_t, int64_t z, int64_t &fa, int64_t &fb) { int64_t v = tk_call_bin(o, a, z); fa = v < 0 && v != nar ? -v : v; fb = lim; return 1; });
		}
		Op ip = *opn(t, "integer_power"), rt = *opn(t, "root");
		for (int w = 0; w < 2; w++) {
			Op o = w ? rt : ip;
			std::string nm = o.name + ": monotone in a > 0";
			Target g = tgt(nm, {{A_TAKUM, t}, {A_TAKUM, t}, {A_INT, t}}, wt(t) * 3, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, b = c.a[1].i, k = c.a[2].i;
				if (a <= 0 || b <= 0 || a == b || k == 0) return V(TRIVIAL);
				if (a > b) std::swap(a, b);
				int64_t fa = tk_call_int(o, a, k), fb = tk_call_int(o, b, k);
				if (k < 0) std::swap(fa, fb);
				if (fa != nar && fb != nar && (fa <= fb || ((quad)fa <= (quad)fb + slack(t) && slackok(o, a, k) && slackok(o, b, k)))) return V(fa == fb && (fa == mx || fa == 1) ? TRIVIAL : PASS);
				if (why) *why = "results " + hx(fa) + " and " + hx(fb) + " are in the wrong order";
				return V(FAIL, 1);
			});
			g.gen = [=](Rng &r, Case &c) {
				c = Case{};
				Target tt;
				tt.args = {{A_TAKUM, t}, {A_INT, t}};
				tt.op = opn(t, w ? "root" : "integer_power");
				gen_default(r, tt, c);
				c.a[2].i = c.a[1].i;
				if (c.a[0].i < 0) c.a[0].i = tk_neg(n, c.a[0].i);
				int64_t d = (int64_t)(r.next() >> (64 - (int)r.range(1, n - 3)));
				c.a[1].i = r.one_in(6) ? gen_takum(r, t, nullptr) : tk_wrap(n, (uint64_t)c.a[0].i + (uint64_t)(r.one_in(2) ? -d : d));
			};
			p.targets.push_back(g);
			// in the exponent / degree, for a > 1 and 0 < a < 1
			std::string nm2 = o.name + ": monotone in n";
			Target h = tgt(nm2, {{A_TAKUM, t}, {A_INT, t}}, wt(t) * 3, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, k = c.a[1].i;
				if (a <= 0 || k == INT64_MAX || (w && (k == 0 || k == -1))) return V(TRIVIAL);
				int64_t fa = tk_call_int(o, a, k), fb = tk_call_int(o, a, k + 1);
				if ((a > tk_one(n)) == (w == 1)) std::swap(fa, fb);
				if (fa != nar && fb != nar && (fa <= fb || ((quad)fa <= (quad)fb + slack(t) && slackok(o, a, k) && slackok(o, a, k + 1)))) return V(fa == fb && (fa == mx || fa == 1) ? TRIVIAL : PASS);
				if (why) *why = "results for n and n+1, " + hx(fa) + " and " + hx(fb) + ", are in the wrong order";
				return V(FAIL, 1);
			});
			h.op = opn(t, w ? "root" : "integer_power");
			p.targets.push_back(h);
		}
	}
	PR.push_back(p);
}
// ------------------------------------------------------------------ C26
static bool near_tie(int t, quad x)
{
	quad q = tk_pos(t, rnum(x)), f = q - floorq(q);
	return fabsq(f - 0.5Q) < 0.002Q;
}
static void build_c26(std::vector<Property> &PR)
{
	Property p;
	p.id = "C26"; p.quick = 40; p.thorough = 800;
	p.rule = "Generated arguments (8 and 16 bits enumerated) put through two ways of computing the same thing; non-trivial: no argument is NaR or 0.";
	static const char *FN[3] = {"float32", "float64", "extended_float"};
	for (int t = 0; t < 8; t++) {
		int n = TYPES[t].n;
		bool lin = TYPES[t].lin;
		const int64_t nar = tk_nar(n), one = tk_one(n);
		auto O = [t](const char *b) { return *opn(t, b); };
		// given an operation of which both are results: two 32-bit results may differ only next to a tie
		auto eq = [=](int64_t x, int64_t y, int64_t tol, bool triv, std::string *why, const Op *of = nullptr, int64_t a = 0, int64_t b = 0) {
			bool ok = x == y || (x != nar && y != nar && x != 0 && y != 0 && (x < 0) == (y < 0) && dabs(x, y) <= (quad)tol);
			if (ok && x != y && of && n == 32) ok = tk_correct(*of, a, b, &x) && tk_correct(*of, a, b, &y);
			if (ok) return V(triv ? TRIVIAL : PASS, (double)dabs(x, y));
			if (why) *why = "one way gives " + hx(x) + ", the other " + hx(y);
			return V(FAIL, x == nar || y == nar ? 1e9 : (double)dabs(x, y));
		};
		typedef std::pair<int64_t, int64_t> P;
		auto un = [&](const std::string &nm, int64_t tol, const char *bop, std::function<P(int64_t)> f, std::function<bool(int64_t)> skip = nullptr) {
			const Op *of = bop && tol == 1 ? opn(t, bop) : nullptr;
			if (of && of->kind == K_BIN && of->base != "multiplication") of = nullptr;
			Target g = tgt(std::string(TYPES[t].name) + ": " + nm, {{A_TAKUM, t}}, wt(t), [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i;
				if (skip && skip(a)) return V(TRIVIAL);
				P q = f(a);
				return eq(q.first, q.second, tol, a == 0 || a == nar, why, of, a, a);
			});
			g.exhaustive = true;
			if (bop) { g.op = opn(t, bop); g.boundary = g.op->kind == K_UN; }
			p.targets.push_back(g);
		};
		auto bin = [&](const std::string &nm, int64_t tol, const char *bop, std::function<P(int64_t, int64_t)> f, std::function<bool(int64_t, int64_t)> skip = nullptr) {
			Target g = tgt(std::string(TYPES[t].name) + ": " + nm, {{A_TAKUM, t}, {A_TAKUM, t}}, wt(t) * 2, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, b = c.a[1].i;
				if (skip && skip(a, b)) return V(TRIVIAL);
				P q = f(a, b);
				return eq(q.first, q.second, tol, a == 0 || a == nar || b == 0 || b == nar, why, opn(t, bop), a, b);
			});
			g.exhaustive = true;
			g.op = opn(t, bop);
			p.targets.push_back(g);
		};
		Op add = O("addition"), sub = O("subtraction"), mul = O("multiplication"), dv = O("division"), inv = O("inversion"), hyp = O("hypotenuse"), pw = O("power"), ip = O("integer_power"), rt = O("root"), sq = O("square_root"), ab = O("absolute"), sg = O("sign");
		auto neg = [n](int64_t a) { return tk_neg(n, a); };
		auto isz = [nar](int64_t a) { return a == 0 || a == nar; };
		auto isn = [nar](int64_t a) { return a == nar; };
		// neutral elements and inverses: exact
		un("x+0 = x", 0, "addition", [=](int64_t a) { return P(tk_call_bin(add, a, 0), a); });
		un("0+x = x", 0, "addition", [=](int64_t a) { return P(tk_call_bin(add, 0, a), a); });
		un("x-0 = x", 0, "subtraction", [=](int64_t a) { return P(tk_call_bin(sub, a, 0), a); });
		un("0-x = -x", 0, "subtraction", [=](int64_t a) { return P(tk_call_bin(sub, 0, a), neg(a)); });
		un("x-x = 0", 0, "subtraction", [=](int64_t a) { return P(tk_call_bin(sub, a, a), a == nar ? nar : 0); });
		un("x+(-x) = 0", 0, "addition", [=](int64_t a) { return P(tk_call_bin(add, a, neg(a)), a == nar ? nar : 0); });
		un("x*1 = x", 0, "multiplication", [=](int64_t a) { return P(tk_call_bin(mul, a, one), a); });
		un("1*x = x", 0, "multiplication", [=](int64_t a) { return P(tk_call_bin(mul, one, a), a); });
		un("x*(-1) = -x", 0, "multiplication", [=](int64_t a) { return P(tk_call_bin(mul, a, -one), neg(a)); });
		un("x*0 = 0", 0, "multiplication", [=](int64_t a) { return P(tk_call_bin(mul, a, 0), a == nar ? nar : 0); });
		un("x/1 = x", 0, "division", [=](int64_t a) { return P(tk_call_bin(dv, a, one), a); });
		un("x/(-1) = -x", 0, "division", [=](int64_t a) { return P(tk_call_bin(dv, a, -one), neg(a)); });
		un("x/x = 1", 0, "division", [=](int64_t a) { return P(tk_call_bin(dv, a, a), isz(a) ? nar : one); });
		un("x/(-x) = -1", 0, "division", [=](int64_t a) { return P(tk_call_bin(dv, a, neg(a)), isz(a) ? nar : -one); });
		un("1/x = inversion", slack(t), "inversion", [=](int64_t a) { return P(tk_call_bin(dv, one, a), tk_call_un(inv, a)); });
		un("integer_power(x,1) = x", 0, nullptr, [=](int64_t a) { return P(tk_call_int(ip, a, 1), a); });
		un("integer_power(x,0) = 1", 0, nullptr, [=](int64_t a) { return P(tk_call_int(ip, a, 0), isz(a) ? nar : one); });
		un("integer_power(x,-1) = inversion", slack(t), "inversion", [=](int64_t a) { return P(tk_call_int(ip, a, -1), tk_call_un(inv, a)); });
		un("integer_power(x,2) = x*x", slack(t), "multiplication", [=](int64_t a) { return P(tk_call_int(ip, a, 2), tk_call_bin(mul, a, a)); });
		un("power(x,1) = x", 0, nullptr, [=](int64_t a) { return P(tk_call_bin(pw, a, one), a); });
		un("power(x,-1) = inversion", slack(t), "inversion", [=](int64_t a) { return P(tk_call_bin(pw, a, -one), tk_call_un(inv, a)); });
		un("root(x,1) = x", 0, nullptr, [=](int64_t a) { return P(tk_call_int(rt, a, 1), a); });
		un("root(x,-1) = inversion", slack(t), "inversion", [=](int64_t a) { return P(tk_call_int(rt, a, -1), tk_call_un(inv, a)); });
		un("root(x,2) = square_root", slack(t), "square_root", [=](int64_t a) { return P(tk_call_int(rt, a, 2), tk_call_un(sq, a)); });
		un("hypotenuse(x,0) = |x|", 0, "absolute", [=](int64_t a) { return P(tk_call_bin(hyp, a, 0), tk_call_un(ab, a)); });
		un("hypotenuse(0,x) = |x|", 0, "absolute", [=](int64_t a) { return P(tk_call_bin(hyp, 0, a), tk_call_un(ab, a)); });
		un("sign*absolute = x", 0, "absolute", [=](int64_t a) { return P(tk_call_bin(mul, tk_call_un(sg, a), tk_call_un(ab, a)), a); });
		un("x/|x| = sign", 0, "sign", [=](int64_t a) { return P(tk_call_bin(dv, a, tk_call_un(ab, a)), tk_call_un(sg, a)); }, [=](int64_t a) { return a == 0; });
		// square_root undoes the square where no bit is lost: the square root of x*x when x*x is exact
		un("arctan2(x,1) = arctan", slack(t), "arctan", [=](int64_t a) { return P(tk_call_bin(O("arctan2"), a, one), tk_call_un(O("arctan"), a)); });
		un("arctan2_over_pi(x,1) = arctan_over_pi", slack(t), "arctan_over_pi", [=](int64_t a) { return P(tk_call_bin(O("arctan2_over_pi"), a, one), tk_call_un(O("arctan_over_pi"), a)); });
		un("arctan2(1,x) = arccot", slack(t), "arccot", [=](int64_t a) { return P(tk_call_bin(O("arctan2"), one, a), tk_call_un(O("arccot"), a)); });
		un("arctan2_over_pi(1,x) = arccot_over_pi", slack(t), "arccot_over_pi", [=](int64_t a) { return P(tk_call_bin(O("arctan2_over_pi"), one, a), tk_call_un(O("arccot_over_pi"), a)); });
		un("arccot(x) = arctan(1/x), x a power of the base", slack(t), "arccot", [=](int64_t a) { return P(tk_call_un(O("arccot"), a), tk_call_un(O("arctan"), tk_call_un(inv, a))); }, [=](int64_t a) { return a <= 0 || (lin && tk_call_un(inv, tk_call_un(inv, a)) != a) || (lin && tk_decode(t, a).m != 0); });
		if (lin) {
			int64_t two = enc(t, 2), ten = enc(t, 10), half = enc(t, 0.5Q);
			un("power(2,x) = 2_raised", slack(t), "2_raised", [=](int64_t a) { return P(tk_call_bin(pw, two, a), tk_call_un(O("2_raised"), a)); });
			if (n > 8) un("power(10,x) = 10_raised", slack(t), "10_raised", [=](int64_t a) { return P(tk_call_bin(pw, ten, a), tk_call_un(O("10_raised"), a)); });
			un("power(x,1/2) = square_root", slack(t), "square_root", [=](int64_t a) { return P(tk_call_bin(pw, a, half), tk_call_un(sq, a)); });
			un("x+x = 2*x", n == 64 ? 1 : 0, "addition", [=](int64_t a) { return P(tk_call_bin(add, a, a), tk_call_bin(mul, two, a)); });
			un("x/2 = x*(1/2)", n == 64 ? 1 : 0, "division", [=](int64_t a) { return P(tk_call_bin(dv, a, two), tk_call_bin(mul, a, half)); });
		}
		// the reciprocal functions; the reciprocal of a logarithmic takum is exact
		static const char *REC[][2] = {{"csc", "sin"}, {"sec", "cos"}, {"cot", "tan"}, {"csch", "sinh"}, {"sech", "cosh"}, {"coth", "tanh"}, {"csc_pi_times", "sin_pi_times"}, {"sec_pi_times", "cos_pi_times"}, {"cot_pi_times", "tan_pi_times"}};
		for (auto &q : REC) {
			Op x = O(q[0]), y = O(q[1]);
			bool pit = strstr(q[0], "_pi_times");
			int64_t tol = (lin ? 2 : 0) + slack(t);
			un(std::string(q[0]) + " = inversion of " + q[1], tol, q[0], [=](int64_t a) { int64_t v = tk_call_un(y, a); return P(tk_call_un(x, a), v == 0 && !pit ? nar : tk_call_un(inv, v)); }, [=](int64_t a) {
				if (a == nar) return false;
				if (tk_call_un(y, a) == 0 || tk_call_un(x, a) == 0 || tk_call_un(x, a) == nar) { if (pit) return true; } // poles and zeros: C15, C18
				if (!pit) return false;
				Dec d = tk_decode(t, a);
				return d.k == R_NUM && (2 * d.x == rintq(2 * d.x) || fabsq(d.x) > 0x1p40Q || fabsq(2 * d.x - rintq(2 * d.x)) < 0x1p-50Q * fabsq(d.x));
			});
		}
		if (!lin) { // exact on the logarithms
			bin("a/b = a*(1/b)", 0, "division", [=](int64_t a, int64_t b) { return P(tk_call_bin(dv, a, b), tk_call_bin(mul, a, tk_call_un(inv, b))); });
			bin("a*b = a/(1/b)", 0, "multiplication", [=](int64_t a, int64_t b) { return P(tk_call_bin(mul, a, b), tk_call_bin(dv, a, tk_call_un(inv, b))); }, [=](int64_t, int64_t b) { return b == 0; });
			bin("a/b = 1/(b/a)", 0, "division", [=](int64_t a, int64_t b) { return P(tk_call_bin(dv, a, b), tk_call_un(inv, tk_call_bin(dv, b, a))); }, [=](int64_t a, int64_t b) { return a == 0 || b == 0; });
			bin("1/(a*b) = (1/a)*(1/b)", 0, "multiplication", [=](int64_t a, int64_t b) { return P(tk_call_un(inv, tk_call_bin(mul, a, b)), tk_call_bin(mul, tk_call_un(inv, a), tk_call_un(inv, b))); }, [=](int64_t a, int64_t b) { return a == 0 || b == 0; });
		} else {
			// products and quotients by powers of two change the exponent only
			bin("a+b = a-(-b)", 0, "addition", [=](int64_t a, int64_t b) { return P(tk_call_bin(add, a, b), tk_call_bin(sub, a, neg(b))); });
		}
		bin("hypotenuse(a,b) = hypotenuse(|a|,|b|)", slack(t), "hypotenuse", [=](int64_t a, int64_t b) { return P(tk_call_bin(hyp, a, b), tk_call_bin(hyp, tk_call_un(ab, a), tk_call_un(ab, b))); });
		bin("(a*b)*sign(b) = a*|b|", 0, "multiplication", [=](int64_t a, int64_t b) { return P(tk_call_bin(mul, tk_call_bin(mul, a, b), tk_call_un(sg, b)), tk_call_bin(mul, a, tk_call_un(ab, b))); });
		for (int w = 0; w < 2; w++) { // scale invariance of arctan2 by exact factors, quadrants
			Op o = w ? O("arctan2_over_pi") : O("arctan2");
			if (!lin) bin(std::string(w ? "arctan2_over_pi" : "arctan2") + "(a,a) is that of (1,1)", 0, "arctan2", [=](int64_t a, int64_t) { int64_t s = tk_call_un(sg, a); return P(tk_call_bin(o, a, a), tk_call_bin(o, s, s)); });
		}
		// integer powers and roots
		auto ints = [&](const std::string &nm, int64_t tol, const char *bop, std::function<P(int64_t, int64_t)> f, std::function<bool(int64_t, int64_t)> skip = nullptr) {
			const Op *of = nm == "integer_power(1/x,n) = 1/integer_power(x,n)" ? nullptr : opn(t, bop);
			Target g = tgt(std::string(TYPES[t].name) + ": " + nm, {{A_TAKUM, t}, {A_INT, t}}, wt(t) * 2, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, k = c.a[1].i;
				if (skip && skip(a, k)) return V(TRIVIAL);
				P q = f(a, k);
				return eq(q.first, q.second, tol, a == 0 || a == nar, why, tol ? of : nullptr, a, nm[nm.find(',') + 1] == '-' ? -k : k);
			});
			g.op = opn(t, bop);
			p.targets.push_back(g);
		};
		if (!lin) {
			ints("integer_power(x,-n) = 1/integer_power(x,n)", slack(t), "integer_power", [=](int64_t a, int64_t k) { return P(tk_call_int(ip, a, -k), tk_call_un(inv, tk_call_int(ip, a, k))); }, [=](int64_t a, int64_t k) { return a == 0 || k == INT64_MIN; });
			if (n < 64) ints("integer_power(1/x,n) = 1/integer_power(x,n)", slack(t), "integer_power", [=](int64_t a, int64_t k) { return P(tk_call_int(ip, tk_call_un(inv, a), k), tk_call_un(inv, tk_call_int(ip, a, k))); }, [=](int64_t a, int64_t) { return a == 0; });
			ints("root(x,-n) = 1/root(x,n)", slack(t), "root", [=](int64_t a, int64_t k) { return P(tk_call_int(rt, a, -k), tk_call_un(inv, tk_call_int(rt, a, k))); }, [=](int64_t a, int64_t k) { return a == 0 || k == INT64_MIN; });
		}
		ints("root(1,n) = 1, root(-1,odd n) = -1", 0, "root", [=](int64_t a, int64_t k) { int64_t s = a < 0 ? -one : one; return P(tk_call_int(rt, s, k), k == 0 || (s < 0 && k % 2 == 0) ? nar : s); });
		ints("integer_power(1,n) = 1, integer_power(-1,n) = (-1)^n", 0, "integer_power", [=](int64_t a, int64_t k) { int64_t s = a < 0 ? -one : one; return P(tk_call_int(ip, s, k), k % 2 ? s : one); });
		{ // power with an integral exponent is integer_power
			Target g = tgt(std::string(TYPES[t].name) + ": power(x,n) = integer_power(x,n)", {{A_TAKUM, t}, {A_INT, t}}, wt(t) * 2, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, k = c.a[1].i;
				if (k == 0 && isz(a)) return V(TRIVIAL); // KF-POWER
				int64_t e = enc(t, (quad)k);
				if (e == 0 && k != 0) return V(TRIVIAL);
				Dec d = tk_decode(t, e);
				if (k != 0 && (d.k != R_NUM || d.x != (quad)k)) return V(TRIVIAL); // not a takum
				if (k == 0) e = 0;
				int64_t tol = slack(t) + (n == 64);
				return eq(tk_call_bin(pw, a, e), tk_call_int(ip, a, k), tol, isz(a), why, opn(t, "integer_power"), a, k);
			});
			g.gen = [=](Rng &r, Case &c) {
				Target tt;
				tt.args = {{A_TAKUM, t}, {A_INT, t}};
				tt.op = opn(t, "integer_power");
				gen_default(r, tt, c);
				if (lin) { Dec d = tk_decode(t, enc(t, (quad)c.a[1].i)); if (d.k == R_NUM && d.x == rintq(d.x) && fabsq(d.x) < 9e18Q) c.a[1].i = (int64_t)d.x; }
				else if (r.one_in(2)) c.a[1].i = r.range(-1, 1);
			};
			if (lin) p.targets.push_back(g);
		}
		// conversions through different routes
		for (int k = 0; k < 2; k++) for (int j = k + 1; j < 3; j++) {
			Op x = O((std::string("from_") + FN[k]).c_str()), y = O((std::string("from_") + FN[j]).c_str());
			int64_t tol = n == 64 && (!lin || j == 2) ? 1 : 0;
			p.targets.push_back(tgt(x.name + " = from_" + FN[j], {{A_FLOAT, k}}, wt(t), [=](const Case &c, std::string *why) {
				ldbl f = c.a[0].f;
				// next to a tie the two intermediate formats may decide differently
				int64_t tl = tol || !std::isfinite(f) || f == 0 || !near_tie(t, (quad)f) ? tol : 1;
				return eq(tk_call_fromf(x, f), tk_call_fromf(y, f), tl, !std::isfinite(f) || f == 0, why);
			}));
		}
		for (int s = 0; s < 8; s++) {
			if (s == t) continue;
			const Op *cv = tk_find(std::string(TYPES[t].name) + "_from_" + TYPES[s].name);
			Op c1 = *cv, te = *opn(s, "to_extended_float"), fe = O("from_extended_float");
			if (TYPES[s].n < 64) {
				// the value of a narrow takum fits an extended float well enough
				int64_t tol = n == 64;
				Target g = tgt(c1.name + " = through extended", {{A_TAKUM, s}}, wt(s) * 0.5, [=](const Case &c, std::string *why) {
					int64_t a = c.a[0].i;
					int64_t x = tk_call_conv(c1, a), y = tk_call_fromf(fe, tk_call_tof(te, a));
					bool sp = a == 0 || a == tk_nar(TYPES[s].n);
					int64_t tl = tol || sp || !near_tie(t, tk_decode(s, a).x) ? tol : 1;
					return eq(x, y, tl, sp, why);
				});
				g.exhaustive = true;
				p.targets.push_back(g);
			}
			// through a wider type of the source's family
			for (int w = s + 1; w < (s & 4) + 4; w++) {
				const Op *d2 = tk_find(std::string(TYPES[t].name) + "_from_" + TYPES[w].name);
				const Op *up = tk_find(std::string(TYPES[w].name) + "_from_" + TYPES[s].name);
				if (!d2 || !up) continue; // identity
				Op D = *d2, U = *up;
				bool same = TYPES[s].lin == TYPES[t].lin;
				Target g = tgt(c1.name + " = through " + TYPES[w].name, {{A_TAKUM, s}}, wt(s) * 0.3, [=](const Case &c, std::string *why) {
					int64_t a = c.a[0].i;
					return eq(tk_call_conv(c1, a), tk_call_conv(D, tk_call_conv(U, a)), same || (n == 32 && !near_tie(t, tk_decode(s, a).x)) ? 0 : slack(t), a == 0 || a == tk_nar(TYPES[s].n), why);
				});
				g.exhaustive = true;
				p.targets.push_back(g);
			}
		}
	}
	PR.push_back(p);
}
void build_properties3()
{
	build_c22(properties());
	build_c26(properties());
}
