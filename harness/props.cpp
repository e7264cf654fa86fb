// The properties: for every target an executable oracle.
#include "engine.h"
#include <quadmath.h>
#include <cfloat>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <set>

static std::vector<Property> PROPS;
std::vector<Property> &properties() { return PROPS; }

// error bounds in units of the last place of the result
static const double M_NARROW = 0.501;  // 8, 16 and 32 bits
static const double M64 = 0.75;        // 64 bits: conversions, + - * /, roots
static const double M64T = 0.90;       // 64 bits: transcendental functions
static quad EPS64 = 0x1p-64Q;          // half an ulp of 80-bit extended precision (see tk_judge)

static double margin(int type, bool trans) { return TYPES[type].n < 64 ? M_NARROW : trans ? M64T : M64; }
static inline Verdict V(Res r, double e = 0) { return {r, -1, e}; }
static Verdict KF(const char *id) { return {KNOWN, known_index(id), 0}; }

// ------------------------------------------------------ the set of allowed results
struct Allow {
	bool any = false;           // nothing is claimed about the value
	bool range = false; quad rlo, rhi; bool norange_nar = false; // any, but within [rlo,rhi] and not NaR
	bool nar = false, zero = false, num = false;
	quad lo = 0, hi = 0;
	bool outer = false; quad omin = 0; // |T| >= omin, either sign
	void add(quad p)
	{
		if (!num) { num = true; lo = hi = p; }
		else { if (p < lo) lo = p; if (p > hi) hi = p; }
	}
	void add(int type, const Real &r)
	{
		if (r.k == R_NAR) nar = true;
		else if (r.k == R_ZERO) { zero = true; add(0); }
		else add(tk_pos(type, r));
	}
};
static std::string allow_str(const Allow &A, double m)
{
	char b[200];
	std::string s = "allowed:";
	if (A.any) s += " any";
	if (A.range) s += " any within [-1,1]";
	if (A.nar) s += " NaR";
	if (A.zero) s += " 0";
	if (A.num && !(A.zero && A.lo == 0 && A.hi == 0)) {
		snprintf(b, sizeof b, " true position [%s, %s] within %g ulp", qstr(A.lo).c_str(), qstr(A.hi).c_str(), m);
		s += b;
	}
	if (A.outer) s += " or |t| >= " + qstr(A.omin);
	return s;
}
// error of result t with respect to the set (0: inside; 1e9: wrong kind)
static double dist(int type, int64_t t, const Allow &A)
{
	int n = TYPES[type].n;
	if (A.any) return 0;
	if (A.range) return t == tk_nar(n) || t > tk_one(n) || t < -tk_one(n) ? 1e9 : 0;
	if (t == tk_nar(n)) return A.nar ? 0 : 1e9;
	if (t == 0) return A.zero || (A.num && A.lo <= 0 && A.hi >= 0) ? 0 : 1e9;
	double e = 1e9;
	if (A.num && !(A.lo == 0 && A.hi == 0)) {
		quad d = (quad)t < A.lo ? A.lo - t : (quad)t > A.hi ? t - A.hi : 0;
		e = (double)d;
	}
	if (A.outer) {
		quad d = A.omin - fabsq((quad)t);
		double o = d > 0 ? (double)d : 0;
		if (o < e) e = o;
	}
	return e;
}
static Verdict judge(int type, int64_t t, const Allow &A, double m, bool trivial, std::string *why)
{
	double e = dist(type, t, A);
	if (e <= m) return V(trivial ? TRIVIAL : PASS, e);
	if (why) {
		char b[64];
		snprintf(b, sizeof b, "got %lld (0x%llx)", (long long)t, (unsigned long long)t & (TYPES[type].n == 64 ? ~0ull : (1ull << TYPES[type].n) - 1));
		Dec d = tk_decode(type, t);
		*why = std::string(b) + (d.k == R_NAR ? " = NaR" : " = " + qstr(d.x)) + "; " + allow_str(A, m);
	}
	return V(FAIL, e);
}
// is NaR / not NaR right?
static bool kind_ok(int type, int64_t t, const Allow &A)
{
	if (A.any) return true;
	if (t == tk_nar(TYPES[type].n)) return A.nar;
	return A.zero || A.num || A.outer || A.range;
}
static Verdict judge_kind(int type, int64_t t, const Allow &A, bool triv, std::string *why)
{
	if (kind_ok(type, t, A)) return V(triv ? TRIVIAL : PASS);
	if (why) *why = t == tk_nar(TYPES[type].n) ? "got NaR for a defined result" : "got " + std::to_string(t) + " where the result is undefined (NaR)";
	return V(FAIL, 1e9);
}
static bool saturated(int type, const Real &r)
{
	if (r.k != R_NUM) return true;
	quad p = fabsq(tk_pos(type, r));
	return p <= 1 || p >= (quad)tk_max(TYPES[type].n);
}

// ------------------------------------------------- argument boxes (backward error)
// The documented internal precision: values of logarithmic takums are irrational
// and are held in extended precision, relative error (|l|+2) * 2^-64 * 2.
static const std::set<std::string> LIN64_BOX = {"arccsc", "arccsc_over_pi", "arcsec", "arcsec_over_pi", "arsech"};
static quad delta(int type, const std::string &base, int cls, const Dec &d)
{
	if (d.k != R_NUM) return 0;
	if (!TYPES[type].lin) return d.l == 0 ? 0 : 2 * (fabsq(d.l) + 2) * EPS64;
	if (TYPES[type].n == 64 || EPS64 > 0x1p-60Q) {
		if (LIN64_BOX.count(base)) return fabsq(d.x) == 1 ? 0 : 4 * EPS64;
		if (cls == 2) return 2 * d.x == rintq(2 * d.x) ? 0 : 4 * EPS64;
	}
	return 0;
}
static Allow allow_un(int type, const std::string &base, const UnFn *u, const Dec &d, quad dl)
{
	Allow A;
	if (d.k == R_NAR) { A.nar = true; return A; }
	Real r0 = u->f(d.x);
	if (dl <= 0 || d.k == R_ZERO) { A.add(type, r0); return A; }
	if (u->cls && dl * fabsq(d.x) > 0.01Q) {
		if (u->bounded) A.range = true; else A.any = true;
		return A;
	}
	quad x1 = d.x * (1 - dl), x2 = d.x * (1 + dl);
	if (x1 > x2) std::swap(x1, x2);
	A.add(type, r0);
	if (!u->cls) {
		Real r1 = u->f(x1), r2 = u->f(x2);
		if (r1.k == R_NUM) A.add(type, r1);
		if (r2.k == R_NUM) A.add(type, r2);
		return A;
	}
	// periodic: critical points at multiples of a quarter period
	quad q = u->cls == 1 ? M_PIq / 2 : 0.5Q;
	quad k1 = floorq(x1 / q), k2 = floorq(x2 / q);
	Real r1 = u->f(x1), r2 = u->f(x2);
	bool crosses = k1 != k2 || (u->cls == 2 && x1 == k1 * q);
	if (!crosses) {
		if (r1.k == R_NUM) A.add(type, r1);
		if (r2.k == R_NUM) A.add(type, r2);
		return A;
	}
	bool odd = fmodq(fabsq(k2), 2) == 1;
	std::string f = base.substr(0, 3);
	bool pole = (odd && (f == "tan" || f == "sec")) || (!odd && (f == "cot" || f == "csc"));
	if (pole) {
		if (u->cls == 2) A.nar = true;
		quad p = -1;
		for (const Real *r : {&r0, &r1, &r2}) if (r->k == R_NUM) { quad a = fabsq(tk_pos(type, *r)); if (p < 0 || a < p) p = a; }
		A.outer = true;
		A.omin = p < 0 ? 0 : p;
		A.num = false;
		return A;
	}
	if (r1.k == R_NUM) A.add(type, r1);
	if (r2.k == R_NUM) A.add(type, r2);
	if ((odd && (f == "sin" || f == "csc")) || (!odd && (f == "cos" || f == "sec"))) {
		A.add(type, rnum(A.hi > 0 ? 1 : -1));
	} else {
		A.zero = true;
		A.add(0);
	}
	return A;
}
static bool is_half_multiple(quad x) { return 2 * x == rintq(2 * x); }

static Allow allow_minus1(int type, const UnFn *u, const Dec &d) // KF-MINUS1: absolute error only
{
	Allow A;
	quad e = TYPES[type].lin && TYPES[type].n < 64 ? 0x1p-51Q : 8 * EPS64;
	Real r = u->f(d.x);
	quad v = r.k == R_NUM ? r.v : 0;
	for (int k = -1; k <= 1; k++) A.add(type, rnum(v + k * e));
	if (fabsq(v) <= e) { A.zero = true; A.add(0); }
	return A;
}
// a result to judge instead of calling the library
static const int64_t *GIVEN = nullptr;
static const ldbl *GIVENF = nullptr;
static Verdict check_un(const Op &op, const UnFn *u, bool trans, bool only_kind, const Case &c, std::string *why)
{
	int type = op.t, n = TYPES[type].n;
	int64_t a = c.a[0].i, t = GIVEN ? *GIVEN : tk_call_un(op, a);
	Dec d = tk_decode(type, a);
	double m = margin(type, trans);
	quad dl = delta(type, op.base, u->cls, d);
	Allow A = allow_un(type, op.base, u, d, 0);
	bool triv = d.k != R_NUM || A.nar || A.zero;
	if (!triv && (fabsq(A.lo) <= 1 || fabsq(A.lo) >= (quad)tk_max(n))) triv = true;
	if (only_kind) { // NaR-ness only
		triv = d.k == R_NAR;
		if (dl > 0) A = allow_un(type, op.base, u, d, dl);
	}
	Verdict v = only_kind ? judge_kind(type, t, A, triv, why) : judge(type, t, A, m, triv, dl > 0 ? nullptr : why);
	if (v.res != FAIL) return v;
	if (dl > 0 && !only_kind) {
		A = allow_un(type, op.base, u, d, dl);
		v = judge(type, t, A, m, triv, why);
		if (v.res != FAIL) return v;
	}
	// known findings
	if (d.k != R_NUM) return v;
	if (op.base.size() > 6 && op.base.compare(op.base.size() - 8, 8, "_minus_1") == 0 && op.base != "exp_minus_1" && known_enabled("KF-MINUS1") && fabsq(d.x) < 1) {
		if (dist(type, t, allow_minus1(type, u, d)) <= m) return KF("KF-MINUS1");
	}
	if (u->cls == 2 && d.x < 0 && is_half_multiple(d.x) && known_enabled("KF-PITIMES")) {
		Allow B = allow_un(type, op.base, u, d, 2 * EPS64);
		B.nar = false;
		if (fabsq(d.x) > 0x1p57Q || dist(type, t, B) <= m) return KF("KF-PITIMES");
	}
	if (n == 64 && (op.base == "arcoth" || op.base == "arcsch")) {
		const char *id = op.base == "arcoth" ? "KF-ARCOTH64" : "KF-ARCSCH64";
		if (known_enabled(id)) {
			Allow B = allow_un(type, op.base, u, d, 0x1p-52Q);
			Real r = u->f(d.x); // double precision result
			if (r.k == R_NUM) for (int k = -1; k <= 1; k += 2) B.add(type, rnum(r.v * (1 + k * 0x1p-51Q)));
			if (op.base == "arcoth" && fabsq(fabsq(d.x) - 1) <= 0x1p-52Q) { B.nar = true; Real lim = rnum(copysignq(1e300Q, d.x)); if (fabsq(d.x) > 1) B.add(type, lim); }
			if (dist(type, t, B) <= m) return KF(id);
		}
	}
	return v;
}
// ------------------------------------------------------------------- binary
static bool exact_sum(quad a, quad b) { quad s = a + b, z = s - a; return (a - (s - z)) + (b - z) == 0; }
static bool exact_prod(quad a, quad b) { return fmaq(a, b, -(a * b)) == 0; }
static bool is_tie(quad p) { quad f = p - floorq(p); return f == 0.5Q; }
// exact halves only: recompute the position scaled so that lost bits would show
static bool lin_pos_exact(int n, quad x)
{
	int e;
	quad g = 2 * frexpq(fabsq(x), &e) - 1; // mantissa, exact
	e--;
	if (e < -254 || e > 253) return false;
	int v = e >= 0 ? e + 1 : -e, r = 31 - __builtin_clz(v);
	quad q = ldexpq(g, 59 - r + n - 64);
	quad f = q - floorq(q);
	return f == 0 ? false : ldexpq(q, 40) == floorq(ldexpq(q, 40)); // few bits below the point
}

static Allow allow_bin(const Op &op, const Dec &d, const Dec &e, bool box, Real *ref)
{
	int type = op.t;
	Allow A;
	if (d.k == R_NAR || e.k == R_NAR) { A.nar = true; *ref = RNAR; return A; }
	Real r = ref_bin(op.base, d.x, e.x);
	bool logl = !TYPES[type].lin && (op.base == "multiplication" || op.base == "division");
	if (logl && r.k == R_NUM) {
		bool s = d.s != e.s;
		quad L = op.base == "multiplication" ? d.l + e.l : d.l - e.l;
		r = {R_NUM, s ? (quad)-1 : (quad)1, true, L};
	}
	*ref = r;
	A.add(type, r);
	if (!box || logl || TYPES[type].lin) return A;
	quad da = delta(type, op.base, 0, d), db = delta(type, op.base, 0, e);
	if (op.base == "power" && d.k == R_NUM && d.s && e.k == R_NUM && db > 0) {
		quad b1 = e.x * (1 - db), b2 = e.x * (1 + db);
		if (b1 > b2) std::swap(b1, b2);
		if (floorq(b2) < b1) return A; // no integer in reach: NaR
		A.nar = true;
		bool one = floorq(b2) - 1 < b1 && fabsq(b2) < 0x1p62Q, odd = fmodq(fabsq(floorq(b2)), 2) == 1;
		Allow P;
		for (int i = -1; i <= 1; i += 2) for (int j = -1; j <= 1; j += 2)
			P.add(type, ref_bin("power", fabsq(d.x) * (1 + i * da), e.x * (1 + j * db)));
		if (one) { A.num = true; A.lo = odd ? -P.hi : P.lo; A.hi = odd ? -P.lo : P.hi; }
		else { A.outer = true; A.omin = P.lo; } // either sign; magnitude from below only
		return A;
	}
	for (int i = -1; i <= 1; i += 2) for (int j = -1; j <= 1; j += 2) {
		Real q = ref_bin(op.base, d.x * (1 + i * da), op.base == "power" && d.s ? e.x : e.x * (1 + j * db));
		if (q.k == R_NUM) A.add(type, q);
	}
	return A;
}
static Verdict check_bin(const Op &op, bool trans, bool only_kind, const Case &c, std::string *why)
{
	int type = op.t, n = TYPES[type].n;
	int64_t a = c.a[0].i, b = c.a[1].i, t = GIVEN ? *GIVEN : tk_call_bin(op, a, b);
	Dec d = tk_decode(type, a), e = tk_decode(type, b);
	Real ref;
	double m = margin(type, trans);
	Allow A = allow_bin(op, d, e, false, &ref);
	bool triv = d.k != R_NUM || e.k != R_NUM || ref.k != R_NUM || saturated(type, ref);
	if (only_kind) triv = false;
	Verdict v = only_kind ? judge_kind(type, t, A, triv, why) : judge(type, t, A, m, triv, why);
	if (v.res != FAIL) {
		// exact ties go to the even bit string
		const std::string &f = op.base;
		bool lin = TYPES[type].lin;
		if (!only_kind && ref.k == R_NUM && A.num && is_tie(A.lo)) {
			bool ex = false;
			if (lin && (f == "addition" || f == "subtraction")) ex = exact_sum(d.x, f == "addition" ? e.x : -e.x) && lin_pos_exact(n, ref.v);
			else if (lin && f == "multiplication") ex = exact_prod(d.x, e.x) && lin_pos_exact(n, ref.v);
			else if (!lin && ref.hasL) ex = fabsq(ref.L) < 254;
			if (ex && (t & 1)) {
				if (why) *why = "exact tie not resolved to even: got " + std::to_string(t) + " for position " + qstr(A.lo);
				return V(FAIL, 0.5);
			}
		}
		return v;
	}
	if (!TYPES[type].lin) {
		A = allow_bin(op, d, e, true, &ref);
		v = only_kind ? judge_kind(type, t, A, triv, why) : judge(type, t, A, m, triv, why);
		if (v.res != FAIL) return v;
	}
	if (op.base == "power" && known_enabled("KF-POWER")) {
		bool one = a == tk_one(n) && b == tk_nar(n), zero = b == 0 && (a == tk_nar(n) || a == 0);
		if ((one || zero) && t == tk_one(n)) return KF("KF-POWER");
	}
	return v;
}
static Verdict check_int(const Op &op, bool only_kind, const Case &c, std::string *why)
{
	int type = op.t;
	int64_t a = c.a[0].i, k = c.a[1].i, t = GIVEN ? *GIVEN : tk_call_int(op, a, k);
	Dec d = tk_decode(type, a);
	bool root = op.base == "root";
	Real r = ref_int(root, type, d, k);
	Allow A;
	A.add(type, r);
	bool triv = d.k != R_NUM || saturated(type, r) || k == 1;
	if (only_kind) triv = false;
	double m = margin(type, TYPES[type].lin || !root);
	Verdict v = only_kind ? judge_kind(type, t, A, triv, why) : judge(type, t, A, m, triv, why);
	if (v.res != FAIL) return v;
	if (op.name == "takum64_integer_power" && r.k == R_NUM && known_enabled("KF-INTPOW64")) {
		Allow B;
		for (int j = -1; j <= 1; j += 2) {
			Dec g = d;
			g.l += j * 4 * (fabsq(d.l) + 2) * EPS64;
			B.add(type, ref_int(false, type, g, k));
		}
		if (dist(type, t, B) <= m) return KF("KF-INTPOW64");
	}
	return v;
}
// -------------------------------------------------------------- conversions
static Verdict check_conv(const Op &op, const Case &c, std::string *why)
{
	int type = op.t, src = op.t2, n = TYPES[type].n, ns = TYPES[src].n;
	int64_t a = c.a[0].i, t = GIVEN ? *GIVEN : tk_call_conv(op, a);
	Dec d = tk_decode(src, a);
	bool same = TYPES[src].lin == TYPES[type].lin;
	if (same) { // bit-exact
		int64_t want;
		if (d.k == R_NAR) want = tk_nar(n);
		else if (n >= ns) want = (int64_t)((uint64_t)a << (n - ns));
		else {
			int k = ns - n;
			int64_t f = a >> k;
			uint64_t low = (uint64_t)a & ((1ull << k) - 1), half = 1ull << (k - 1);
			if (low > half || (low == half && (f & 1))) f++;
			if (a != 0 && f == 0) f = a > 0 ? 1 : -1;
			if (f > tk_max(n)) f = tk_max(n);
			if (f < -tk_max(n)) f = -tk_max(n);
			want = f;
		}
		if (t == want) return V(d.k != R_NUM ? TRIVIAL : PASS);
		if (why) *why = "got " + std::to_string(t) + ", expected " + std::to_string(want);
		return V(FAIL, 1);
	}
	Real r = d.k == R_NUM ? rnum(d.x) : d.k == R_NAR ? RNAR : RZERO;
	Allow A;
	A.add(type, r);
	return judge(type, t, A, margin(type, false), d.k != R_NUM || saturated(type, r), why);
}
static Verdict check_fromf(const Op &op, const Case &c, std::string *why)
{
	int type = op.t, n = TYPES[type].n;
	ldbl f = c.a[0].f;
	int64_t t = GIVEN ? *GIVEN : tk_call_fromf(op, f);
	Real r = std::isnan(f) || std::isinf(f) ? RNAR : rnum((quad)f);
	if (r.k == R_NUM && f != 0 && r.k == R_ZERO) r = rnum(copysignq(1e-4000Q, f));
	Allow A;
	A.add(type, r);
	bool triv = r.k != R_NUM || saturated(type, r);
	Verdict v = judge(type, t, A, margin(type, false), triv, why);
	if (v.res == FAIL || r.k != R_NUM) return v;
	bool exact = TYPES[type].lin && n >= 32 && op.t2 <= (EPS64 > 0x1p-60Q ? 0 : 1);
	if (TYPES[type].lin && !exact) {
		// few enough bits below the last place that no intermediate format drops any
		static const int BELOW[] = {20, 12, 36, 4};
		quad q = ldexpq(A.lo, BELOW[n == 8 ? 0 : n == 16 ? 1 : n == 32 ? EPS64 > 0x1p-60Q ? 0 : 2 : 3]);
		exact = q == floorq(q);
	}
	if (exact && t != tk_round(type, A.lo)) {
		if (why) *why = "not the nearest takum: got " + std::to_string(t) + " for position " + qstr(A.lo);
		return V(FAIL, v.err);
	}
	return v;
}
static const int FDIG[3] = {24, 53, 64}, FEMIN[3] = {-149, -1074, -16445};
static quad fmaxq_(int k) { return k == 0 ? (quad)FLT_MAX : k == 1 ? (quad)DBL_MAX : (quad)LDBL_MAX; }
static Verdict check_tof(const Op &op, const Case &c, std::string *why)
{
	int src = op.t, k = op.t2;
	int64_t a = c.a[0].i;
	ldbl g = GIVENF ? *GIVENF : tk_call_tof(op, a);
	Dec d = tk_decode(src, a);
	char b[128];
	if (why) { snprintf(b, sizeof b, "got %La; true value %s", g, d.k == R_NAR ? "NaN" : qstr(d.x).c_str()); *why = b; }
	if (d.k == R_NAR) return V(std::isnan(g) ? TRIVIAL : FAIL, 1e9);
	if (std::isnan(g)) return V(FAIL, 1e9);
	if (d.k == R_ZERO) return V(g == 0 ? TRIVIAL : FAIL, 1e9);
	if (TYPES[src].lin) { // correctly rounded, ties to even
		ldbl want = k == 0 ? (ldbl)(float)d.x : k == 1 ? (ldbl)(double)d.x : (ldbl)d.x;
		return V(g == want && std::signbit(g) == std::signbit(want) ? PASS : FAIL, 1);
	}
	int e;
	frexpq(fabsq(d.x), &e);
	int ue = std::max(e - FDIG[k], FEMIN[k]);
	quad ulp = ldexpq(1, ue), tol = 0.5Q * ulp;
	tol = (k == 2 ? 0 : tol) + fabsq(d.x) * (fabsq(d.l) + 2) * EPS64 * (k == 2 ? 1.0Q : 1.05Q);
	if (k == 2 && d.l == 0) tol = 0;
	if (std::isinf(g)) { // only past the largest finite float
		bool ok = (g > 0) == (d.x > 0) && fabsq(d.x) + tol >= fmaxq_(k) + 0.5Q * ldexpq(1, e - FDIG[k]);
		return V(ok ? PASS : FAIL, 1e9);
	}
	quad err = fabsq((quad)g - d.x);
	// a tiny value may be flushed to zero only below half of the smallest denormal
	if (fabsq(d.x) > fmaxq_(k) + tol) return V(FAIL, 1e9);
	return V(err <= tol ? PASS : FAIL, (double)(err / ulp));
}
// ---------------------------------------------------------------- registry
static const char *FN[3] = {"float32", "float64", "extended_float"};
static const Op *opn(int t, const std::string &base) { return tk_find(std::string(TYPES[t].name) + "_" + base); }
static Target tgt(const std::string &name, std::vector<ArgSpec> args, CheckFn f, double w = 1)
{
	Target t;
	t.name = name; t.args = args; t.check = f; t.weight = w;
	return t;
}
static double wt(int type) { int n = TYPES[type].n; return n == 8 ? 0.05 : n == 16 ? 0.3 : n == 32 ? 1 : 1.3; }
static bool trans_base(const std::string &b)
{
	static const std::set<std::string> arith = {"addition", "subtraction", "multiplication", "division", "inversion", "square_root", "absolute", "sign"};
	return !arith.count(b);
}
static Verdict check_any(const Op &o, const Case &c, std::string *why)
{
	bool tr = trans_base(o.base);
	switch (o.kind) {
	case K_UN: return check_un(o, ref_un(o.base), tr, false, c, why);
	case K_BIN: return check_bin(o, tr, false, c, why);
	case K_INT: return check_int(o, false, c, why);
	case K_CONV: return check_conv(o, c, why);
	case K_FROMF: return check_fromf(o, c, why);
	case K_TOF: return check_tof(o, c, why);
	default: return V(TRIVIAL);
	}
}
bool tk_correct(const Op &o, int64_t a, int64_t b, const int64_t *given)
{
	Case c{};
	c.a[0].i = a; c.a[1].i = b;
	GIVEN = given;
	Verdict v = check_any(o, c, nullptr);
	GIVEN = nullptr;
	return v.res != FAIL;
}
Verdict tk_judge(const Op &o, const Case &c, const Arg &given, quad eps, std::string *why)
{
	quad old = EPS64;
	EPS64 = eps;
	GIVEN = &given.i;
	GIVENF = &given.f;
	Verdict v = check_any(o, c, why);
	GIVEN = nullptr;
	GIVENF = nullptr;
	EPS64 = old;
	return v;
}
static void add_op(Property &p, const Op *o, bool only_kind = false, double w = 1)
{
	if (!o) return;
	Target t;
	t.name = o->name;
	t.op = o;
	t.weight = w * wt(o->t);
	Op op = *o;
	bool tr = trans_base(op.base);
	if (op.kind == K_UN) {
		const UnFn *u = ref_un(op.base);
		t.args = {{A_TAKUM, op.t}};
		t.check = [op, u, tr, only_kind](const Case &c, std::string *w) { return check_un(op, u, tr, only_kind, c, w); };
		t.boundary = true;
		t.exhaustive = true;
	} else if (op.kind == K_BIN) {
		t.args = {{A_TAKUM, op.t}, {A_TAKUM, op.t}};
		t.check = [op, tr, only_kind](const Case &c, std::string *w) { return check_bin(op, tr, only_kind, c, w); };
		t.exhaustive = true;
	} else if (op.kind == K_INT) {
		t.args = {{A_TAKUM, op.t}, {A_INT, op.t}};
		t.check = [op, only_kind](const Case &c, std::string *w) { return check_int(op, only_kind, c, w); };
	} else if (op.kind == K_CONV) {
		t.args = {{A_TAKUM, op.t2}};
		t.check = [op](const Case &c, std::string *w) { return check_conv(op, c, w); };
		t.exhaustive = true;
		t.weight = w * (wt(op.t) + wt(op.t2)) / 2;
	} else if (op.kind == K_FROMF) {
		t.args = {{A_FLOAT, op.t2}};
		t.check = [op](const Case &c, std::string *w) { return check_fromf(op, c, w); };
		t.weight = w * (0.5 + wt(op.t) / 2);
	} else if (op.kind == K_TOF) {
		t.args = {{A_TAKUM, op.t}};
		t.check = [op](const Case &c, std::string *w) { return check_tof(op, c, w); };
		t.exhaustive = true;
	} else return;
	p.targets.push_back(t);
}
static Property prop(const char *id, double quick, double thorough, const char *rule)
{
	Property p;
	p.id = id; p.quick = quick; p.thorough = thorough; p.rule = rule;
	return p;
}
static const char *RULE_VALUE = "Arguments from weighted generators (uniform, regime-structured, special strings, encoded reals, boundary points of the function found by bisection on the reference, literals of the source, widened narrow strings, solved result targets); non-trivial: no argument is NaR or 0 and the true result is a nonzero real strictly inside the dynamic range. distinct counts (function, arguments) tuples by a hash into a bitmap, a lower bound.";
static void ops_of(Property &p, std::vector<const char *> bases, bool only_kind = false, double w = 1)
{
	for (int t = 0; t < 8; t++) for (auto b : bases) add_op(p, opn(t, b), only_kind, w);
}
static std::string hx(int64_t v) { return std::to_string(v); }

// C03: round trips
static void build_c03()
{
	Property p = prop("C03", 60, 1000, "Start values from the same generators; non-trivial: a nonzero finite start value inside the guaranteed range of that round trip.");
	for (int t = 0; t < 8; t++) {
		int n = TYPES[t].n;
		for (int k = 0; k < 3; k++) {
			if (k == 1 && n == 64) continue;
			if (k == 0 && n > 16) continue;
			Op to = *tk_find(std::string(TYPES[t].name) + "_to_" + FN[k]), fr = *tk_find(std::string(TYPES[t].name) + "_from_" + FN[k]);
			Target g = tgt(std::string(TYPES[t].name) + "->" + FN[k] + "->" + TYPES[t].name, {{A_TAKUM, t}}, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i;
				ldbl f = tk_call_tof(to, a);
				if (k == 0 && (std::isinf(f) || (f != 0 && fabsl(f) < FLT_MIN) || (a != 0 && f == 0))) return V(TRIVIAL);
				int64_t b = tk_call_fromf(fr, f);
				if (a == b) return V(a == 0 || a == tk_nar(n) ? TRIVIAL : PASS);
				if (why) *why = "came back as " + hx(b);
				return V(FAIL, 1);
			}, wt(t));
			g.exhaustive = true;
			p.targets.push_back(g);
		}
	}
	// float -> takum_linear64 -> float, exact inside the dynamic range
	for (int k = 0; k < 2; k++) for (int t : {3, 7}) {
		if (t == 3 && k == 1) continue; // 64-bit logarithmic takums have fewer significant digits than float64 at the range ends
		Op to = *tk_find(std::string(TYPES[t].name) + "_to_" + FN[k]), fr = *tk_find(std::string(TYPES[t].name) + "_from_" + FN[k]);
		p.targets.push_back(tgt(std::string(FN[k]) + "->" + TYPES[t].name + "->" + FN[k], {{A_FLOAT, k}}, [=](const Case &c, std::string *why) {
			ldbl f = c.a[0].f;
			if (std::isinf(f)) return V(TRIVIAL);
			if (std::isnan(f)) return V(std::isnan(tk_call_tof(to, tk_call_fromf(fr, f))) ? TRIVIAL : FAIL, 1);
			if (t == 7 && f != 0 && (fabsl(f) < ldexpl(1, -254) || fabsl(f) >= ldexpl(1, 254))) return V(TRIVIAL);
			ldbl g = tk_call_tof(to, tk_call_fromf(fr, f));
			if (f == g) return V(f == 0 ? TRIVIAL : PASS);
			if (why) { char b[64]; snprintf(b, sizeof b, "came back as %La", g); *why = b; }
			return V(FAIL, 1);
		}, 2));
	}
	// widen and narrow again
	for (int fam = 0; fam < 2; fam++) for (int i = 0; i < 4; i++) for (int j = i + 1; j < 4; j++) {
		int s = fam * 4 + i, w = fam * 4 + j;
		Op up = *tk_find(std::string(TYPES[w].name) + "_from_" + TYPES[s].name), dn = *tk_find(std::string(TYPES[s].name) + "_from_" + TYPES[w].name);
		Target g = tgt(std::string(TYPES[s].name) + "->" + TYPES[w].name + "->" + TYPES[s].name, {{A_TAKUM, s}}, [=](const Case &c, std::string *why) {
			int64_t b = tk_call_conv(dn, tk_call_conv(up, c.a[0].i));
			if (b == c.a[0].i) return V(b == 0 || b == tk_nar(TYPES[s].n) ? TRIVIAL : PASS);
			if (why) *why = "came back as " + hx(b);
			return V(FAIL, 1);
		}, wt(s));
		g.exhaustive = true;
		p.targets.push_back(g);
	}
	// through the other family, at least twice as wide
	for (int t = 0; t < 8; t++) for (int w = (t & 4) ^ 4; w < ((t & 4) ^ 4) + 4; w++) {
		if (TYPES[w].n < 2 * TYPES[t].n) continue;
		Op up = *tk_find(std::string(TYPES[w].name) + "_from_" + TYPES[t].name), dn = *tk_find(std::string(TYPES[t].name) + "_from_" + TYPES[w].name);
		Target g = tgt(std::string(TYPES[t].name) + "->" + TYPES[w].name + "->" + TYPES[t].name, {{A_TAKUM, t}}, [=](const Case &c, std::string *why) {
			int64_t b = tk_call_conv(dn, tk_call_conv(up, c.a[0].i));
			// linear takums reach further: what saturates there and back is not claimed
			if (b == c.a[0].i) return V(b == 0 || b == tk_nar(TYPES[t].n) ? TRIVIAL : PASS);
			Dec d = tk_decode(t, c.a[0].i);
			if (TYPES[t].lin && d.k == R_NUM && (fabsq(d.x) > 5e54Q || fabsq(d.x) < 2e-55Q) && b != 0 && b != tk_nar(TYPES[t].n) && (b < 0) == (c.a[0].i < 0)) return V(TRIVIAL);
			if (why) *why = "came back as " + hx(b);
			return V(FAIL, 1);
		}, wt(t));
		g.exhaustive = true;
		p.targets.push_back(g);
	}
	PROPS.push_back(p);
}
// C06: order, negation, monotone encoding
static void build_c06()
{
	Property p = prop("C06", 40, 800, "Pairs from the pair generators (neighbours, equal prefixes, independent); non-trivial: two different non-NaR strings (or floats), or a nonzero string for negation.");
	for (int t = 0; t < 8; t++) {
		int n = TYPES[t].n;
		for (int k = 0; k < 3; k++) {
			Op to = *tk_find(std::string(TYPES[t].name) + "_to_" + FN[k]);
			bool strict = k == 2 || (k == 1 && n <= 32);
			p.targets.push_back(tgt(to.name + ": order", {{A_TAKUM, t}, {A_TAKUM, t}}, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, b = c.a[1].i;
				if (a == tk_nar(n) || b == tk_nar(n) || a == b) return V(TRIVIAL);
				ldbl fa = tk_call_tof(to, a), fb = tk_call_tof(to, b);
				bool ok = a < b ? (strict ? fa < fb : fa <= fb) : (strict ? fa > fb : fa >= fb);
				if (ok) return V(PASS);
				if (why) { char s[100]; snprintf(s, sizeof s, "values %La and %La are not ordered like the strings", fa, fb); *why = s; }
				return V(FAIL, 1);
			}, wt(t)));
			Target g = tgt(to.name + ": negation", {{A_TAKUM, t}}, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i;
				ldbl f = tk_call_tof(to, a), h = tk_call_tof(to, tk_neg(n, a));
				bool ok = a == tk_nar(n) ? std::isnan(f) : f == -h && (f < 0) == (a < 0 && f != 0);
				if (ok) return V(a == 0 || a == tk_nar(n) ? TRIVIAL : PASS);
				if (why) { char s[100]; snprintf(s, sizeof s, "value %La, value of the negation %La", f, h); *why = s; }
				return V(FAIL, 1);
			}, wt(t));
			g.exhaustive = true;
			p.targets.push_back(g);
			if (k == 2 && n == 64) continue;
			Op fr = *tk_find(std::string(TYPES[t].name) + "_from_" + FN[k]);
			Target q = tgt(fr.name + ": monotone", {{A_FLOAT, k}, {A_FLOAT, k}}, [=](const Case &c, std::string *why) {
				ldbl a = c.a[0].f, b = c.a[1].f;
				if (!std::isfinite(a) || !std::isfinite(b) || a == b) return V(TRIVIAL);
				int64_t ta = tk_call_fromf(fr, a), tb = tk_call_fromf(fr, b);
				bool ok = a < b ? ta <= tb : ta >= tb;
				int64_t na = tk_call_fromf(fr, -a);
				int64_t tol = 0; // as in sym(): |l| < 1 and, below 64 bits, a near-tie
				if (!TYPES[t].lin || (n <= 16 && k == 2)) for (int64_t v : {ta, na}) { // the 16 bit encoder works in float64
					uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v, d = m >> (n - 5);
					if (d == 7 || d == 8) {
						quad q = n < 64 ? tk_pos(t, rnum((quad)a)) : 0.5Q;
						if (fabsq(q - floorq(q) - 0.5Q) < 0.002Q) tol = 1;
					}
				}
				if (ta == tk_nar(n) || na == tk_nar(n)) ok = false;
				else if ((quad)na + ta > tol || (quad)na + ta < -tol) ok = false;
				if (ok) return V(PASS);
				if (why) *why = "encoded as " + hx(ta) + " and " + hx(tb) + ", negation of the first as " + hx(na);
				return V(FAIL, 1);
			}, wt(t));
			q.gen = [k](Rng &r, Case &c) {
				c = Case{};
				c.a[0].f = gen_float(r, k);
				if (r.one_in(3)) c.a[1].f = gen_float(r, k);
				else {
					ldbl v = c.a[0].f;
					for (int i = (int)r.range(1, 3); i > 0; i--) v = k == 0 ? nextafterf((float)v, INFINITY) : k == 1 ? nextafter((double)v, INFINITY) : nextafterl(v, INFINITY);
					if (r.one_in(3)) v = c.a[0].f * (1 + ldexpl(1, -(int)r.below(64)));
					c.a[1].f = k == 0 ? (ldbl)(float)v : k == 1 ? (ldbl)(double)v : v;
				}
			};
			p.targets.push_back(q);
		}
	}
	for (auto &o : tk_ops()) {
		if (o.kind != K_CONV) continue;
		Op cv = o;
		Target g = tgt(o.name + ": monotone", {{A_TAKUM, o.t2}, {A_TAKUM, o.t2}}, [=](const Case &c, std::string *why) {
			int64_t a = c.a[0].i, b = c.a[1].i, nr = tk_nar(TYPES[cv.t2].n);
			if (a == nr || b == nr || a == b) return V(TRIVIAL);
			int64_t x = tk_call_conv(cv, a < b ? a : b), y = tk_call_conv(cv, a < b ? b : a);
			bool inexact = TYPES[cv.t].n == 64 && TYPES[cv.t].lin != TYPES[cv.t2].lin;
			if (x <= y || (inexact && x == y + 1 && tk_correct(cv, a, 0, nullptr) && tk_correct(cv, b, 0, nullptr))) return V(PASS);
			if (why) *why = "the smaller becomes " + hx(x) + ", the larger " + hx(y);
			return V(FAIL, 1);
		}, wt(o.t2) * 0.15);
		g.exhaustive = true;
		p.targets.push_back(g);
		Target h = tgt(o.name + ": negation", {{A_TAKUM, o.t2}}, [=](const Case &c, std::string *why) {
			int64_t a = c.a[0].i;
			int n = TYPES[cv.t].n;
			int64_t x = tk_call_conv(cv, a), y = tk_call_conv(cv, tk_neg(TYPES[cv.t2].n, a));
			bool ok = x == tk_neg(n, y);
			if (!ok && TYPES[cv.t].lin != TYPES[cv.t2].lin && fabsq((quad)x + y) <= 1) ok = tk_correct(cv, a, 0, nullptr) && tk_correct(cv, tk_neg(TYPES[cv.t2].n, a), 0, nullptr); // as above: |l| < 1, next to a tie
			if (ok) return V(a == 0 || a == tk_nar(TYPES[cv.t2].n) ? TRIVIAL : PASS);
			if (why) *why = "becomes " + hx(x) + ", its negation " + hx(y);
			return V(FAIL, 1);
		}, wt(o.t2) * 0.15);
		h.exhaustive = true;
		p.targets.push_back(h);
	}
	PROPS.push_back(p);
}
// C07: symmetries
// Everything up to the encoder is symmetric in extended precision, and so is the
// encoder except where |l| < 1 for logarithmic takums: there 1 - |l| is rounded to
// 64 bits, so a negative number and its magnitude may fall on different sides of a
// near-tie. `neg`: the relation negates the result.
static Verdict sym(int type, int64_t x, int64_t y, bool triv, std::string *why, bool neg)
{
	int n = TYPES[type].n;
	bool nx = x == tk_nar(n), ny = y == tk_nar(n), tol = false;
	if (neg && n >= 32 && !TYPES[type].lin) for (int64_t v : {x, y}) { uint64_t m = v < 0 ? 0 - (uint64_t)v : (uint64_t)v, d = m >> (n - 5); tol = tol || d == 7 || d == 8; }
	bool ok = nx == ny && (nx || x == y || (tol && x != 0 && y != 0 && (x < 0) == (y < 0) && (x > y ? (uint64_t)x - (uint64_t)y : (uint64_t)y - (uint64_t)x) <= 1));
	if (ok) return V(triv ? TRIVIAL : PASS);
	if (why) *why = "the two sides are " + hx(x) + " and " + hx(y);
	return V(FAIL, 1);
}
static void build_c07()
{
	Property p = prop("C07", 40, 800, "Arguments from the unary/pair generators; non-trivial: no NaR and no 0 among the arguments.");
	static const char *ODD[] = {"sin", "tan", "cot", "csc", "sin_pi_times", "tan_pi_times", "cot_pi_times", "csc_pi_times", "arcsin", "arcsin_over_pi", "arctan", "arctan_over_pi",
		"arccsc", "arccsc_over_pi", "arcoth", "arcsch", "arsinh", "artanh", "sinh", "tanh", "coth", "csch", "inversion", "sign"};
	static const char *EVEN[] = {"cos", "sec", "cos_pi_times", "sec_pi_times", "cosh", "sech", "absolute"};
	for (int t = 0; t < 8; t++) {
		int n = TYPES[t].n;
		for (int e = 0; e < 2; e++) for (int i = 0; i < (e ? 7 : 24); i++) {
			Op o = *opn(t, e ? EVEN[i] : ODD[i]);
			bool pi = o.base.find("_pi_times") != std::string::npos;
			Target g = tgt(o.name + (e ? ": even" : ": odd"), {{A_TAKUM, t}}, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, x = tk_call_un(o, tk_neg(n, a)), y = tk_call_un(o, a);
				if (!e) y = tk_neg(n, y);
				Verdict v = sym(t, x, y, a == 0 || a == tk_nar(n), why, !e);
				if (v.res == FAIL && pi && known_enabled("KF-PITIMES")) {
					Dec d = tk_decode(t, a);
					if (d.k == R_NUM) {
						quad h = rintq(2 * d.x) / 2, dl = delta(t, o.base, 2, d);
						if (fabsq(h - d.x) <= dl * fabsq(d.x)) return KF("KF-PITIMES");
					}
				}
				return v;
			}, wt(t) * 0.3);
			g.op = opn(t, e ? EVEN[i] : ODD[i]);
			g.boundary = true;
			g.exhaustive = true;
			p.targets.push_back(g);
		}
		Op add = *opn(t, "addition"), sub = *opn(t, "subtraction"), mul = *opn(t, "multiplication"), dv = *opn(t, "division"), hyp = *opn(t, "hypotenuse"), at = *opn(t, "arctan2"), atp = *opn(t, "arctan2_over_pi");
		auto bin = [&](const char *nm, bool neg, const Op &o, std::function<std::pair<int64_t, int64_t>(int64_t, int64_t)> f) {
			Target g = tgt(std::string(TYPES[t].name) + ": " + nm, {{A_TAKUM, t}, {A_TAKUM, t}}, [=](const Case &c, std::string *why) {
				int64_t a = c.a[0].i, b = c.a[1].i;
				auto q = f(a, b);
				return sym(t, q.first, q.second, a == 0 || b == 0 || a == tk_nar(n) || b == tk_nar(n), why, neg);
			}, wt(t));
			g.op = opn(t, o.base);
			g.exhaustive = true;
			p.targets.push_back(g);
		};
		typedef std::pair<int64_t, int64_t> P;
#define NG(x) tk_neg(n, x)
		bin("a+b = b+a", false, add, [=](int64_t a, int64_t b) { return P(tk_call_bin(add, a, b), tk_call_bin(add, b, a)); });
		bin("a*b = b*a", false, mul, [=](int64_t a, int64_t b) { return P(tk_call_bin(mul, a, b), tk_call_bin(mul, b, a)); });
		bin("hypot(a,b) = hypot(b,a)", false, hyp, [=](int64_t a, int64_t b) { return P(tk_call_bin(hyp, a, b), tk_call_bin(hyp, b, a)); });
		bin("hypot(-a,b) = hypot(a,b)", false, hyp, [=](int64_t a, int64_t b) { return P(tk_call_bin(hyp, NG(a), b), tk_call_bin(hyp, a, b)); });
		bin("(-a)+(-b) = -(a+b)", true, add, [=](int64_t a, int64_t b) { return P(tk_call_bin(add, NG(a), NG(b)), NG(tk_call_bin(add, a, b))); });
		bin("a-b = -(b-a)", true, sub, [=](int64_t a, int64_t b) { return P(tk_call_bin(sub, a, b), NG(tk_call_bin(sub, b, a))); });
		bin("a-b = a+(-b)", false, sub, [=](int64_t a, int64_t b) { return P(tk_call_bin(sub, a, b), tk_call_bin(add, a, NG(b))); });
		bin("(-a)*b = -(a*b)", true, mul, [=](int64_t a, int64_t b) { return P(tk_call_bin(mul, NG(a), b), NG(tk_call_bin(mul, a, b))); });
		bin("(-a)/b = -(a/b)", true, dv, [=](int64_t a, int64_t b) { return P(tk_call_bin(dv, NG(a), b), NG(tk_call_bin(dv, a, b))); });
		bin("a/(-b) = -(a/b)", true, dv, [=](int64_t a, int64_t b) { return P(tk_call_bin(dv, a, NG(b)), NG(tk_call_bin(dv, a, b))); });
		for (int w = 0; w < 2; w++) {
			Op o = w ? atp : at;
			bin(w ? "arctan2_over_pi odd in a" : "arctan2 odd in a", true, o, [=](int64_t a, int64_t b) {
				if (a == 0) return P(0, 0);
				return P(tk_call_bin(o, NG(a), b), NG(tk_call_bin(o, a, b)));
			});
		}
		Op ip = *opn(t, "integer_power"), rt = *opn(t, "root");
		p.targets.push_back(tgt(ip.name + ": sign", {{A_TAKUM, t}, {A_INT, t}}, [=](const Case &c, std::string *why) {
			int64_t a = c.a[0].i, k = c.a[1].i, x = tk_call_int(ip, tk_neg(n, a), k), y = tk_call_int(ip, a, k);
			if (k % 2) y = tk_neg(n, y);
			return sym(t, x, y, a == 0 || a == tk_nar(n), why, k % 2 != 0);
		}, wt(t)));
		p.targets.push_back(tgt(rt.name + ": odd degrees", {{A_TAKUM, t}, {A_INT, t}}, [=](const Case &c, std::string *why) {
			int64_t a = c.a[0].i, k = c.a[1].i;
			if (k % 2 == 0) return V(TRIVIAL);
			return sym(t, tk_call_int(rt, tk_neg(n, a), k), tk_neg(n, tk_call_int(rt, a, k)), a == 0 || a == tk_nar(n), why, true);
		}, wt(t)));
	}
	PROPS.push_back(p);
}
// C23: coherence across widths
static void build_c23()
{
	Property p = prop("C23", 40, 800, "Narrow arguments from the generators, evaluated at the narrow and at a wider width; non-trivial: result and arguments neither NaR nor 0.");
	auto coh = [](int n, int w, int64_t x, int64_t y, double eps, std::string *why) {
		int k = w - n;
		bool ok;
		if (x == tk_nar(n) || y == tk_nar(w)) ok = x == tk_nar(n) && y == tk_nar(w);
		else if (x == 0 || y == 0) ok = x == y;
		else {
			quad q = ldexpq((quad)y, -k), mx = (quad)tk_max(n);
			if (q > 0) { if (q < 1) q = 1; if (q > mx) q = mx; }
			else { if (q > -1) q = -1; if (q < -mx) q = -mx; }
			ok = fabsq((quad)x - q) <= 0.5Q + eps;
		}
		if (ok) return true;
		if (why) *why = "narrow result " + hx(x) + ", wide result " + hx(y);
		return false;
	};
	for (auto &o : tk_ops()) {
		if (o.kind != K_UN && o.kind != K_BIN && o.kind != K_INT) continue;
		int t = o.t, n = TYPES[t].n;
		for (int w = t + 1; w < (t & 4) + 4; w++) {
			const Op *wo = opn(w, o.base);
			if (!wo) continue;
			int nw = TYPES[w].n;
			Op a = o, b = *wo;
			if (w == 3 && o.base == "integer_power") continue; // the 64-bit one is a finding of its own (KF-INTPOW64)
			double eps = 0.002 + ldexp(1.0, -(nw - n));
			Target g;
			g.name = a.name + " vs " + b.name;
			g.op = tk_find(o.name);
			g.exhaustive = true;
			g.boundary = o.kind == K_UN;
			g.weight = wt(t) * 0.4;
			if (o.kind == K_UN) {
				g.args = {{A_TAKUM, t}};
				g.check = [=](const Case &c, std::string *why) {
					int64_t v = c.a[0].i;
					int64_t x = tk_call_un(a, v), y = tk_call_un(b, (int64_t)((uint64_t)v << (nw - n)));
					if (coh(n, nw, x, y, eps, why)) return V(x == 0 || x == tk_nar(n) || v == 0 ? TRIVIAL : PASS);
					return V(FAIL, 1);
				};
			} else if (o.kind == K_BIN) {
				g.args = {{A_TAKUM, t}, {A_TAKUM, t}};
				g.check = [=](const Case &c, std::string *why) {
					int64_t u = c.a[0].i, v = c.a[1].i;
					int64_t x = tk_call_bin(a, u, v), y = tk_call_bin(b, (int64_t)((uint64_t)u << (nw - n)), (int64_t)((uint64_t)v << (nw - n)));
					if (coh(n, nw, x, y, eps, why)) return V(x == 0 || x == tk_nar(n) || u == 0 || v == 0 ? TRIVIAL : PASS);
					return V(FAIL, 1);
				};
			} else {
				g.args = {{A_TAKUM, t}, {A_INT, t}};
				g.check = [=](const Case &c, std::string *why) {
					int64_t u = c.a[0].i, v = c.a[1].i;
					int64_t x = tk_call_int(a, u, v), y = tk_call_int(b, (int64_t)((uint64_t)u << (nw - n)), v);
					if (coh(n, nw, x, y, eps, why)) return V(x == 0 || x == tk_nar(n) || u == 0 ? TRIVIAL : PASS);
					return V(FAIL, 1);
				};
			}
			p.targets.push_back(g);
		}
	}
	PROPS.push_back(p);
}
// C19: saturation. Same reference, but a case is interesting when the true
// result is zero, saturates, or nearly does.
static void build_c19()
{
	Property p = prop("C19", 40, 800, "Arguments from the generators plus points bisected on the reference where the true result starts to saturate; non-trivial: the true result lies within a factor e of, at or beyond an end of the dynamic range, or is an exact zero.");
	auto add = [&](const Op &o) {
		int before = (int)p.targets.size();
		add_op(p, &o, false, o.kind == K_UN ? 0.6 : 2);
		if ((int)p.targets.size() == before) return;
		Target &t = p.targets.back();
		CheckFn full = t.check;
		Op op = o;
		const UnFn *u = ref_un(op.base);
		t.check = [=](const Case &c, std::string *why) {
			Real r = RNAR;
			int type = op.t, n = TYPES[type].n;
			int64_t got;
			if (op.kind == K_UN) { Dec d = tk_decode(type, c.a[0].i); if (d.k != R_NAR) r = u->f(d.x); got = tk_call_un(op, c.a[0].i); }
			else if (op.kind == K_BIN) { Dec d = tk_decode(type, c.a[0].i), e = tk_decode(type, c.a[1].i); allow_bin(op, d, e, false, &r); got = tk_call_bin(op, c.a[0].i, c.a[1].i); }
			else if (op.kind == K_INT) { r = ref_int(op.base == "root", type, tk_decode(type, c.a[0].i), c.a[1].i); got = tk_call_int(op, c.a[0].i, c.a[1].i); }
			else if (op.kind == K_FROMF) { ldbl f = c.a[0].f; r = std::isfinite(f) ? rnum((quad)f) : RNAR; got = tk_call_fromf(op, f); }
			else { Dec d = tk_decode(op.t2, c.a[0].i); r = d.k == R_NUM ? rnum(d.x) : d.k == R_NAR ? RNAR : RZERO; got = tk_call_conv(op, c.a[0].i); }
			bool interesting = r.k == R_ZERO;
			if (r.k == R_NUM) {
				quad q = fabsq(tk_pos(type, r)), mx = (quad)tk_max(n);
				quad band = n == 8 ? 2 : ldexpq(1, n - 10);
				interesting = q <= band || q >= mx - band;
			}
			if (!interesting) {
				// away from the ends: only "nonzero stays nonzero, and sign" is claimed here
				if (r.k != R_NUM) return V(TRIVIAL);
				if (got == 0 || got == tk_nar(n)) return full(c, why);
				return V(TRIVIAL);
			}
			Verdict v = full(c, why);
			return v.res == TRIVIAL ? V(PASS, v.err) : v;
		};
	};
	for (auto &o : tk_ops()) {
		if (o.kind == K_UN && ref_un(o.base)->bounded && o.base != "sign") continue;
		if (o.base == "absolute" || o.base == "sign") continue;
		if (o.kind == K_UN || o.kind == K_BIN || o.kind == K_INT || o.kind == K_FROMF || o.kind == K_CONV) add(o);
	}
	PROPS.push_back(p);
}

void build_properties()
{
	{ Property p = prop("C01", 40, 1200, "Takum strings from the generators (8 and 16 bits enumerated); non-trivial: a nonzero finite takum."); for (auto &o : tk_ops()) if (o.kind == K_TOF) add_op(p, &o); PROPS.push_back(p); }
	{ Property p = prop("C02", 30, 1200, "Floats from structured, raw-bit, special, takum-value, midpoint and range-edge generators; non-trivial: finite nonzero and strictly inside the dynamic range."); for (auto &o : tk_ops()) if (o.kind == K_FROMF) add_op(p, &o); PROPS.push_back(p); }
	build_c03();
	{ Property p = prop("C04", 100, 3000, "Source strings from the generators (8 and 16 bits enumerated), ties and carries included; non-trivial: neither 0 nor NaR."); for (auto &o : tk_ops()) if (o.kind == K_CONV && TYPES[o.t].lin == TYPES[o.t2].lin) add_op(p, &o); PROPS.push_back(p); }
	{ Property p = prop("C05", 40, 1200, "Source strings from the generators (8 and 16 bits enumerated); non-trivial: finite, nonzero and inside the target's dynamic range."); for (auto &o : tk_ops()) if (o.kind == K_CONV && TYPES[o.t].lin != TYPES[o.t2].lin) add_op(p, &o); PROPS.push_back(p); }
	build_c06();
	build_c07();
	{ Property p = prop("C08", 30, 800, RULE_VALUE); ops_of(p, {"addition", "subtraction"}); PROPS.push_back(p); }
	{ Property p = prop("C09", 50, 1200, RULE_VALUE); ops_of(p, {"multiplication", "division"}); PROPS.push_back(p); }
	{ Property p = prop("C10", 60, 1200, RULE_VALUE); ops_of(p, {"inversion"}); PROPS.push_back(p); }
	{ Property p = prop("C11", 30, 800, RULE_VALUE); ops_of(p, {"square_root", "root"}); PROPS.push_back(p); }
	{ Property p = prop("C12", 40, 800, RULE_VALUE); ops_of(p, {"integer_power"}); PROPS.push_back(p); }
	{ Property p = prop("C13", 20, 500, RULE_VALUE); ops_of(p, {"power", "hypotenuse"}); PROPS.push_back(p); }
	{ Property p = prop("C14", 20, 500, RULE_VALUE); ops_of(p, {"exp", "exp_minus_1", "2_raised", "2_raised_minus_1", "10_raised", "10_raised_minus_1", "ln", "ln_1_plus", "lb", "lb_1_plus", "lg", "lg_1_plus"}); PROPS.push_back(p); }
	{ Property p = prop("C15", 20, 500, RULE_VALUE); ops_of(p, {"sin", "cos", "tan", "cot", "sec", "csc", "sin_pi_times", "cos_pi_times", "tan_pi_times", "cot_pi_times", "sec_pi_times", "csc_pi_times"}); PROPS.push_back(p); }
	{ Property p = prop("C16", 20, 500, RULE_VALUE); ops_of(p, {"arcsin", "arccos", "arctan", "arccot", "arcsec", "arccsc", "arcsin_over_pi", "arccos_over_pi", "arctan_over_pi", "arccot_over_pi", "arcsec_over_pi", "arccsc_over_pi"}); ops_of(p, {"arctan2", "arctan2_over_pi"}, false, 2); PROPS.push_back(p); }
	{ Property p = prop("C17", 20, 500, RULE_VALUE); ops_of(p, {"sinh", "cosh", "tanh", "coth", "sech", "csch", "arsinh", "arcosh", "artanh", "arcoth", "arsech", "arcsch"}); PROPS.push_back(p); }
	{ Property p = prop("C18", 30, 800, "Arguments from the generators, boundary points of the domains included; every function is called and NaR-ness of the result compared with the mathematical domain; non-trivial: no argument is NaR (unary), any pair (binary).");
		for (auto &o : tk_ops()) if (o.kind == K_UN || o.kind == K_BIN || o.kind == K_INT) add_op(p, &o, true);
		PROPS.push_back(p); }
	build_c19();
	{ Property p = prop("C20", 100, 3000, "Takum strings from the generators (8 and 16 bits enumerated); non-trivial: neither 0 nor NaR.");
		for (auto &o : tk_ops()) if (o.kind == K_PREC) { Op op = o; Target g = tgt(o.name, {{A_TAKUM, o.t}}, [op](const Case &c, std::string *why) {
			int n = TYPES[op.t].n;
			int64_t a = c.a[0].i;
			int got = (int)tk_call_prec(op, a), want;
			bool sp = a == 0 || a == tk_nar(n);
			if (sp) want = std::max(0, n - 12);
			else { unsigned dr = (unsigned)(((uint64_t)a << (64 - n)) >> 59) & 15; int r = dr & 8 ? (int)(dr & 7) : 7 - (int)(dr & 7); want = std::max(0, n - 5 - r); }
			if (got == want) return V(sp ? TRIVIAL : PASS);
			if (why) *why = "got " + hx(got) + ", expected " + hx(want);
			return V(FAIL, 1);
		}, wt(o.t)); g.exhaustive = true; p.targets.push_back(g); }
		PROPS.push_back(p); }
	{ Property p = prop("C21", 100, 3000, "Takum strings from the generators (8 and 16 bits enumerated); non-trivial: neither 0 nor NaR.");
		for (int t = 0; t < 8; t++) for (int w = 0; w < 2; w++) { Op op = *opn(t, w ? "sign" : "absolute"); Target g = tgt(op.name, {{A_TAKUM, t}}, [op, w](const Case &c, std::string *why) {
			int n = TYPES[op.t].n;
			int64_t a = c.a[0].i, got = tk_call_un(op, a), want = w ? (a == tk_nar(n) ? a : a > 0 ? tk_one(n) : a < 0 ? -tk_one(n) : 0) : (a < 0 ? tk_neg(n, a) : a);
			if (got == want) return V(a == 0 || a == tk_nar(n) ? TRIVIAL : PASS);
			if (why) *why = "got " + hx(got) + ", expected " + hx(want);
			return V(FAIL, 1);
		}, wt(t)); g.exhaustive = true; p.targets.push_back(g); }
		PROPS.push_back(p); }
	build_c23();
}
