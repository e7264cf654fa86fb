#include "oracle.h"
#include <quadmath.h>
const Real RNAR = {R_NAR, 0}, RZERO = {R_ZERO, 0};
static const quad HUGEQ = 1e4000Q, TINYQ = 1e-4000Q;
static const quad LN10 = 2.302585092994045684017991454684364208Q, LN2 = M_LN2q, PIq = M_PIq;

Real rnum(quad v)
{
	if (isnanq(v)) return RNAR;
	if (v == 0) return RZERO;
	quad a = fabsq(v);
	if (a > HUGEQ) a = HUGEQ;
	if (a < TINYQ) a = TINYQ;
	return {R_NUM, v < 0 ? -a : a};
}
// result that is mathematically non-zero even if binary128 underflowed
static Real rnz(quad v, bool neg)
{
	if (isnanq(v)) return RNAR;
	if (v == 0) return {R_NUM, neg ? -TINYQ : TINYQ};
	return rnum(v);
}
std::string qstr(quad v) { char b[80]; quadmath_snprintf(b, sizeof b, "%.28Qg", v); return b; }

Dec tk_decode(int type, int64_t t)
{
	int n = TYPES[type].n;
	Dec d = {};
	if (t == 0) { d.k = R_ZERO; return d; }
	if (t == tk_nar(n)) { d.k = R_NAR; return d; }
	d.k = R_NUM;
	uint64_t u = (uint64_t)t << (64 - n);
	d.s = u >> 63;
	unsigned D = (u >> 62) & 1, R = (u >> 59) & 7;
	int r = D ? (int)R : 7 - (int)R;
	uint64_t rest = u << 5;
	uint64_t C = r ? rest >> (64 - r) : 0;
	uint64_t M = r ? rest << r : rest;
	d.c = D ? (1 << r) - 1 + (int)C : -(1 << (r + 1)) + 1 + (int)C;
	d.m = ldexpq((quad)M, -64);
	if (!TYPES[type].lin) {
		d.l = d.s ? -(d.c + d.m) : d.c + d.m;
		d.x = expq(d.l / 2);
		if (d.s) d.x = -d.x;
	} else {
		int e = d.s ? -(d.c + 1) : d.c;
		d.x = ldexpq((d.s ? -2 : 1) + d.m, e);
	}
	return d;
}
static quad pos64(int c, quad m) // magnitude position in the 64-bit ring
{
	if (c > 254) return ldexpq(1, 63);
	if (c < -255) return 0;
	int D = c >= 0, r;
	unsigned v = D ? c + 1 : -c;
	r = 31 - __builtin_clz(v);
	int bias = D ? (1 << r) - 1 : -(1 << (r + 1)) + 1;
	uint64_t pre = ((uint64_t)D << 62) | ((uint64_t)(D ? r : 7 - r) << 59) | ((uint64_t)(c - bias) << (59 - r));
	return (quad)pre + ldexpq(m, 59 - r);
}
static quad clampn(int n, bool s, quad p64)
{
	quad p = ldexpq(p64, n - 64), mx = (quad)tk_max(n);
	if (p < 1) p = 1;
	if (p > mx) p = mx;
	return s ? -p : p;
}
quad tk_pos_log(int n, bool s, quad L)
{
	if (L > 300) L = 300;
	if (L < -300) L = -300;
	quad f = floorq(L);
	return clampn(n, s, pos64((int)f, L - f));
}
quad tk_pos_lin(int n, quad x)
{
	int e;
	quad g = frexpq(fabsq(x), &e); // [0.5,1)
	e--;
	if (e > 300) e = 300;
	if (e < -300) e = -300;
	return clampn(n, x < 0, pos64(e, 2 * g - 1));
}
quad tk_pos(int type, const Real &r)
{
	int n = TYPES[type].n;
	if (r.k == R_ZERO) return 0;
	if (TYPES[type].lin) return tk_pos_lin(n, r.v);
	if (r.hasL) return tk_pos_log(n, r.v < 0, r.L);
	return tk_pos_log(n, r.v < 0, 2 * logq(fabsq(r.v)));
}
int64_t tk_round(int, quad pos)
{
	quad f = floorq(pos), d = pos - f;
	int64_t i = (int64_t)f;
	if (d > 0.5Q || (d == 0.5Q && (i & 1))) i++;
	return i;
}
int64_t tk_encode(int type, const Real &r)
{
	if (r.k == R_NAR) return tk_nar(TYPES[type].n);
	if (r.k == R_ZERO) return 0;
	return tk_round(type, tk_pos(type, r));
}

// ---------------------------------------------------------------- functions
#define IF(c) if (c) return RNAR
static quad inv(quad x) { return 1 / x; }
static Real f_exp2(quad x) { return rnz(x > 20000 ? HUGEQ : x < -20000 ? 0 : exp2q(x), 0); }
static Real f_exp(quad x) { return rnz(x > 20000 ? HUGEQ : x < -20000 ? 0 : expq(x), 0); }
static Real f_exp10(quad x) { return rnz(x > 20000 ? HUGEQ : x < -20000 ? 0 : expq(x * LN10), 0); }
static quad em1(quad y) { return y > 20000 ? HUGEQ : expm1q(y); }
static Real f_expm1(quad x) { return x == 0 ? RZERO : rnz(em1(x), x < 0); }
static Real f_exp2m1(quad x) { return x == 0 ? RZERO : rnz(em1(x * LN2), x < 0); }
static Real f_exp10m1(quad x) { return x == 0 ? RZERO : rnz(em1(x * LN10), x < 0); }
static Real f_abs(quad x) { return rnum(fabsq(x)); }
static Real f_sign(quad x) { return rnum(x > 0 ? 1 : x < 0 ? -1 : 0); }
static Real f_acos(quad x) { IF(fabsq(x) > 1); return rnum(acosq(x)); }
static Real f_asin(quad x) { IF(fabsq(x) > 1); return rnum(asinq(x)); }
static Real f_atan(quad x) { return rnum(atanq(x)); }
static quad acotq(quad x) { return x == 0 ? PIq / 2 : x > 0 ? atanq(1 / x) : PIq + atanq(1 / x); }
static Real f_acot(quad x) { return rnum(acotq(x)); }
static Real f_acsc(quad x) { IF(fabsq(x) < 1); return rnum(asinq(inv(x))); }
static Real f_asec(quad x) { IF(fabsq(x) < 1); return rnum(acosq(inv(x))); }
static Real over_pi(Real r) { if (r.k == R_NUM) r.v /= PIq; return r; }
static Real f_acosp(quad x) { return over_pi(f_acos(x)); }
static Real f_asinp(quad x) { return over_pi(f_asin(x)); }
static Real f_atanp(quad x) { return over_pi(f_atan(x)); }
static Real f_acotp(quad x) { return over_pi(f_acot(x)); }
static Real f_acscp(quad x) { return over_pi(f_acsc(x)); }
static Real f_asecp(quad x) { return over_pi(f_asec(x)); }
// accurate inverse hyperbolics
static quad asinh_(quad x) { quad a = fabsq(x), r = a > 1e30Q ? logq(a) + LN2 : a < 1e-30Q ? a : log1pq(a + a * a / (1 + sqrtq(1 + a * a))); return copysignq(r, x); }
static quad atanh_(quad x) { quad a = fabsq(x), r = a < 1e-30Q ? a : log1pq(2 * a / (1 - a)) / 2; return copysignq(r, x); }
static quad acosh_(quad x) { if (x > 1e30Q) return logq(x) + LN2; quad t = x - 1; return log1pq(t + sqrtq(t * (x + 1))); }
static Real f_acosh(quad x) { IF(x < 1); return x == 1 ? RZERO : rnum(acosh_(x)); }
static Real f_acoth(quad x) { IF(fabsq(x) <= 1); quad a = fabsq(x); return rnum(copysignq(a > 1e30Q ? 1 / a : log1pq(2 / (a - 1)) / 2, x)); }
static Real f_acsch(quad x) { IF(x == 0); return rnum(asinh_(inv(x))); }
static Real f_asech(quad x) { IF(x <= 0 || x > 1); if (x == 1) return RZERO; quad t = (1 - x) / x; return rnum(x < 1e-30Q ? LN2 - logq(x) : log1pq(t + sqrtq(t * (t + 2)))); }
static Real f_asinh(quad x) { return rnum(asinh_(x)); }
static Real f_atanh(quad x) { IF(fabsq(x) >= 1); return rnum(atanh_(x)); }
static Real f_cosh(quad x) { return rnum(fabsq(x) > 11000 ? HUGEQ : coshq(x)); }
static Real f_sinh(quad x) { if (x == 0) return RZERO; return rnum(fabsq(x) > 11000 ? copysignq(HUGEQ, x) : sinhq(x)); }
static Real f_tanh(quad x) { if (x == 0) return RZERO; quad a = fabsq(x); quad e = em1(2 * a); return rnum(copysignq(a > 200 ? (quad)1 : e / (e + 2), x)); }
static Real rinv(Real r) { if (r.k == R_ZERO) return RNAR; if (r.k == R_NUM) return rnum(1 / r.v); return r; }
static Real f_coth(quad x) { return rinv(f_tanh(x)); }
static Real f_csch(quad x) { return rinv(f_sinh(x)); }
static Real f_sech(quad x) { return rinv(f_cosh(x)); }
static Real f_inv(quad x) { IF(x == 0); return rnum(inv(x)); }
static Real f_ln(quad x) { IF(x <= 0); return rnum(logq(x)); }
static Real f_lb(quad x) { IF(x <= 0); return rnum(fabsq(x - 1) < 0.25Q ? log1pq(x - 1) / LN2 : log2q(x)); }
static Real f_lg(quad x) { IF(x <= 0); return rnum(logq(x) / LN10); }
static Real f_ln1p(quad x) { IF(x <= -1); return rnum(log1pq(x)); }
static Real f_lb1p(quad x) { IF(x <= -1); return rnum(log1pq(x) / LN2); }
static Real f_lg1p(quad x) { IF(x <= -1); return rnum(log1pq(x) / LN10); }
static Real f_sqrt(quad x) { IF(x < 0); return rnum(sqrtq(x)); }
static Real f_sin(quad x) { return rnum(sinq(x)); }
static Real f_cos(quad x) { return rnum(cosq(x)); }
static Real f_tan(quad x) { return rnum(tanq(x)); }
static Real f_cot(quad x) { IF(x == 0); return rnum(1 / tanq(x)); }
static Real f_sec(quad x) { return rnum(1 / cosq(x)); }
static Real f_csc(quad x) { IF(x == 0); return rnum(1 / sinq(x)); }
// x in half-turns: exact quadrant reduction
static void redpi(quad x, quad &r, int &q)
{
	quad y = fmodq(x, 2); // exact
	quad h = rintq(2 * y); // nearest multiple of 1/2
	r = y - h / 2;         // |r| <= 1/4, exact
	q = ((int)h % 4 + 4) % 4;
}
static quad sinp(quad x) { quad r; int q; redpi(x, r, q); switch (q) { case 0: return sinq(PIq * r); case 1: return cosq(PIq * r); case 2: return -sinq(PIq * r); default: return -cosq(PIq * r); } }
static quad cosp(quad x) { quad r; int q; redpi(x, r, q); switch (q) { case 0: return cosq(PIq * r); case 1: return -sinq(PIq * r); case 2: return -cosq(PIq * r); default: return sinq(PIq * r); } }
static Real f_sinp(quad x) { return rnum(sinp(x)); }
static Real f_cosp(quad x) { return rnum(cosp(x)); }
static Real f_tanp(quad x) { quad c = cosp(x); IF(c == 0); return rnum(sinp(x) / c); }
static Real f_cotp(quad x) { quad s = sinp(x); IF(s == 0); return rnum(cosp(x) / s); }
static Real f_secp(quad x) { quad c = cosp(x); IF(c == 0); return rnum(1 / c); }
static Real f_cscp(quad x) { quad s = sinp(x); IF(s == 0); return rnum(1 / s); }

static const UnFn UNS[] = {
	{"10_raised", f_exp10, 0, 0}, {"10_raised_minus_1", f_exp10m1, 0, 0}, {"2_raised", f_exp2, 0, 0}, {"2_raised_minus_1", f_exp2m1, 0, 0},
	{"absolute", f_abs, 0, 0}, {"sign", f_sign, 0, 1},
	{"arccos", f_acos, 0, 0}, {"arccos_over_pi", f_acosp, 0, 0}, {"arccot", f_acot, 0, 0}, {"arccot_over_pi", f_acotp, 0, 0},
	{"arccsc", f_acsc, 0, 0}, {"arccsc_over_pi", f_acscp, 0, 0}, {"arcosh", f_acosh, 0, 0}, {"arcoth", f_acoth, 0, 0}, {"arcsch", f_acsch, 0, 0},
	{"arcsec", f_asec, 0, 0}, {"arcsec_over_pi", f_asecp, 0, 0}, {"arcsin", f_asin, 0, 0}, {"arcsin_over_pi", f_asinp, 0, 0},
	{"arctan", f_atan, 0, 0}, {"arctan_over_pi", f_atanp, 0, 0}, {"arsech", f_asech, 0, 0}, {"arsinh", f_asinh, 0, 0}, {"artanh", f_atanh, 0, 0},
	{"cos", f_cos, 1, 1}, {"cos_pi_times", f_cosp, 2, 1}, {"cosh", f_cosh, 0, 0}, {"cot", f_cot, 1, 0}, {"cot_pi_times", f_cotp, 2, 0},
	{"coth", f_coth, 0, 0}, {"csc", f_csc, 1, 0}, {"csc_pi_times", f_cscp, 2, 0}, {"csch", f_csch, 0, 0}, {"exp", f_exp, 0, 0},
	{"exp_minus_1", f_expm1, 0, 0}, {"inversion", f_inv, 0, 0}, {"lb", f_lb, 0, 0}, {"lb_1_plus", f_lb1p, 0, 0}, {"lg", f_lg, 0, 0},
	{"lg_1_plus", f_lg1p, 0, 0}, {"ln", f_ln, 0, 0}, {"ln_1_plus", f_ln1p, 0, 0}, {"sec", f_sec, 1, 0}, {"sec_pi_times", f_secp, 2, 0},
	{"sech", f_sech, 0, 1}, {"sin", f_sin, 1, 1}, {"sin_pi_times", f_sinp, 2, 1}, {"sinh", f_sinh, 0, 0}, {"square_root", f_sqrt, 0, 0},
	{"tan", f_tan, 1, 0}, {"tan_pi_times", f_tanp, 2, 0}, {"tanh", f_tanh, 0, 1},
};
const UnFn *ref_un(const std::string &b)
{
	for (auto &u : UNS) if (b == u.name) return &u;
	return nullptr;
}
static bool isint(quad y) { return y == truncq(y); }
static Real f_pow(quad a, quad b)
{
	if (a == 0) return b <= 0 ? RNAR : RZERO;
	if (b == 0) return rnum(1);
	bool neg = false;
	if (a < 0) {
		IF(!isint(b));
		neg = fmodq(fabsq(b), 2) == 1;
	}
	quad la = fabsq(a);
	if (la == 1) return rnum(neg ? -1 : 1);
	quad lg = (fabsq(la - 1) < 0.25Q ? log1pq(la - 1) : logq(la));
	quad e = lg * b;
	quad r = e > 9000 ? HUGEQ : e < -9000 ? TINYQ : powq(la, b);
	return rnum(neg ? -r : r);
}
Real ref_bin(const std::string &f, quad a, quad b)
{
	if (f == "addition") return rnum(a + b);
	if (f == "subtraction") return rnum(a - b);
	if (f == "multiplication") return rnum(a * b);
	if (f == "division") return b == 0 ? RNAR : rnum(a / b);
	if (f == "hypotenuse") return rnum(hypotq(a, b));
	if (f == "arctan2" || f == "arctan2_over_pi") {
		if (b == 0 && a == 0) return RZERO;
		Real r = a == 0 ? (b < 0 ? rnum(PIq) : RZERO) : rnum(atan2q(a, b));
		return f == "arctan2" ? r : over_pi(r);
	}
	if (f == "power") return f_pow(a, b);
	return RNAR;
}
Real ref_int(bool root, int type, const Dec &d, int64_t n)
{
	if (d.k == R_NAR) return RNAR;
	if (root) {
		if (n == 0) return RNAR;
		if (d.k == R_ZERO) return n < 0 ? RNAR : RZERO;
		IF(d.s && n % 2 == 0);
	} else {
		if (d.k == R_ZERO) return n <= 0 ? RNAR : RZERO;
		if (n == 0) return rnum(1);
	}
	bool neg = d.s && (root || n % 2 != 0);
	quad L;
	if (TYPES[type].lin) { quad a = fabsq(d.x); L = 2 * (fabsq(a - 1) < 0.25Q ? log1pq(a - 1) : logq(a)); }
	else L = d.l;
	L = root ? L / (quad)n : L * (quad)n;
	Real r;
	if (TYPES[type].lin && fabsq(L) < 18000) {
		// full relative accuracy for moderate exponents
		quad a = fabsq(d.x);
		quad v = root ? expq(L / 2) : powq(a, (quad)n);
		r = rnum(neg ? -v : v);
	} else {
		r = rnum(L > 18000 ? HUGEQ : L < -18000 ? TINYQ : expq(L / 2));
		if (neg) r.v = -r.v;
	}
	r.hasL = !TYPES[type].lin; r.L = L;
	return r;
}
