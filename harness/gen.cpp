// Generators of arguments: takum bit strings, integers, floats, pairs.
#include "engine.h"
#include <quadmath.h>
#include <cfloat>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

std::vector<int64_t> DICT_INT, NOVEL_INT;
std::vector<ldbl> DICT_FLT, NOVEL_FLT;
std::set<std::string> CHANGED;

uint64_t mix(uint64_t a, uint64_t b)
{
	Rng r(a * 0xd1342543de82ef95ull + b);
	r.next();
	return r.next();
}

// dictionary lines: "i <decimal>" or "f <%La>", prefixed with '+' when the
// literal is not in the committed baseline list; "c <function>": its compiled
// code is not the one in the committed fingerprints
void gen_init()
{
	const char *p = getenv("TK_DICT");
	FILE *f = p ? fopen(p, "r") : nullptr;
	char line[256];
	while (f && fgets(line, sizeof line, f)) {
		char *s = line;
		bool novel = *s == '+';
		if (novel) s++;
		if (*s == 'c') CHANGED.insert(std::string(s + 2, strcspn(s + 2, "\n")));
		else if (*s == 'i') {
			int64_t v = (int64_t)strtoull(s + 2, nullptr, 10);
			if (s[2] == '-') v = strtoll(s + 2, nullptr, 10);
			DICT_INT.push_back(v);
			if (novel) NOVEL_INT.push_back(v);
		} else if (*s == 'f') {
			ldbl v = strtold(s + 2, nullptr);
			DICT_FLT.push_back(v);
			if (novel) NOVEL_FLT.push_back(v);
		}
	}
	if (f) fclose(f);
	if (const char *c = getenv("TK_CHANGED")) // soak runs: treat the functions with this in their name as changed
		for (auto &o : tk_ops()) if (o.name.find(c) != std::string::npos) CHANGED.insert(o.name);
	if (DICT_INT.empty()) DICT_INT.push_back(1);
	if (DICT_FLT.empty()) DICT_FLT.push_back(1);
}

static int64_t small_delta(Rng &r)
{
	switch (r.below(6)) {
	case 0: case 1: return 0;
	case 2: case 3: return (int64_t)r.below(5) - 2;
	case 4: return (int64_t)r.below(65) - 32;
	default: return (r.one_in(2) ? -1 : 1) * (int64_t)(r.next() >> (1 + r.below(63)));
	}
}
static int64_t from_quad(int type, quad v)
{
	return tk_encode(type, rnum(v));
}
static quad interesting_real(Rng &r)
{
	quad v;
	switch (r.below(12)) {
	case 0: v = (quad)r.range(1, 30); break;
	case 1: v = (quad)r.range(1, 200) * M_PIq / 2; break;
	case 2: v = (quad)r.range(1, 4000) / 2; break;
	case 3: v = ldexpq(1, (int)r.range(-260, 260)); break;
	case 4: v = powq(10, (quad)r.range(-80, 80)); break;
	case 5: v = 1 / (quad)r.range(1, 1000); break;
	case 6: v = expq((quad)r.range(-256, 256) / 2); break;
	case 7: { // integers and half-integers of any magnitude
		int sh = (int)r.below(63);
		v = (quad)(int64_t)(r.next() >> (1 + sh));
		if (r.one_in(3)) v += 0.5Q;
		break;
	}
	case 8: v = floorq((quad)(int64_t)(r.next() >> r.range(20, 62))) * M_PIq / 2; break;
	case 9: v = 1 + (r.one_in(2) ? -1 : 1) * ldexpq(1, -(int)r.below(62)); break;
	case 10: v = (quad)r.range(1, 48) / (quad)r.range(1, 48); break;
	default: v = ldexpq((quad)r.range(1, 4095), (int)r.range(-240, 230)); break;
	}
	return r.one_in(2) ? -v : v;
}
// position in the ring from a value of the logarithm (log types) or c+m (linear)
static int64_t from_l(int type, bool s, quad l)
{
	int64_t p = tk_round(type, tk_pos_log(TYPES[type].n, false, l)); // same layout for both families
	return s ? tk_neg(TYPES[type].n, p) : p;
}
static uint64_t pattern(Rng &r)
{
	switch (r.below(9)) {
	case 0: case 1: case 2: return r.next();
	case 3: return 0;
	case 4: return ~0ull;
	case 5: return 1ull << r.below(64);
	case 6: return ~0ull << r.below(64);
	case 7: return (~0ull << r.below(64)) ^ (~0ull << r.below(64));
	default: return r.next() & r.next() & r.next();
	}
}
static int64_t structured(Rng &r, int n)
{
	uint64_t sdr = r.below(32), u = sdr << 59;
	int rr = (sdr & 8) ? (int)(sdr & 7) : 7 - (int)(sdr & 7);
	uint64_t c = r.one_in(4) ? (r.one_in(2) ? 0 : ~0ull) : r.next();
	if (rr) u |= (c >> (64 - rr)) << (59 - rr);
	int p = n - 5 - rr;
	if (p > 0) {
		uint64_t m = pattern(r);
		// keep the pattern aligned to the low or to the high end of the mantissa
		m = r.one_in(2) ? m & ((1ull << p) - 1) : m >> (64 - p);
		u |= m << (64 - n);
	}
	return (int64_t)u >> (64 - n);
}
static int64_t dict_takum(Rng &r, int type, bool novel)
{
	int n = TYPES[type].n;
	bool useint = r.below(3) != 0;
	if (novel) {
		if (NOVEL_INT.empty()) useint = false;
		else if (NOVEL_FLT.empty()) useint = true;
	}
	if (useint) {
		const std::vector<int64_t> &D = novel ? NOVEL_INT : DICT_INT;
		int64_t d = D[r.below(D.size())];
		switch (r.below(9)) {
		case 0: case 1: break;                                    // raw bits
		case 2: d = -d; break;
		case 3: { int k = r.below(64); d = (int64_t)((uint64_t)d << k); break; }
		case 4: d = d >> (int)r.below(64); break;
		case 5: return tk_wrap(n, from_quad(type, (quad)d) + small_delta(r) / (r.one_in(2) ? 1 : 8));  // as a value
		case 6: return tk_wrap(n, from_l(type, r.one_in(2), (quad)d) + small_delta(r));  // as l
		case 7: { // d in some bits, the rest random
			if (r.one_in(3)) { // as a mask: its bits zero, one or those of another literal
				const std::vector<int64_t> &E = NOVEL_INT.empty() || r.one_in(4) ? DICT_INT : NOVEL_INT;
				uint64_t m = (uint64_t)d, v = r.one_in(2) ? (uint64_t)E[r.below(E.size())] : r.one_in(2) ? 0 : ~0ull;
				if (r.one_in(4)) m = ~m;
				int k = r.one_in(3) && n == 64 ? (r.one_in(2) ? 32 : 48) : 0; // literals of narrow types in wide ones
				return tk_wrap(n, (r.next() & ~(m << k)) | ((v & m) << k));
			}
			int w = 64 - __builtin_clzll((uint64_t)(d < 0 ? ~d : d) | 1);
			int k = w < n ? (int)r.below(n - w + 1) : 0;
			uint64_t mask = (w >= 63 ? ~0ull : (1ull << w) - 1) << k;
			d = (int64_t)((r.next() & ~mask) | (((uint64_t)d << k) & mask));
			return tk_wrap(n, d);
		}
		default: // multiples of d
			if (d == 0) break;
			{ quad q = floorq(ldexpq((quad)(int64_t)(r.next() >> 1), n - 64) / (quad)d); d = (int64_t)(q * d); if (r.one_in(2)) d = -d; }
			break;
		}
		int64_t dd = r.one_in(3) ? 0 : r.range(-2, 2);
		return tk_wrap(n, (uint64_t)d + (uint64_t)dd);
	}
	const std::vector<ldbl> &D = novel ? NOVEL_FLT : DICT_FLT;
	ldbl f = D[r.below(D.size())];
	if (!std::isfinite(f)) return tk_nar(n);
	if (r.one_in(2)) f = -f;
	if (r.one_in(4)) f = 1 / f;
	int64_t t;
	if (r.one_in(4) && fabsl(f) < 300) t = from_l(type, r.one_in(2), (quad)f);
	else t = from_quad(type, (quad)f);
	return tk_wrap(n, (uint64_t)t + (uint64_t)small_delta(r));
}
int64_t gen_takum(Rng &r, int type, const std::vector<int64_t> *bnd)
{
	int n = TYPES[type].n;
	if ((!NOVEL_INT.empty() || !NOVEL_FLT.empty()) && r.one_in(6)) return dict_takum(r, type, true);
	switch (r.below(16)) {
	case 0: case 1: return tk_wrap(n, r.next());
	case 2: case 3: case 4: return structured(r, n);
	case 5: { // near the special strings
		int64_t base[] = {0, tk_nar(n), tk_one(n), -tk_one(n), tk_max(n), 1};
		return tk_wrap(n, (uint64_t)base[r.below(6)] + (uint64_t)small_delta(r));
	}
	case 6: { // around 1 at every scale
		int64_t d = (int64_t)(r.next() >> 1) >> (64 - n) >> r.below(n);
		int64_t v = tk_one(n) + (r.one_in(2) ? -d : d);
		return tk_wrap(n, r.one_in(2) ? v : (uint64_t)0 - (uint64_t)v);
	}
	case 7: case 8: return tk_wrap(n, (uint64_t)from_quad(type, interesting_real(r)) + (uint64_t)(r.one_in(3) ? 0 : r.range(-2, 2)));
	case 9: { // a narrow string widened, possibly displaced to a tie or next to it
		int w = 4 + (int)r.below(n - 3);
		if (r.one_in(2)) { int ws[] = {8, 16, 32}; w = ws[r.below(3)]; if (w > n) w = n; }
		uint64_t v = r.one_in(2) ? r.next() << (64 - w) : (uint64_t)structured(r, w) << (64 - w);
		if (w < n && r.one_in(2)) v += 1ull << (63 - w);
		return tk_wrap(n, (uint64_t)((int64_t)v >> (64 - n)) + (uint64_t)(r.one_in(2) ? 0 : r.range(-1, 1)));
	}
	case 10: return dict_takum(r, type, false);
	case 11: case 12:
		if (bnd && !bnd->empty()) return tk_wrap(n, (uint64_t)(*bnd)[r.below(bnd->size())] + (uint64_t)small_delta(r));
		return tk_wrap(n, r.next());
	case 13: { // moderate magnitudes, where most functions have their structure
		quad v = expq(((quad)(int64_t)r.next()) * 0x1p-63Q * (quad)r.range(1, 8));
		return from_quad(type, r.one_in(2) ? -v : v);
	}
	case 14: return tk_wrap(n, pattern(r));
	default: return structured(r, n);
	}
}
int64_t gen_int(Rng &r, int type)
{
	(void)type;
	if (!NOVEL_INT.empty() && r.one_in(8)) return NOVEL_INT[r.below(NOVEL_INT.size())] + r.range(-2, 2);
	switch (r.below(10)) {
	case 0: case 1: case 2: return r.range(-12, 12);
	case 3: return r.range(-300, 300);
	case 4: { // powers of two and neighbours
		uint64_t v = 1ull << r.below(64);
		v += (uint64_t)r.range(-2, 2);
		return (int64_t)(r.one_in(2) ? v : (uint64_t)0 - v);
	}
	case 5: { int64_t s[] = {INT64_MIN, INT64_MIN + 1, INT64_MAX, INT64_MAX - 1, INT32_MIN, INT32_MAX, -1, 1, 0, (int64_t)UINT32_MAX};
		return s[r.below(10)]; }
	case 6: case 7: return (int64_t)r.next() >> r.below(64);
	case 8: { int64_t d = DICT_INT[r.below(DICT_INT.size())]; return (int64_t)((uint64_t)d + (uint64_t)r.range(-1, 1)); }
	default: { int64_t d = (int64_t)(r.next() >> 1) >> r.below(62); return (r.one_in(2) ? -1 : 1) * (d | 1); }
	}
}
static ldbl float_step(ldbl v, int kind, int k)
{
	if (kind == 0) { float x = (float)v; for (; k > 0; k--) x = nextafterf(x, INFINITY); for (; k < 0; k++) x = nextafterf(x, -INFINITY); return x; }
	if (kind == 1) { double x = (double)v; for (; k > 0; k--) x = nextafter(x, INFINITY); for (; k < 0; k++) x = nextafter(x, -INFINITY); return x; }
	for (; k > 0; k--) v = nextafterl(v, INFINITY);
	for (; k < 0; k++) v = nextafterl(v, -INFINITY);
	return v;
}
ldbl gen_float(Rng &r, int kind)
{
	ldbl v;
	if ((!NOVEL_FLT.empty() || !NOVEL_INT.empty()) && r.one_in(8)) {
		if (NOVEL_FLT.empty() || (!NOVEL_INT.empty() && r.one_in(2))) v = (ldbl)NOVEL_INT[r.below(NOVEL_INT.size())];
		else v = NOVEL_FLT[r.below(NOVEL_FLT.size())];
		if (r.one_in(4)) v = 1 / v;
		goto nudge;
	}
	switch (r.below(12)) {
	case 0: case 1: case 2: case 3: { // structured mantissa and exponent
		uint64_t m = pattern(r);
		if (kind == 0) m &= ~0ull << 40;
		else if (kind == 1) m &= ~0ull << 11;
		m |= 1ull << 63;
		int e = r.below(3) ? (int)r.range(-260, 258) : r.one_in(2) ? (int)r.range(-20, 20) : (int)r.range(-16500, 16500);
		if (kind == 0 && (e < -149 || e > 127)) e = (int)r.range(-149, 127);
		if (kind == 1 && (e < -1074 || e > 1023)) e = (int)r.range(-1074, 1023);
		v = ldexpl((ldbl)m, e - 63);
		break;
	}
	case 4: { // raw bits of the type
		uint64_t b = r.next();
		if (kind == 0) { float x; uint32_t w = (uint32_t)b; memcpy(&x, &w, 4); v = x; }
		else if (kind == 1) { double x; memcpy(&x, &b, 8); v = x; }
		else { v = ldexpl((ldbl)(b | 1ull << 63), (int)r.range(-16445, 16383) - 63); }
		break;
	}
	case 5: {
		ldbl s[] = {0.0L, -0.0L, INFINITY, -INFINITY, NAN, LDBL_MAX, LDBL_MIN, FLT_MAX, DBL_MAX, FLT_MIN, DBL_MIN, 1.0L, -1.0L,
			FLT_TRUE_MIN, DBL_TRUE_MIN, LDBL_TRUE_MIN, -LDBL_MAX, -LDBL_TRUE_MIN, -DBL_TRUE_MIN, -FLT_TRUE_MIN};
		v = s[r.below(20)];
		break;
	}
	case 6: case 7: case 8: { // the values of takums, and the midpoints between them
		int t = (int)r.below(8);
		Dec d = tk_decode(t, gen_takum(r, t, nullptr));
		if (d.k != R_NUM) v = d.k == R_ZERO ? 0 : NAN;
		else v = (ldbl)d.x;
		if (d.k == R_NUM && r.one_in(2)) { // midpoint towards the next string: decode with one more bit
			int w = TYPES[t].n;
			if (w < 64) {
				int t64 = TYPES[t].lin ? 7 : 3;
				uint64_t u = ((uint64_t)gen_takum(r, t, nullptr) << (64 - w)) + (1ull << (63 - w));
				Dec e = tk_decode(t64, (int64_t)u);
				if (e.k == R_NUM) v = (ldbl)e.x;
			}
		}
		break;
	}
	case 9: v = DICT_FLT[r.below(DICT_FLT.size())]; if (r.one_in(4)) v = 1 / v; break;
	case 10: v = (ldbl)interesting_real(r); break;
	default: { // edges of the dynamic ranges
		quad e[] = {expq(127.5Q), expq(-127.5Q), ldexpq(1, 255), ldexpq(1, -255), ldexpq(1, 254), ldexpq(1, -254), expq(127), expq(-127), (quad)FLT_MAX, ldexpq(1, -126)};
		v = (ldbl)(e[r.below(10)] * (1 + (quad)r.range(-64, 64) * ldexpq(1, -(int)r.below(64))));
		break;
	}
	}
	if (r.one_in(2)) v = -v;
nudge:
	// the nearest floats of the right type, a few ulps around
	return float_step(v, kind, r.one_in(2) ? 0 : (int)r.range(-3, 3));
}
// mantissas of w bits: zero, each single bit, runs of ones from either end
static uint64_t simple_mantissa(int w, int j)
{
	uint64_t all = w >= 64 ? ~0ull : (1ull << w) - 1;
	if (j == 0) return 0;
	j--;
	if (j < w) return 1ull << j;
	j -= w;
	if (j < w) return (~0ull << j) & all;
	j -= w;
	return (1ull << j) - 1;
}
static const int FBITS[] = {23, 52, 63}, FMIN[] = {-149, -280, -280}, FMAX[] = {127, 280, 280};
uint64_t lattice_size(const ArgSpec &a)
{
	if (a.kind == A_TAKUM && TYPES[a.t].n >= 32) return 2 * 510 * (3ull * (TYPES[a.t].n - 5) + 1);
	if (a.kind == A_FLOAT) return 2ull * (FMAX[a.t] - FMIN[a.t] + 1) * (3ull * FBITS[a.t] + 1);
	return 0;
}
void lattice_arg(const ArgSpec &a, uint64_t i, Arg &v)
{
	bool neg = i & 1;
	i >>= 1;
	if (a.kind == A_TAKUM) {
		int n = TYPES[a.t].n, k = (int)(i % 510), rr = 0;
		bool up = k >= 255;     // the direction bit
		if (up) k -= 255;
		while (k >= 1 << rr) k -= 1 << rr++;
		int p = n - 5 - rr;
		uint64_t m = simple_mantissa(n - 5, (int)(i / 510)) & ((1ull << p) - 1);
		uint64_t u = (uint64_t)(up ? 8 + rr : 7 - rr) << (n - 5) | (uint64_t)k << p | m;
		v.i = neg ? tk_neg(n, tk_wrap(n, u)) : tk_wrap(n, u);
	} else {
		int span = FMAX[a.t] - FMIN[a.t] + 1, e = FMIN[a.t] + (int)(i % span);
		uint64_t m = simple_mantissa(FBITS[a.t], (int)(i / span)) | 1ull << FBITS[a.t];
		v.f = ldexpl((ldbl)m, e - FBITS[a.t]);
		if (a.t == 0) v.f = (ldbl)(float)v.f;
		if (neg) v.f = -v.f;
	}
}
void gen_pair(Rng &r, const Op *op, int type, int64_t &a, int64_t &b, const std::vector<int64_t> *bnd)
{
	int n = TYPES[type].n;
	a = gen_takum(r, type, bnd);
	switch (r.below(14)) {
	case 0: b = a; break;
	case 1: b = tk_neg(n, a); break;
	case 2: b = tk_wrap(n, (uint64_t)a + (uint64_t)small_delta(r)); break;
	case 3: b = tk_wrap(n, (uint64_t)tk_neg(n, a) + (uint64_t)small_delta(r)); break;
	case 4: { // reciprocal
		Dec d = tk_decode(type, a);
		b = d.k == R_NUM ? from_quad(type, 1 / d.x) : 0;
		b = tk_wrap(n, (uint64_t)b + (uint64_t)small_delta(r));
		break;
	}
	case 5: { // shared low or high bits
		int k = (int)r.below(n);
		uint64_t m = (1ull << k) - 1;
		if (r.one_in(2)) m = ~m;
		b = tk_wrap(n, ((uint64_t)a & m) | (r.next() & ~m));
		break;
	}
	case 6: { // a controlled magnitude gap
		Dec d = tk_decode(type, a);
		quad v = d.k == R_NUM ? d.x * ldexpq(1 + (quad)(r.next() >> 1) * 0x1p-63Q, (int)r.range(-70, 70)) : 1;
		b = from_quad(type, r.one_in(2) ? -v : v);
		break;
	}
	case 7: case 8: case 9: { // choose the result, solve for b
		int64_t t = gen_takum(r, type, nullptr);
		Dec d = tk_decode(type, a), e = tk_decode(type, t);
		if (r.one_in(3)) { // extreme results
			int64_t s[] = {tk_max(n), 1, tk_one(n), -tk_one(n), -tk_max(n), -1};
			t = s[r.below(6)]; e = tk_decode(type, t);
		}
		b = gen_takum(r, type, bnd);
		if (d.k != R_NUM || e.k != R_NUM || !op) break;
		const std::string &f = op->base;
		quad v = 0;
		// aim half-way to a neighbouring result now and then
		if (r.one_in(2)) { Dec g = tk_decode(type, tk_wrap(n, (uint64_t)t + 1)); if (g.k == R_NUM) e.x = (e.x + g.x) / 2; }
		if (f == "addition") v = e.x - d.x;
		else if (f == "subtraction") v = d.x - e.x;
		else if (f == "multiplication") v = e.x / d.x;
		else if (f == "division") v = d.x / e.x;
		else if (f == "hypotenuse") { quad q = e.x * e.x - d.x * d.x; v = q > 0 ? sqrtq(q) : 0; }
		else if (f == "power") { quad q = logq(fabsq(d.x)); v = q != 0 ? logq(fabsq(e.x)) / q : 0; if (r.one_in(3)) v = rintq(v); }
		else if (f == "arctan2") { v = fabsq(e.x) < 3.15Q ? d.x / tanq(e.x) : d.x; }
		else if (f == "arctan2_over_pi") { v = fabsq(e.x) < 1 ? d.x / tanq(M_PIq * e.x) : d.x; }
		if (isnanq(v) || v == 0) break;
		b = tk_wrap(n, (uint64_t)from_quad(type, v) + (uint64_t)(r.one_in(3) ? 0 : small_delta(r)));
		break;
	}
	case 10: { // small integers and halves as the second argument
		quad v = (quad)r.range(-40, 40);
		if (r.one_in(3)) v /= 2;
		if (r.one_in(6)) v = 1 / (v == 0 ? 1 : v);
		b = from_quad(type, v);
		if (r.one_in(4)) a = tk_neg(n, a < 0 ? tk_neg(n, a) : a);
		break;
	}
	default: b = gen_takum(r, type, bnd); break;
	}
	if (r.one_in(3)) { int64_t t = a; a = b; b = t; }
}
// the value of a takum of the type, or the point half-way to the next string
static bool value_or_tie(Rng &r, int type, quad &v)
{
	int n = TYPES[type].n;
	int64_t z = gen_takum(r, type, nullptr);
	Dec d;
	if (r.one_in(3)) d = tk_decode(type, z);
	else if (n < 64) d = tk_decode(TYPES[type].lin ? 7 : 3, (int64_t)(((uint64_t)z << (64 - n)) + (1ull << (63 - n))));
	else {
		d = tk_decode(type, z);
		Dec e = tk_decode(type, tk_wrap(n, (uint64_t)z + 1));
		if (d.k == R_NUM && e.k == R_NUM) d.x = (d.x + e.x) / 2;
	}
	v = d.x;
	return d.k == R_NUM;
}
// conversions: arguments at, or right next to, the values of the target and
// the points where its rounding decides
static bool gen_conversion(Rng &r, const Op &op, Case &c)
{
	quad v;
	int64_t near = r.one_in(3) ? 0 : r.one_in(2) ? r.range(-2, 2) : r.range(-40, 40);
	if (op.kind == K_TOF) {
		ldbl f = float_step(gen_float(r, r.one_in(2) ? op.t2 : (int)r.below(3)), op.t2, 0), g = float_step(f, op.t2, 1);
		if (!std::isfinite(f) || !std::isfinite(g)) return false;
		v = r.one_in(3) ? (quad)f : ((quad)f + (quad)g) / 2;
		c.a[0].i = tk_wrap(TYPES[op.t].n, (uint64_t)from_quad(op.t, v) + (uint64_t)near);
		return true;
	}
	if (op.kind == K_CONV) {
		if (!value_or_tie(r, op.t, v)) return false;
		c.a[0].i = tk_wrap(TYPES[op.t2].n, (uint64_t)from_quad(op.t2, v) + (uint64_t)near);
		return true;
	}
	if (op.kind == K_FROMF) {
		if (!value_or_tie(r, op.t, v)) return false;
		c.a[0].f = float_step((ldbl)v, op.t2, r.one_in(2) ? 0 : (int)r.range(-3, 3));
		return true;
	}
	return false;
}
void gen_default(Rng &r, const Target &t, Case &c)
{
	c = Case{};
	if (t.op && t.op->kind >= K_FROMF && r.one_in(4) && gen_conversion(r, *t.op, c)) return;
	if (t.args.size() == 2 && t.args[0].kind == A_TAKUM && t.args[1].kind == A_TAKUM && t.args[0].t == t.args[1].t) {
		gen_pair(r, t.op, t.args[0].t, c.a[0].i, c.a[1].i, &t.bnd);
		return;
	}
	for (size_t i = 0; i < t.args.size(); i++) {
		const ArgSpec &s = t.args[i];
		if (s.kind == A_TAKUM) c.a[i].i = gen_takum(r, s.t, &t.bnd);
		else if (s.kind == A_INT) c.a[i].i = gen_int(r, s.t);
		else c.a[i].f = gen_float(r, s.t);
	}
	// powers and roots: aim n at the point where the result saturates or reaches 1
	if (t.args.size() == 2 && t.args[0].kind == A_TAKUM && t.args[1].kind == A_INT && r.one_in(4)) {
		Dec d = tk_decode(t.args[0].t, c.a[0].i);
		if (d.k != R_NUM) return;
		quad l = TYPES[t.args[0].t].lin ? logq(fabsq(d.x)) : d.l / 2;
		if (l == 0) return;
		int64_t w = gen_takum(r, t.args[0].t, nullptr);
		Dec e = tk_decode(t.args[0].t, r.one_in(2) ? w : r.one_in(2) ? 1 : tk_max(TYPES[t.args[0].t].n));
		if (e.k != R_NUM) return;
		quad le = TYPES[t.args[0].t].lin ? logq(fabsq(e.x)) : e.l / 2;
		quad q = t.op && t.op->base == "root" ? (le == 0 ? 0 : l / le) : le / l;
		if (fabsq(q) < 9e18Q) c.a[1].i = (int64_t)q + r.range(-2, 2);
	}
}
// ------------------------------------------------------- boundary points
// arguments at which the class of the true result changes: NaR or not, zero,
// sign, saturation, regime
static int classify(const Op &op, const UnFn *u, int64_t a, int64_t &t)
{
	Dec d = tk_decode(op.t, a);
	Real r = d.k == R_NAR ? RNAR : u->f(d.x);
	if (r.k == R_NAR) return -1;
	if (r.k == R_ZERO) return -2;
	int n = TYPES[op.t].n;
	quad p = tk_pos(op.t, r);
	t = tk_round(op.t, p);
	if (t == tk_max(n)) return -3;
	if (t == 1) return -4;
	if (t == -1) return -5;
	if (t == -tk_max(n)) return -6;
	return (int)(((uint64_t)t >> (n - 5)) & 31);
}
// literals that are new in the tree, as levels of the result: where the true
// result crosses one of them the class changes as well
static std::vector<int64_t> result_levels(int type)
{
	std::vector<int64_t> out;
	int n = TYPES[type].n;
	auto add = [&](int64_t t) { out.push_back(t); out.push_back(tk_neg(n, t)); };
	for (ldbl f : NOVEL_FLT) {
		if (!std::isfinite(f) || f == 0) continue;
		add(from_quad(type, (quad)f));
		add(from_quad(type, 1 / (quad)f));
		if (fabsl(f) < 127) add(from_l(type, false, (quad)f));
	}
	for (int64_t d : NOVEL_INT) add(tk_wrap(n, (uint64_t)d));
	std::sort(out.begin(), out.end());
	out.erase(std::unique(out.begin(), out.end()), out.end());
	if (out.size() > 200) out.resize(200);
	return out;
}
std::vector<int64_t> boundary_points(const Op &op, int G)
{
	std::vector<int64_t> out;
	const std::vector<int64_t> levels = result_levels(op.t);
	auto classify = [&](const Op &o, const UnFn *f, int64_t a) {
		int64_t t = 0;
		int c = ::classify(o, f, a, t);
		if (levels.empty() || c == -1) return c;
		return c * 512 + (int)(std::upper_bound(levels.begin(), levels.end(), t) - levels.begin());
	};
	const UnFn *u = op.kind == K_UN ? ref_un(op.base) : nullptr;
	int n = TYPES[op.t].n;
	if (!u || n < 32) return out;
	quad step = ldexpq(1, n) / G;
	int64_t prev = tk_nar(n) + 1;
	int pc = classify(op, u, prev);
	for (int g = 1; g <= G; g++) {
		int64_t cur = g == G ? tk_max(n) : (int64_t)((quad)tk_nar(n) + step * g);
		int cc = classify(op, u, cur);
		if (cc != pc) {
			int64_t lo = prev, hi = cur;
			while ((quad)hi - lo > 1) {
				int64_t mid = lo + (int64_t)(((uint64_t)hi - (uint64_t)lo) / 2);
				if (classify(op, u, mid) == pc) lo = mid; else hi = mid;
			}
			out.push_back(lo);
			out.push_back(hi);
		}
		prev = cur;
		pc = cc;
	}
	return out;
}
