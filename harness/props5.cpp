// C30: the library built with other formats of long double, and with x87 arithmetic for float and double.
#include "engine.h"
#include <dlfcn.h>
#include <quadmath.h>
#include <cstdio>
#include <cstdlib>

static Verdict V(Res r, double e = 0) { return {r, -1, e}; }
// to_extended_float in the formats of the two builds
template <class F> static quad tox(const Op &o, int64_t a)
{
	switch (TYPES[o.t].n) {
	case 8: return ((F (*)(int8_t))o.fn)((int8_t)a);
	case 16: return ((F (*)(int16_t))o.fn)((int16_t)a);
	case 32: return ((F (*)(int32_t))o.fn)((int32_t)a);
	default: return ((F (*)(int64_t))o.fn)(a);
	}
}
template <class F> static int64_t fromx(const Op &o, F f)
{
	switch (TYPES[o.t].n) {
	case 8: return ((int8_t (*)(F))o.fn)(f);
	case 16: return ((int16_t (*)(F))o.fn)(f);
	case 32: return ((int32_t (*)(F))o.fn)(f);
	default: return ((int64_t (*)(F))o.fn)(f);
	}
}
static Verdict check_tox(const Op &o, int64_t a, int mant, std::string *why)
{
	quad g = mant == 53 ? tox<double>(o, a) : tox<quad>(o, a);
	Dec d = tk_decode(o.t, a);
	if (why) *why = "got " + qstr(g) + "; true value " + (d.k == R_NAR ? "NaN" : qstr(d.x));
	if (d.k == R_NAR) return V(isnanq(g) ? TRIVIAL : FAIL, 1e9);
	if (isnanq(g)) return V(FAIL, 1e9);
	if (d.k == R_ZERO) return V(g == 0 ? TRIVIAL : FAIL, 1e9);
	if (TYPES[o.t].lin) return V(g == (mant == 53 ? (quad)(double)d.x : d.x) ? PASS : FAIL, 1);
	quad e = fabsq(g / d.x - 1) / (fabsq(d.l) + 2);
	return V(e <= (mant == 53 ? 0x1p-52Q : 0x1p-110Q) ? PASS : FAIL, (double)e);
}
void build_properties5()
{
	Property p;
	p.id = "C30";
	p.quick = 30; p.thorough = 600;
	p.rule = "Arguments from the generators of the accuracy properties, in builds whose long double is IEEE binary64 and binary128, and in one that evaluates float and double in extended precision (FLT_EVAL_METHOD 2); non-trivial: as for the accuracy properties (a nonzero real result strictly inside the dynamic range).";
	static const struct { const char *env, *name; int mant; quad eps; } B[3] = {{"TK_LD53", "long double is binary64", 53, 0x1p-53Q}, {"TK_LD113", "long double is binary128", 113, 0x1p-64Q}, {"TK_X87", "x87 arithmetic", 64, 0x1p-64Q}};
	for (auto &b : B) {
		const char *path = getenv(b.env);
		if (!path) continue;
		void *h = dlopen(path, RTLD_NOW | RTLD_LOCAL);
		if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
		for (auto &o : tk_ops()) {
			if (o.kind == K_PREC) continue;
			bool conv = o.kind == K_CONV, x = (o.kind == K_TOF || o.kind == K_FROMF) && o.t2 == 2 && b.mant != 64;
			if (b.mant == 53 && (TYPES[o.t].n == 64 || (conv && TYPES[o.t2].n == 64))) continue; // announced as not implemented
			Target t;
			Op op = o;
			op.fn = dlsym(h, o.name.c_str());
			if (!op.fn) { fprintf(stderr, "%s: no symbol %s\n", path, o.name.c_str()); exit(2); }
			t.name = o.name + " (" + b.name + ")";
			t.op = tk_find(o.name);
			switch (o.kind) {
			case K_BIN: t.args = {{A_TAKUM, o.t}, {A_TAKUM, o.t}}; break;
			case K_INT: t.args = {{A_TAKUM, o.t}, {A_INT, o.t}}; break;
			case K_CONV: t.args = {{A_TAKUM, o.t2}}; break;
			case K_FROMF: t.args = {{A_FLOAT, o.t2}}; break;
			default: t.args = {{A_TAKUM, o.t}}; break;
			}
			t.exhaustive = o.kind != K_INT && o.kind != K_FROMF;
			t.boundary = o.kind == K_UN;
			int n = TYPES[o.t].n;
			t.weight = n == 8 ? 0.1 : n == 16 ? 0.4 : 1;
			int mant = b.mant;
			quad eps = b.eps;
			t.check = [op, mant, eps, x](const Case &c0, std::string *why) {
				Case c = c0;
				Arg r = {};
				switch (op.kind) {
				case K_UN: r.i = tk_call_un(op, c.a[0].i); break;
				case K_BIN: r.i = tk_call_bin(op, c.a[0].i, c.a[1].i); break;
				case K_INT:
					if (mant == 53 && (quad)(double)c.a[1].i != (quad)c.a[1].i) return V(TRIVIAL); // an integer the format cannot hold
					r.i = tk_call_int(op, c.a[0].i, c.a[1].i); break;
				case K_CONV: r.i = tk_call_conv(op, c.a[0].i); break;
				case K_TOF:
					if (x) return check_tox(op, c.a[0].i, mant, why);
					r.f = tk_call_tof(op, c.a[0].i);
					break;
				case K_FROMF:
					if (x && mant == 53) { c.a[0].f = (double)c.a[0].f; r.i = fromx<double>(op, (double)c.a[0].f); }
					else if (x) r.i = fromx<quad>(op, (quad)c.a[0].f);
					else r.i = tk_call_fromf(op, c.a[0].f);
					break;
				default: return V(TRIVIAL);
				}
				return tk_judge(op, c, r, eps, why);
			};
			p.targets.push_back(t);
		}
	}
	if (!p.targets.empty()) properties().push_back(p);
}
