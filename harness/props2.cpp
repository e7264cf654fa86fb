// C25 sanitizer runs, C28 build configurations.
#include "engine.h"
#include <dlfcn.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>

static Verdict V(Res r, double e = 0) { return {r, -1, e}; }
static void call_args(const Op &o, std::vector<ArgSpec> &a)
{
	switch (o.kind) {
	case K_UN: case K_TOF: case K_PREC: a = {{A_TAKUM, o.t}}; break;
	case K_BIN: a = {{A_TAKUM, o.t}, {A_TAKUM, o.t}}; break;
	case K_INT: a = {{A_TAKUM, o.t}, {A_INT, o.t}}; break;
	case K_CONV: a = {{A_TAKUM, o.t2}}; break;
	case K_FROMF: a = {{A_FLOAT, o.t2}}; break;
	}
}
static Arg call(const Op &o, const Case &c)
{
	Arg r = {};
	switch (o.kind) {
	case K_UN: r.i = tk_call_un(o, c.a[0].i); break;
	case K_TOF: r.f = tk_call_tof(o, c.a[0].i); break;
	case K_PREC: r.i = tk_call_prec(o, c.a[0].i); break;
	case K_BIN: r.i = tk_call_bin(o, c.a[0].i, c.a[1].i); break;
	case K_INT: r.i = tk_call_int(o, c.a[0].i, c.a[1].i); break;
	case K_CONV: r.i = tk_call_conv(o, c.a[0].i); break;
	case K_FROMF: r.i = tk_call_fromf(o, c.a[0].f); break;
	}
	return r;
}
static bool special(const Op &o, const Case &c)
{
	std::vector<ArgSpec> a;
	call_args(o, a);
	for (size_t k = 0; k < a.size(); k++) {
		if (a[k].kind == A_FLOAT) { if (!std::isfinite(c.a[k].f)) return true; }
		else if (a[k].kind == A_TAKUM && c.a[k].i == tk_nar(TYPES[a[k].t].n)) return true;
	}
	return false;
}
static void build_c25(std::vector<Property> &PR)
{
	Property p;
	p.id = "C25";
	p.quick = 60; p.thorough = 2500;
	p.rule = "Every public function with generated arguments in a build with address and undefined-behaviour sanitizers (float-cast-overflow included), any report ends the run; non-trivial: no NaR, NaN or infinite argument.";
	for (auto &o : tk_ops()) {
		Target t;
		Op op = o;
		t.name = o.name;
		t.op = tk_find(o.name);
		call_args(o, t.args);
		t.exhaustive = true;
		t.boundary = o.kind == K_UN;
		int n = TYPES[t.args[0].kind == A_FLOAT ? 3 : t.args[0].t].n;
		t.weight = n == 8 ? 0.3 : n == 16 ? 0.6 : 1;
		t.check = [op](const Case &c, std::string *) {
			volatile Arg r = call(op, c);
			(void)r;
			return V(special(op, c) ? TRIVIAL : PASS);
		};
		p.targets.push_back(t);
	}
	PR.push_back(p);
}
static void build_c28(std::vector<Property> &PR)
{
	Property p;
	p.id = "C28";
	p.quick = 30; p.thorough = 800;
	p.rule = "Every public function with generated arguments, the shipped configuration against shared objects built from the same sources with other compilers, optimisation levels and initial values of automatic variables; results must be bit-identical; non-trivial: no NaR, NaN or infinite argument.";
	struct Var { std::string path; void *h; };
	static std::vector<Var> vars;
	if (const char *e = getenv("TK_VARIANTS")) {
		std::string s = e;
		while (!s.empty()) {
			size_t q = s.find(':');
			std::string f = s.substr(0, q);
			s = q == std::string::npos ? "" : s.substr(q + 1);
			void *h = dlopen(f.c_str(), RTLD_NOW | RTLD_LOCAL);
			if (!h) { fprintf(stderr, "dlopen: %s\n", dlerror()); exit(2); }
			vars.push_back({f, h});
		}
	}
	if (vars.empty()) return;
	for (auto &o : tk_ops()) {
		Target t;
		Op op = o;
		std::vector<Op> alt;
		for (auto &v : vars) {
			Op a = o;
			a.fn = dlsym(v.h, o.name.c_str());
			if (!a.fn) { fprintf(stderr, "%s: no symbol %s\n", v.path.c_str(), o.name.c_str()); exit(2); }
			alt.push_back(a);
		}
		t.name = o.name;
		t.op = tk_find(o.name);
		call_args(o, t.args);
		t.exhaustive = true;
		t.boundary = o.kind == K_UN;
		int n = TYPES[t.args[0].kind == A_FLOAT ? 3 : t.args[0].t].n;
		t.weight = n == 8 ? 0.3 : n == 16 ? 0.6 : 1;
		t.check = [op, alt](const Case &c, std::string *why) {
			Arg r = call(op, c);
			for (size_t i = 0; i < alt.size(); i++) {
				Arg q = call(alt[i], c);
				if (q.i == r.i && (q.f == r.f || (std::isnan(q.f) && std::isnan(r.f)))) continue;
				if (why) {
					char b[300];
					if (op.kind == K_TOF) snprintf(b, sizeof b, "%La, but %La when built as %s", r.f, q.f, vars[i].path.c_str());
					else snprintf(b, sizeof b, "%lld, but %lld when built as %s", (long long)r.i, (long long)q.i, vars[i].path.c_str());
					*why = b;
				}
				return V(FAIL, 1);
			}
			return V(special(op, c) ? TRIVIAL : PASS);
		};
		p.targets.push_back(t);
	}
	PR.push_back(p);
}
void build_properties2()
{
	build_c25(properties());
	build_c28(properties());
}
