// C29: the named constants of takum.h.
extern "C" {
#include "takum.h"
}
#include "engine.h"
#include "consts.h"
#include <quadmath.h>
#include <cstdio>

struct Constant { const char *name; quad v; int64_t t[8]; };
#define ROW(N, VAL) {#N, VAL, {TAKUM8_##N, TAKUM16_##N, TAKUM32_##N, TAKUM64_##N, TAKUM_LINEAR8_##N, TAKUM_LINEAR16_##N, TAKUM_LINEAR32_##N, TAKUM_LINEAR64_##N}},
static const Constant CONST[] = { CONSTANTS(ROW) };
static const int NC = sizeof CONST / sizeof *CONST;
void build_properties4()
{
	Property p;
	p.id = "C29";
	p.quick = p.thorough = 0.001;
	p.rule = "Every named constant of every type (all enumerated); all are non-trivial.";
	for (int t = 0; t < 8; t++) {
		Target g;
		int n = TYPES[t].n;
		g.name = std::string(TYPES[t].name) + " constants";
		g.args = {{A_INT, -NC}};
		g.exhaustive = true;
		g.weight = 0;
		g.check = [=](const Case &c, std::string *why) -> Verdict {
			const Constant &k = CONST[c.a[0].i];
			quad pos = tk_pos(t, rnum(k.v)), d = fabsq(pos - (quad)k.t[t]);
			if (d <= (t == 3 ? 0.51Q : 0.5Q)) // takum64: given as the encodings of 80-bit values
				 return {PASS, -1, (double)d};
			if (why) { char b[300]; snprintf(b, sizeof b, "%s is %lld, but its value is at position %s, %.3f units away", k.name, (long long)k.t[t], qstr(pos).c_str(), (double)d); *why = b; }
			return {FAIL, -1, (double)d};
		};
		p.targets.push_back(g);
		// limits: the largest and smallest numbers and NaR, as the model has them
		Target l;
		l.name = std::string(TYPES[t].name) + " limits";
		l.args = {{A_INT, -3}};
		l.exhaustive = true;
		l.weight = 0;
		static const int64_t NAR[8] = {TAKUM8_NAR, TAKUM16_NAR, TAKUM32_NAR, TAKUM64_NAR, TAKUM_LINEAR8_NAR, TAKUM_LINEAR16_NAR, TAKUM_LINEAR32_NAR, TAKUM_LINEAR64_NAR};
		static const int64_t MIN[8] = {TAKUM8_POSITIVE_MINIMUM, TAKUM16_POSITIVE_MINIMUM, TAKUM32_POSITIVE_MINIMUM, TAKUM64_POSITIVE_MINIMUM, TAKUM_LINEAR8_POSITIVE_MINIMUM, TAKUM_LINEAR16_POSITIVE_MINIMUM, TAKUM_LINEAR32_POSITIVE_MINIMUM, TAKUM_LINEAR64_POSITIVE_MINIMUM};
		static const int64_t MAX[8] = {TAKUM8_POSITIVE_MAXIMUM, TAKUM16_POSITIVE_MAXIMUM, TAKUM32_POSITIVE_MAXIMUM, TAKUM64_POSITIVE_MAXIMUM, TAKUM_LINEAR8_POSITIVE_MAXIMUM, TAKUM_LINEAR16_POSITIVE_MAXIMUM, TAKUM_LINEAR32_POSITIVE_MAXIMUM, TAKUM_LINEAR64_POSITIVE_MAXIMUM};
		l.check = [=](const Case &c, std::string *why) -> Verdict {
			int64_t got = c.a[0].i == 0 ? NAR[t] : c.a[0].i == 1 ? MIN[t] : MAX[t], want = c.a[0].i == 0 ? tk_nar(n) : c.a[0].i == 1 ? 1 : tk_max(n);
			if (got == want) return {PASS, -1, 0};
			if (why) *why = "limit " + std::to_string(c.a[0].i) + " (0 NaR, 1 minimum, 2 maximum) is " + std::to_string(got) + " instead of " + std::to_string(want);
			return {FAIL, -1, 1};
		};
		p.targets.push_back(l);
	}
	properties().push_back(p);
}
