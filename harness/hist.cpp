// C24: results depend on nothing but the arguments.  Stateful testing: a case
// is a generated history of library calls; the same calls are made in several
// processes in different orders, environments and threads and must agree.
#include "engine.h"
#include <quadmath.h>
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cfenv>
#include <climits>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <pthread.h>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <xmmintrin.h>

int known_index(const char *) { return 0; }
bool known_enabled(const char *) { return false; }
std::vector<Property> &properties() { static std::vector<Property> p; return p; }
uint64_t Target::space() const { return 0; }

struct Call { int op; int64_t a, b; ldbl f; uint32_t reps; };
struct Out { int64_t i; ldbl f; };
typedef std::vector<Call> Hist;
enum Mode { SEQ, THR };
static const size_t MAXCALLS = 8192;
static const int MAXTHR = 6;
static const std::vector<Op> *OPS;

static Out do_call(const Call &c)
{
	const Op &o = (*OPS)[c.op];
	Out r = {0, 0};
	switch (o.kind) {
	case K_UN: r.i = tk_call_un(o, c.a); break;
	case K_TOF: r.f = tk_call_tof(o, c.a); break;
	case K_PREC: r.i = tk_call_prec(o, c.a); break;
	case K_BIN: r.i = tk_call_bin(o, c.a, c.b); break;
	case K_INT: r.i = tk_call_int(o, c.a, c.b); break;
	case K_CONV: r.i = tk_call_conv(o, c.a); break;
	case K_FROMF: r.i = tk_call_fromf(o, c.f); break;
	}
	return r;
}
static bool same(const Out &x, const Out &y)
{
	return x.i == y.i && ((x.f == y.f && std::signbit(x.f) == std::signbit(y.f)) || (std::isnan(x.f) && std::isnan(y.f)));
}
static std::string ftext(ldbl f)
{
	char b[64];
	uint64_t lo; uint16_t hi;
	memcpy(&lo, &f, 8); memcpy(&hi, (const char *)&f + 8, 2);
	snprintf(b, sizeof b, "f:%04x%016llx", hi, (unsigned long long)lo);
	return b;
}
static std::string ctext(const Call &c)
{
	const Op &o = (*OPS)[c.op];
	std::string s = o.name + " ";
	if (o.kind == K_FROMF) s += ftext(c.f);
	else s += std::to_string(c.a);
	if (o.kind == K_BIN || o.kind == K_INT) s += " " + std::to_string(c.b);
	if (c.reps > 1) s += " x" + std::to_string(c.reps);
	return s;
}
static std::string otext(const Out &o, const Call &c)
{
	char b[64];
	if ((*OPS)[c.op].kind == K_TOF) { snprintf(b, sizeof b, "%La", o.f); return b; }
	return std::to_string(o.i);
}

// ------------------------------------------------------------- generation
static int src_type(const Op &o) { return o.kind == K_CONV ? o.t2 : o.t; }
static int64_t variant(Rng &r, int n, int64_t v, const std::vector<int64_t> &pool)
{
	switch (r.below(12)) {
	case 0: return tk_neg(n, v);
	case 1: return tk_wrap(n, (uint64_t)v + 1);
	case 2: return tk_wrap(n, (uint64_t)v - 1);
	case 3: return tk_wrap(n, (uint64_t)v ^ (1ull << r.below(n)));
	case 4: return tk_wrap(n, (uint64_t)v ^ (r.next() << r.below(n)));          // shares the low bits
	case 5: return tk_wrap(n, (uint64_t)v ^ (r.next() >> (64 - 1 - r.below(n)))); // shares the high bits
	case 6: return tk_wrap(n, (uint64_t)v << (n / 2));
	case 7: return tk_nar(n);
	case 8: return 0;
	default: return tk_wrap(n, (uint64_t)pool[r.below(pool.size())]);
	}
}
// in some histories all arguments are a few simple numbers, the same for all types
static quad nice(Rng &r)
{
	quad v;
	switch (r.below(6)) {
	case 0: case 1: v = (quad)r.range(1, 12); break;
	case 2: v = ldexpq(1, (int)r.range(-8, 8)); break;
	case 3: v = (quad)r.range(1, 40) / 4; break;
	case 4: v = powq(10, (quad)r.range(-4, 4)); break;
	default: v = r.one_in(2) ? 1 / (quad)r.range(2, 10) : expq((quad)r.range(-12, 12) / 2); break;
	}
	return r.one_in(3) ? -v : v;
}
static Call gen_call(Rng &r, int op, std::vector<int64_t> &pool, std::vector<ldbl> &fp, const std::vector<quad> &simple)
{
	const Op &o = (*OPS)[op];
	Call c = {op, 0, 0, 0, 1};
	int st = src_type(o), n = TYPES[st].n;
	auto arg = [&](int type) {
		int w = TYPES[type].n;
		int64_t v;
		if (!simple.empty() && !r.one_in(24)) return tk_encode(type, rnum(simple[r.below(simple.size())]));
		if (pool.size() < 3 || r.one_in(12)) {
			v = gen_takum(r, type, nullptr);
			if (pool.size() < 24) pool.push_back(v); else pool[r.below(24)] = v;
			return v;
		}
		v = tk_wrap(w, (uint64_t)pool[r.below(pool.size())]);
		return r.one_in(3) ? variant(r, w, v, pool) : v;
	};
	if (o.kind == K_FROMF && !simple.empty()) {
		c.f = (ldbl)simple[r.below(simple.size())];
		if (o.t2 == 0) c.f = (float)c.f; else if (o.t2 == 1) c.f = (double)c.f;
		return c;
	}
	if (o.kind == K_FROMF) {
		if (fp.size() < 3 || r.one_in(8)) {
			c.f = gen_float(r, o.t2);
			if (fp.size() < 16) fp.push_back(c.f); else fp[r.below(16)] = c.f;
		} else {
			c.f = fp[r.below(fp.size())];
			switch (r.below(10)) {
			case 0: c.f = -c.f; break;
			case 1: c.f = nextafterl(c.f, r.one_in(2) ? HUGE_VALL : -HUGE_VALL); break;
			case 2: c.f = c.f * ldexpl(1, (int)r.range(-8, 8)); break;
			case 3: { uint64_t lo; memcpy(&lo, &c.f, 8); if (std::isfinite(c.f) && c.f != 0) { lo ^= 1ull << r.below(63); memcpy(&c.f, &lo, 8); } break; }
			}
		}
		return c;
	}
	c.a = arg(st);
	if (o.kind == K_BIN) c.b = arg(o.t);
	if (o.kind == K_INT) c.b = r.one_in(2) ? r.range(-4, 5) : gen_int(r, n);
	return c;
}
static std::vector<int> HOT;   // operations whose compiled code is not the fingerprinted one
static Hist gen_hist(Rng &r, Mode mode, size_t op0)
{
	Hist h;
	std::vector<int> ops = {(int)op0};
	const Op &o = (*OPS)[op0];
	// partners: any, same type, same function for another type
	size_t want = mode == THR ? 1 + r.below(2) : 1 + r.below(4);
	for (int tries = 0; ops.size() < want && tries < 200; tries++) {
		int k = (int)r.below(OPS->size());
		const Op &p = (*OPS)[k];
		switch (r.below(3)) {
		case 0: ops.push_back(!HOT.empty() && r.one_in(2) ? HOT[r.below(HOT.size())] : k); break;
		case 1: if (p.t == o.t) ops.push_back(k); break;
		case 2: for (size_t j = 0; j < OPS->size(); j++) { size_t q = (j + (size_t)k) % OPS->size(); if ((*OPS)[q].base == o.base) { ops.push_back((int)q); break; } } break;
		}
	}
	std::vector<int64_t> pool;
	std::vector<ldbl> fp;
	std::vector<quad> simple;
	if (r.one_in(4)) for (int k = (int)r.range(2, 10); k > 0; k--) simple.push_back(nice(r));
	size_t len = r.one_in(3) ? 4 + r.below(12) : r.one_in(40) ? 2048 : 32 + r.below(128);
	if (mode == THR) len = 16 + r.below(48);
	for (size_t i = 0; i < len; i++) {
		if (!h.empty() && r.one_in(5)) {                  // an earlier call again, or with swapped operands
			Call c = h[h.size() - 1 - r.below(std::min<size_t>(h.size(), 12))];
			c.reps = 1;
			if ((*OPS)[c.op].kind == K_BIN && r.one_in(3)) std::swap(c.a, c.b);
			h.push_back(c);
		} else h.push_back(gen_call(r, ops[r.below(ops.size())], pool, fp, simple));
	}
	if (mode == SEQ && r.one_in(12)) h[r.below(h.size())].reps = r.one_in(3) ? 70000 : 1 + (uint32_t)r.below(1500);
	return h;
}

// -------------------------------------------------------------- execution
struct Area {
	std::atomic<int> bad;                  // what a child itself noticed
	std::atomic<int> where;
	int got;
	Out a[MAXCALLS], b[MAXCALLS], p[MAXCALLS], t[MAXTHR][MAXCALLS / 8];
	uint8_t hp[MAXCALLS];
};
static Area *A;
static unsigned fpcw() { unsigned short cw; __asm__ volatile("fnstcw %0" : "=m"(cw)); return cw; }
static unsigned mxcw() { return _mm_getcsr() & ~0x3fu; }
static __attribute__((noinline)) void scribble(int v)
{
	volatile unsigned char b[6000];
	for (size_t i = 0; i < sizeof b; i++) b[i] = (unsigned char)v;
	__asm__ volatile("" : : "r"(b) : "memory");
}
static int CPU_LIMIT = 40;
// 0: fine, else status text
static int child(const std::function<void()> &f)
{
	pid_t p = fork();
	if (p < 0) { perror("fork"); _exit(3); }
	if (p == 0) {
		rlimit rl = {(rlim_t)CPU_LIMIT, (rlim_t)CPU_LIMIT + 2}, nc = {0, 0};
		setrlimit(RLIMIT_CPU, &rl);
		setrlimit(RLIMIT_CORE, &nc);
		f();
		_exit(0);
	}
	int st;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st)) return WEXITSTATUS(st);
	return 256 + WTERMSIG(st);
}
static Out run_reps(const Call &c, size_t i)
{
	Out o = do_call(c);
	for (uint32_t k = 1; k < c.reps; k++) {
		Out q = do_call(c);
		if (!same(o, q) && !A->bad) { A->bad = 1; A->where = (int)i; }
	}
	return o;
}
struct Fail { int kind; int at; std::string why; };   // kind 0: none
static bool TSAN;
static Fail crash(int st, const char *who)
{
	if (!TSAN && (st == 256 + SIGKILL || st == 3)) { fprintf(stderr, "a child was ended from outside\n"); _exit(3); }
	if (TSAN && st != 66) return {0, 0, ""}; // the sanitizer runtime itself failed: no answer
	if (st == 66) return {6, 0, std::string("data race reported by ThreadSanitizer ") + who};
	return {4, 0, std::string("the process ended ") + who + ", status " + std::to_string(st)};
}
static Fail run_seq(const Hist &h, uint64_t pick)
{
	A->bad = 0;
	size_t n = h.size();
	int st = child([&] {
		unsigned c0 = fpcw(), m0 = mxcw();
		for (size_t i = 0; i < n; i++) {
			A->a[i] = run_reps(h[i], i);
			if ((fpcw() != c0 || mxcw() != m0) && !A->bad) { A->bad = 2; A->where = (int)i; }
		}
	});
	if (st) return crash(st, "during the calls in order");
	if (A->bad == 1) return {1, A->where, "the same call repeated gives different results: " + ctext(h[A->where])};
	if (A->bad == 2) return {2, A->where, "floating-point control state changed by " + ctext(h[A->where])};
	st = child([&] {   // other order, other surroundings
		Rng r(pick);
		for (size_t i = n; i-- > 0;) {
			switch (r.below(4)) {
			case 0: errno = (int)(r.one_in(2) ? EDOM : ERANGE); break;
			case 1: feraiseexcept(FE_ALL_EXCEPT); break;
			case 2: feclearexcept(FE_ALL_EXCEPT); errno = 0; break;
			default: scribble((int)r.below(256)); break;
			}
			A->b[i] = do_call(h[i]);
		}
	});
	if (st) return crash(st, "during the calls in reverse order");
	for (size_t i = 0; i < n; i++)
		if (!same(A->a[i], A->b[i])) return {3, (int)i, ctext(h[i]) + " gives " + otext(A->a[i], h[i]) + " in the one order and " + otext(A->b[i], h[i]) + " in the other"};
	if (!TSAN && n <= 512) { // whatever control state the caller has set is left as it was
		st = child([&] {
			Rng r(pick ^ 0x77);
			unsigned short cw0 = (unsigned short)fpcw();
			unsigned mx0 = _mm_getcsr();
			for (size_t i = 0; i < n; i++) {
				static const unsigned short PC[] = {0x0000, 0x0200, 0x0300};
				unsigned rc = (unsigned)r.below(4);
				unsigned short cw = (unsigned short)((cw0 & ~0x0f00) | (rc << 10) | PC[r.one_in(2) ? 2 : r.below(3)]);
				unsigned mx = (mx0 & ~0xe07fu) | ((r.one_in(4) ? (unsigned)r.below(4) : rc) << 13) | (r.one_in(3) ? 0x8040u : 0);
				__asm__ volatile("fldcw %0" : : "m"(cw));
				_mm_setcsr(mx);
				(void)do_call(h[i]);
				unsigned cw1 = fpcw(), mx1 = mxcw();
				__asm__ volatile("fldcw %0" : : "m"(cw0));
				_mm_setcsr(mx0);
				if ((cw1 != cw || mx1 != (mx & ~0x3fu)) && !A->bad) { A->bad = 2; A->where = (int)i; }
			}
		});
		if (st) return crash(st, "with another floating-point control state");
		if (A->bad == 2) return {2, A->where, "the caller's floating-point control state is not left as it was by " + ctext(h[A->where])};
	}
	Rng r(pick ^ 0x5151);
	size_t singles = n <= 4 ? n : 2;
	for (size_t k = 0; k < singles; k++) {
		size_t i = n <= 4 ? k : r.below(n);
		st = child([&] { A->p[i] = do_call(h[i]); });
		if (st) return crash(st, ("in " + ctext(h[i])).c_str());
		if (!same(A->a[i], A->p[i])) return {3, (int)i, ctext(h[i]) + " gives " + otext(A->a[i], h[i]) + " after the other calls and " + otext(A->p[i], h[i]) + " as the first call of a process"};
	}
	return {0, 0, ""};
}
static const Hist *TH;
static int TN, TROUNDS;
static pthread_barrier_t BAR;
static void *thread_main(void *v)
{
	int t = (int)(intptr_t)v;
	const Hist &h = *TH;
	size_t n = h.size();
	pthread_barrier_wait(&BAR);
	for (int k = 0; k < TROUNDS; k++)
		for (size_t j = 0; j < n; j++) {
			size_t i = (t & 1) ? (n - 1 - j + (size_t)(t * k)) % n : (j + (size_t)t * n / (size_t)TN) % n;
			Out o = do_call(h[i]);
			if (k == 0) A->t[t][i] = o;
			else if (!same(o, A->t[t][i])) A->t[t][i].i = INT64_MIN ^ 0x77, A->hp[i] = 1;
		}
	return nullptr;
}
static Fail run_thr(const Hist &h, bool tsan)
{
	A->bad = 0;
	size_t n = std::min<size_t>(h.size(), MAXCALLS / 8);
	memset(A->hp, 0, n);
	TN = tsan ? 2 : 4;
	TROUNDS = tsan ? 1 : 12;
	TH = &h;
	int st = child([&] { for (size_t i = 0; i < n; i++) A->a[i] = do_call(h[i]); });
	if (st) return crash(st, "during the calls in order");
	st = child([&] {
		pthread_t th[MAXTHR];
		pthread_barrier_init(&BAR, nullptr, (unsigned)TN);
		for (int t = 0; t < TN; t++) if (pthread_create(&th[t], nullptr, thread_main, (void *)(intptr_t)t)) _exit(3);
		for (int t = 0; t < TN; t++) pthread_join(th[t], nullptr);
	});
	if (st) return crash(st, "with concurrent threads");
	for (size_t i = 0; i < n; i++) for (int t = 0; t < TN; t++)
		if (A->hp[i] || !same(A->a[i], A->t[t][i])) return {5, (int)i, ctext(h[i]) + " gives " + otext(A->a[i], h[i]) + " alone and another result when " + std::to_string(TN) + " threads call concurrently"};
	return {0, 0, ""};
}
static Fail run(const Hist &h, Mode m, uint64_t pick) { return m == SEQ ? run_seq(h, pick) : run_thr(h, TSAN); }
static bool fails(const Hist &h, Mode m, uint64_t pick)
{
	int tries = m == THR ? 12 : 1;
	for (int i = 0; i < tries; i++) if (run(h, m, pick).kind) return true;
	return false;
}
static Hist ddmin(Hist h, Mode m, uint64_t pick)
{
	int budget = m == THR ? 150 : 400;
	for (auto &c : h) { // fewer repetitions
		while (c.reps > 1 && budget-- > 0) {
			uint32_t o = c.reps;
			c.reps = o / 2;
			if (!fails(h, m, pick)) { c.reps = o; break; }
		}
	}
	for (size_t chunk = std::max<size_t>(1, h.size() / 2); budget > 0;) {
		bool cut = false;
		for (size_t i = 0; i < h.size() && budget > 0;) {
			if (h.size() <= 1) break;
			Hist g(h.begin(), h.begin() + (long)i);
			g.insert(g.end(), h.begin() + (long)std::min(h.size(), i + chunk), h.end());
			budget--;
			if (!g.empty() && fails(g, m, pick)) { h = g; cut = true; }
			else i += chunk;
		}
		if (chunk == 1 && !cut) break;
		if (!cut || chunk > h.size()) chunk = std::max<size_t>(1, chunk / 2);
	}
	return h;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (double)t.tv_sec + (double)t.tv_nsec * 1e-9; }
struct Shared {
	std::atomic<long> next, minfail, hists, calls, nontriv, opseen;
	std::atomic<int> truncated;
	std::atomic<uint8_t> seen[2048];
	std::atomic<uint8_t> bits[1 << 21];
	std::atomic<int> ns;
	char sample[8][400];
};
int main(int argc, char **argv)
{
	std::string replay, evid, rpath = "C24.replay", extra, mode = "seq";
	uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
	double nseq = 400, nthr = 60; // histories per operation
	bool thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
	int nw = (int)sysconf(_SC_NPROCESSORS_ONLN);
	double cap = thorough ? 7200 : 500;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--replay") replay = nx();
		else if (a == "--evidence") evid = nx();
		else if (a == "--replay-file") rpath = nx();
		else if (a == "--seq") nseq = atof(nx().c_str());
		else if (a == "--thr") nthr = atof(nx().c_str());
		else if (a == "--tsan") TSAN = true;
		else if (a == "--seed") seed = strtoull(nx().c_str(), nullptr, 10);
		else if (a == "--note") extra = nx();
	}
	OPS = &tk_ops();
	gen_init();
	for (size_t k = 0; k < OPS->size(); k++) if (CHANGED.count((*OPS)[k].name)) HOT.push_back((int)k);
	double focus = getenv("TK_FOCUS") ? atof(getenv("TK_FOCUS")) : thorough ? 1200 : TSAN ? 15 : 40;
	if (!replay.empty()) {
		A = (Area *)mmap(nullptr, sizeof(Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		FILE *f = fopen(replay.c_str(), "r");
		if (!f) { perror(replay.c_str()); return 2; }
		char line[1000];
		Hist h;
		Mode m = SEQ;
		uint64_t pick = 0;
		while (fgets(line, sizeof line, f)) {
			char nm[200], x[100], y[100], z[100];
			if (!strncmp(line, "mode=thr", 8)) m = THR;
			if (!strncmp(line, "pick=", 5)) pick = strtoull(line + 5, nullptr, 10);
			if (strncmp(line, "call=", 5)) continue;
			int k = sscanf(line + 5, "%199s %99s %99s %99s", nm, x, y, z);
			Call c = {-1, 0, 0, 0, 1};
			for (size_t q = 0; q < OPS->size(); q++) if ((*OPS)[q].name == nm) c.op = (int)q;
			if (c.op < 0 || k < 2) { fprintf(stderr, "bad line %s", line); return 2; }
			if (!strncmp(x, "f:", 2)) {
				char hx[5] = {x[2], x[3], x[4], x[5], 0};
				uint16_t hi = (uint16_t)strtoul(hx, nullptr, 16);
				uint64_t lo = strtoull(x + 6, nullptr, 16);
				memcpy(&c.f, &lo, 8); memcpy((char *)&c.f + 8, &hi, 2);
			} else c.a = strtoll(x, nullptr, 10);
			for (int q = 2; q < k; q++) {
				const char *s = q == 2 ? y : z;
				if (*s == 'x') c.reps = (uint32_t)atoi(s + 1); else c.b = strtoll(s, nullptr, 10);
			}
			h.push_back(c);
		}
		fclose(f);
		for (int i = 0; i < (m == THR ? 60 : 1); i++) {
			Fail q = run(h, m, pick);
			if (q.kind) { printf("%s\nVIOLATION property=C24 replay=%s\n", q.why.c_str(), replay.c_str()); return 1; }
		}
		printf("holds\n");
		return 0;
	}
	double t0 = now();
	Shared *S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	S->minfail = LONG_MAX;
	long nop = (long)OPS->size(), total_seq = (long)(nseq * (double)nop), total = total_seq + (long)(nthr * (double)nop);
	auto make = [&](long i, Mode &m, uint64_t &pick) {
		if (i >= total) { // more of the changed ones, for a fixed time
			m = TSAN || i % 8 == 7 ? THR : SEQ;
			pick = mix(mix(seed, TSAN ? 79 : 26), (uint64_t)i);
			Rng r(pick);
			return gen_hist(r, m, (size_t)HOT[(size_t)(i - total) % HOT.size()]);
		}
		m = i < total_seq ? SEQ : THR;
		pick = mix(mix(seed, TSAN ? 77 : 24), (uint64_t)i);
		Rng r(pick);
		return gen_hist(r, m, (size_t)(i % nop));
	};
	if (TSAN) nw = std::max(1, nw / 2);
	// threads use several cores each: fewer workers for that part
	for (int phase = 0; phase < (HOT.empty() ? 2 : 3); phase++) {
		long lo = phase == 2 ? total : phase ? total_seq : 0, hi = phase == 2 ? LONG_MAX - 1 : phase ? total : total_seq;
		int w = phase && !TSAN ? std::max(1, nw / 2) : nw;
		double pend = phase == 2 ? now() + focus : 1e30;
		if (phase == 2) w = nw;
		S->next = lo;
		if (S->minfail != LONG_MAX) break;
		std::vector<pid_t> pid;
		for (int k = 0; k < w; k++) {
			pid_t p = fork();
			if (p == 0) {
				A = (Area *)mmap(nullptr, sizeof(Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
				for (;;) {
					long i = S->next++;
					if (i >= hi || i > S->minfail) _exit(0);
					if (now() > pend) _exit(0);
					if (now() - t0 > cap) { S->truncated = 1; _exit(0); }
					Mode m; uint64_t pick;
					Hist h = make(i, m, pick);
					Fail q = run(h, m, pick);
					S->hists++; S->calls += (long)h.size();
					if (q.kind) {
						long o = S->minfail;
						while (i < o && !S->minfail.compare_exchange_weak(o, i)) {}
						_exit(0);
					}
					bool nt = false;
					uint64_t hh = 0;
					for (size_t j = 0; j < h.size(); j++) {
						hh = mix(hh ^ (uint64_t)h[j].op, (uint64_t)h[j].a + 3 * (uint64_t)h[j].b);
						if (j && h[j].op == h[0].op && !same(A->a[j], A->a[0])) nt = true;
					}
					for (auto &c : h) S->seen[c.op] = 1;
					if (nt) {
						uint8_t b = (uint8_t)(1u << (hh & 7));
						if (!(S->bits[(hh >> 3) & ((1 << 21) - 1)].fetch_or(b) & b)) S->nontriv++;
						if (S->ns < 8 && i % 97 == 0) {
							int z = S->ns++;
							if (z < 8) {
								std::string s = m == SEQ ? "in order, reversed and singly: " : "4 threads: ";
								for (size_t j = 0; j < h.size() && j < 5; j++) s += ctext(h[j]) + "; ";
								s += "... (" + std::to_string(h.size()) + " calls)";
								snprintf(S->sample[z], sizeof S->sample[z], "%s", s.c_str());
							}
						}
					}
				}
			}
			pid.push_back(p);
		}
		int rc = 0;
		for (pid_t p : pid) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) rc = 3; }
		if (rc) { fprintf(stderr, "a worker was ended from outside\n"); return 3; }
	}
	bool violated = false;
	std::string why;
	if (S->minfail != LONG_MAX) {
		A = (Area *)mmap(nullptr, sizeof(Area), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
		Mode m; uint64_t pick;
		Hist h = make(S->minfail, m, pick);
		int rep = 0, need = m == SEQ ? 3 : 1;
		for (int k = 0; k < (m == SEQ ? 3 : 6) && rep < need; k++) rep += fails(h, m, pick);
		if (rep < need) fprintf(stderr, "a disagreement in history %ld did not repeat\n", (long)S->minfail);
		else {
			violated = true;
			h = ddmin(h, m, pick);
			for (int k = 0; k < 20 && why.empty(); k++) why = run(h, m, pick).why;
			FILE *f = fopen(rpath.c_str(), "w");
			if (f) {
				fprintf(f, "property=C24\nmode=%s\npick=%llu\n", m == SEQ ? "seq" : "thr", (unsigned long long)pick);
				for (auto &c : h) fprintf(f, "call=%s\n", ctext(c).c_str());
				fprintf(f, "# %s\n", why.c_str());
				fclose(f);
			}
			printf("FAILED after shrinking to %zu calls: %s\n", h.size(), why.c_str());
		}
	}
	int ops = 0;
	for (auto &x : S->seen) ops += x;
	double wall = now() - t0;
	if (!evid.empty()) {
		FILE *f = fopen(evid.c_str(), "w");
		if (!f) { perror(evid.c_str()); return 2; }
		fprintf(f, "{\n \"property\": \"C24\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", thorough ? "thorough" : "quick", (unsigned long long)seed);
		fprintf(f, "  \"evaluations\": %ld,\n  \"distinct_nontrivial\": %ld,\n  \"calls_in_histories\": %ld,\n  \"operations_covered\": %d,\n  \"functions_changed\": %zu,\n  \"truncated_by_time_cap\": %s,\n", (long)S->hists, (long)S->nontriv, (long)S->calls, ops, HOT.size(), S->truncated ? "true" : "false");
		fprintf(f, "  \"rule\": \"A case is a generated history of calls of one to four functions over a small pool of related arguments, run in order, in reverse order with errno, exception flags and stack contents changed, call by call in fresh processes, or by concurrent threads; non-trivial: the first function of the history has calls with different results, so that state carried over would show.\",\n");
		if (!extra.empty()) fprintf(f, "  \"thread_sanitizer\": \"%s\",\n", extra.c_str());
		fprintf(f, "  \"samples\": [");
		for (int i = 0; i < std::min<int>(S->ns, 8); i++) {
			std::string e;
			for (char ch : std::string(S->sample[i])) { if (ch == '"' || ch == '\\') e += '\\'; e += ch; }
			fprintf(f, "%s\n   \"%s\"", i ? "," : "", e.c_str());
		}
		fprintf(f, "\n  ]\n },\n \"wall_s\": %.3f,\n \"violations\": %d\n}\n", wall, violated ? 1 : 0);
		fclose(f);
	}
	printf("C24%s: %ld histories, %ld calls, %ld distinct non-trivial, %d operations, %.1f s\n", TSAN ? " (ThreadSanitizer)" : "", (long)S->hists, (long)S->calls, (long)S->nontriv, ops, wall);
	if (violated) { printf("VIOLATION property=C24 replay=%s\n", rpath.c_str()); return 1; }
	return 0;
}
