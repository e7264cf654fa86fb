// Driver: generates, evaluates in worker processes, shrinks, replays, reports.
#include "engine.h"
#include "cover.h"
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <algorithm>
#include <atomic>
#include <set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <quadmath.h>
#include <cfloat>
#include <climits>

static const int MAXT = 2048, MAXW = 64, SAMPLES = 24;
struct Slot {                   // what a worker is doing, for crashes and hangs
	std::atomic<long> beat;
	std::atomic<int> target;
	Case c;
	std::atomic<int> block;
};
struct Shared {
	std::atomic<long> next;                 // next block
	std::atomic<long> minfail;              // smallest failing block
	std::atomic<int> lock;
	std::atomic<int> truncated;
	volatile double fstart;
	std::atomic<long> gexec, gcheck, gcorpus, gedges;
	std::atomic<long> focus;                // cases of the focused phase
	int ftarget, fworker; long fblock; Case fcase; char fwhy[600];
	std::atomic<long> evals[MAXT], nontriv[MAXT], known[MAXT], fails[MAXT];
	double maxerr[MAXT]; Case maxcase[MAXT];
	std::atomic<long> distinct;
	std::atomic<int> nsample;
	char sample[SAMPLES][300];
	std::atomic<long> kfcount[32];
	Slot slot[MAXW];
};
static Shared *S;
static std::atomic<uint8_t> *BITS;
static const uint64_t NBITS = 1ull << 31;
enum { RANDOM, EXHAUSTIVE, LATTICE, FOCUS, GUIDED };
Cover *tk_cover;
struct Block { int target; uint64_t first; uint32_t count; int mode; };
static std::vector<Block> BL;
static Property *P;
static uint64_t SEED;
static std::vector<std::string> KFIDS;
static std::set<std::string> KFON;
static bool STATS;

int known_index(const char *id)
{
	for (size_t i = 0; i < KFIDS.size(); i++) if (KFIDS[i] == id) return (int)i;
	KFIDS.push_back(id);
	return (int)KFIDS.size() - 1;
}
bool known_enabled(const char *id) { return KFON.count(id); }

uint64_t Target::space() const
{
	if (!exhaustive) return 0;
	int bits = 0;
	for (auto &s : args) {
		if (s.kind == A_INT && s.t < 0) return (uint64_t)-s.t; // an index below -t
		if (s.kind != A_TAKUM) return 0;
		bits += TYPES[s.t].n;
	}
	return bits <= 16 ? 1ull << bits : 0;
}
static void enum_case(const Target &t, uint64_t i, Case &c)
{
	c = Case{};
	for (size_t k = 0; k < t.args.size(); k++) {
		if (t.args[k].kind == A_INT) { c.a[k].i = (int64_t)i; continue; }
		int n = TYPES[t.args[k].t].n;
		c.a[k].i = tk_wrap(n, i);
		i >>= n;
	}
}
// functions of one argument: every exponent of the argument with every simple mantissa
static uint64_t lattice(const Target &t) { return t.args.size() == 1 && !t.space() ? lattice_size(t.args[0]) : 0; }
static uint64_t block_seed(const Block &b) { return mix(mix(SEED, 0x7461 + std::hash<std::string>()(P->id)), mix((uint64_t)b.target + 1, b.first + 1)); }
static void make_case(const Target &t, const Block &b, uint32_t i, Rng &r, Case &c)
{
	if (b.mode == EXHAUSTIVE) enum_case(t, b.first + i, c);
	else if (b.mode == LATTICE) { c = Case{}; lattice_arg(t.args[0], b.first + i, c.a[0]); }
	else if (t.gen) t.gen(r, c);
	else gen_default(r, t, c);
}
std::string show_case(const Target &t, const Case &c)
{
	std::string s = t.name + "(";
	char b[160];
	for (size_t k = 0; k < t.args.size(); k++) {
		const ArgSpec &a = t.args[k];
		if (k) s += ", ";
		if (a.kind == A_TAKUM) {
			int n = TYPES[a.t].n;
			Dec d = tk_decode(a.t, c.a[k].i);
			snprintf(b, sizeof b, "%s 0x%0*llx", TYPES[a.t].name, n / 4, (unsigned long long)c.a[k].i & (n == 64 ? ~0ull : (1ull << n) - 1));
			s += b;
			if (d.k == R_NAR) s += "=NaR";
			else { snprintf(b, sizeof b, "=%.10g", (double)d.x); s += b; }
		} else if (a.kind == A_INT) s += std::to_string(c.a[k].i);
		else { snprintf(b, sizeof b, "%La=%.10Lg", c.a[k].f, c.a[k].f); s += b; }
	}
	return s + ")";
}
static std::string jesc(const std::string &s)
{
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch < 32) o += ' ';
		else o += (char)ch;
	}
	return o;
}
static uint64_t hash_case(int t, const Case &c)
{
	uint64_t h = mix(t + 77, 1);
	for (int k = 0; k < 3; k++) {
		uint64_t lo; uint16_t hi = 0;
		memcpy(&lo, &c.a[k].f, 8); memcpy(&hi, (const char *)&c.a[k].f + 8, 2);
		h = mix(h ^ (uint64_t)c.a[k].i, lo + hi * 0x9e3779b97f4a7c15ull);
	}
	return h;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double T0, CAP, FCAP;

// ------------------------------------------------ coverage-guided search
// Executes only the library's function (or, without one, the whole check) on
// very many cases; a case on a rare path or with a nearer comparison joins the
// corpus, from which further cases are derived, and is put to the full check.
static Case mutate(Rng &r, const Target &t, Case c, const std::vector<Case> &corpus, const std::vector<std::pair<uint64_t, uint64_t>> &pairs)
{
	int steps = 1 + (int)r.below(3);
	for (int s = 0; s < steps; s++) {
		size_t k = r.below(t.args.size());
		const ArgSpec &a = t.args[k];
		if (r.one_in(12)) { // one argument of another case
			const Case &o = corpus[r.below(corpus.size())];
			c.a[k] = o.a[k];
			continue;
		}
		if (r.one_in(12)) { Case o; if (t.gen) t.gen(r, o = Case{}); else gen_default(r, t, o); c.a[k] = o.a[k]; continue; }
		if (a.kind == A_FLOAT) {
			ldbl v = c.a[k].f;
			uint64_t m; uint16_t e;
			if (!std::isfinite(v) || v == 0) { v = gen_float(r, a.t); c.a[k].f = v; continue; }
			memcpy(&m, &v, 8); memcpy(&e, (char *)&v + 8, 2);
			switch (r.below(5)) {
			case 0: m ^= 1ull << r.below(63); break;
			case 1: e ^= 1u << (r.one_in(4) ? 15 : r.below(9)); break;
			case 2: m += (r.one_in(2) ? 1ull : -1ull) << r.below(63); m |= 1ull << 63; break;
			case 3: e += r.one_in(2) ? 1 : -1; break;
			default: m &= ~0ull << r.below(63); m |= 1ull << 63; break;
			}
			if (e & 0x7fff) m |= 1ull << 63; else m &= ~(1ull << 63); // no pseudo-denormals
			memcpy(&v, &m, 8); memcpy((char *)&v + 8, &e, 2);
			if (!std::isfinite(v)) continue;
			c.a[k].f = a.t == 0 ? (ldbl)(float)v : a.t == 1 ? (ldbl)(double)v : v;
			continue;
		}
		int n = a.kind == A_TAKUM ? TYPES[a.t].n : 64;
		uint64_t v = (uint64_t)c.a[k].i, all = n == 64 ? ~0ull : (1ull << n) - 1;
		switch (r.below(pairs.empty() ? 8 : 10)) {
		case 0: v ^= 1ull << r.below(n); break;
		case 1: v += (uint64_t)r.range(-4, 4); break;
		case 2: v += (r.one_in(2) ? 1ull : -1ull) << r.below(n); break;
		case 3: v = 0 - v; break;
		case 4: { int b = (int)r.below(n); v ^= r.next() & (1ull << b); v ^= r.next() & (0xffull << b); break; }
		case 5: { int b = (int)r.below(n); v = r.one_in(2) ? v & ~0ull << b : v | ((1ull << b) - 1); break; }
		case 6: { int b = (int)r.below(n); uint64_t m = (1ull << b) - 1; v = (v & ~m) | (r.next() & m); break; }
		case 7: if (t.args.size() > 1 && t.args[1 - (k > 0)].kind == a.kind) { // bits of the other argument
				uint64_t m = ~0ull << r.below(n), o = (uint64_t)c.a[k > 0 ? 0 : 1].i;
				if (r.one_in(2)) m = ~m;
				v = (v & ~m) | (o & m);
				break;
			}
			v = r.one_in(2) ? v << 1 : (uint64_t)((int64_t)v >> 1);
			break;
		default: { // replace what a comparison saw by what it was compared with
			auto p = pairs[r.below(pairs.size())];
			int sh = (int)r.below(n);
			switch (r.below(4)) {
			case 0: v = p.second + (uint64_t)r.range(-1, 1); break;
			case 1: v ^= (p.first ^ p.second) << sh; break;
			case 2: v += (p.second - p.first) << sh; break;
			default: v = p.second << sh; break;
			}
		}
		}
		c.a[k].i = a.kind == A_TAKUM ? tk_wrap(n, v & all) : (int64_t)v;
	}
	return c;
}
static bool op_call(const Target &t, const Case &c)
{
	const Op *o = t.op;
	if (!o || (!CHANGED.empty() && !CHANGED.count(o->name))) return false;
	auto is = [&](size_t k, ArgKind kind, int ty) { return k < t.args.size() && t.args[k].kind == kind && (kind == A_INT || t.args[k].t == ty); };
	size_t n = t.args.size();
	switch (o->kind) {
	case K_UN: if (n != 1 || !is(0, A_TAKUM, o->t)) return false; tk_call_un(*o, c.a[0].i); return true;
	case K_BIN: if (n != 2 || !is(0, A_TAKUM, o->t) || !is(1, A_TAKUM, o->t)) return false; tk_call_bin(*o, c.a[0].i, c.a[1].i); return true;
	case K_INT: if (n != 2 || !is(0, A_TAKUM, o->t) || !is(1, A_INT, 0)) return false; tk_call_int(*o, c.a[0].i, c.a[1].i); return true;
	case K_PREC: if (n != 1 || !is(0, A_TAKUM, o->t)) return false; tk_call_prec(*o, c.a[0].i); return true;
	case K_FROMF: if (n != 1 || !is(0, A_FLOAT, o->t2)) return false; tk_call_fromf(*o, c.a[0].f); return true;
	case K_TOF: if (n != 1 || !is(0, A_TAKUM, o->t)) return false; tk_call_tof(*o, c.a[0].i); return true;
	case K_CONV: if (n != 1 || !is(0, A_TAKUM, o->t2)) return false; tk_call_conv(*o, c.a[0].i); return true;
	}
	return false;
}
static void guided(Slot &sl, const Block &b, const std::function<bool(const Case &)> &full)
{
	const Target &t = P->targets[b.target];
	Cover &V = *tk_cover;
	Rng r(block_seed(b));
	std::vector<uint32_t> count(2 * Cover::SIZE, 0);
	struct Entry { Case c; uint32_t rare; bool edge; std::vector<std::pair<uint64_t, uint64_t>> pairs; };
	std::vector<Entry> corpus;
	std::vector<Case> cases;
	const size_t MAXC = 4096;
	double end = now() + b.count * 1e-3;
	long execs = 0, checked = 0;
	static const std::vector<std::pair<uint64_t, uint64_t>> none;
	for (;; execs++) {
		if (!(execs & 63) && now() > end) break;
		Case c;
		if (corpus.size() < 8 || r.one_in(3)) {
			if (t.gen) t.gen(r, c = Case{}); else gen_default(r, t, c);
		} else {
			// the rarest of a few
			size_t best = 0; uint32_t bc = ~0u;
			bool edge = r.one_in(2);
			for (int k = 0; k < 6; k++) {
				size_t j = r.below(corpus.size());
				uint32_t v = count[corpus[j].rare] + (edge && !corpus[j].edge ? 1u << 20 : 0);
				if (v < bc) { bc = v; best = j; }
			}
			c = mutate(r, t, corpus[best].c, cases, corpus[best].pairs);
		}
		sl.c = c;
		sl.beat++;
		V.begin();
		bool called = op_call(t, c);
		bool bad = false;
		if (!called) bad = t.check(c, nullptr).res == FAIL;
		V.end();
		if (bad) { if (full(c)) return; continue; }
		uint32_t me = ~0u, mc = ~0u, fe = 0, fc = 0;
		for (int i = 0; i < V.nt; i++) {
			uint32_t f = V.touched[i], k = ++count[f];
			if (f < Cover::SIZE) { if (k < me) { me = k; fe = f; } }
			else if (k < mc) { mc = k; fc = f; }
		}
		if (called && (me < 4096 || mc < 8 || !(execs & 255))) { checked++; if (full(c)) return; }
		if (me < 16 || mc < 4) {
			Entry e{c, me < 16 ? fe : fc, me < 16, {}};
			for (int i = 0; i < V.np; i++) e.pairs.push_back({V.pair[i].a, V.pair[i].b});
			if (corpus.size() < MAXC) { corpus.push_back(e); cases.push_back(c); }
			else { size_t j = r.below(MAXC); if (count[corpus[j].rare] >= count[e.rare]) { corpus[j] = e; cases[j] = c; } }
		}
	}
	long feat = 0;
	for (int i = 0; i < Cover::SIZE; i++) feat += count[i] != 0;
	S->gexec += execs; S->gcheck += checked; S->gcorpus += (long)corpus.size(); S->gedges += feat;
}
static void worker(int w)
{
	Slot &sl = S->slot[w];
	auto record = [&](long bi, int target, const Case &c) {
		int z = 0;
		while (!S->lock.compare_exchange_weak(z, 1)) { z = 0; usleep(10); }
		if (bi < S->minfail) {
			S->minfail = bi;
			S->ftarget = target; S->fblock = bi; S->fcase = c; S->fworker = w;
			std::string why;
			P->targets[target].check(c, &why);
			snprintf(S->fwhy, sizeof S->fwhy, "%s", why.c_str());
		}
		S->lock = 0;
	};
	for (;;) {
		long bi = S->next++;
		if (bi >= (long)BL.size()) return;
		if (bi > S->minfail) continue;
		if (now() - T0 > CAP) { S->truncated = 1; return; }
		const Block &b = BL[bi];
		if (b.mode == FOCUS) {
			double z = 0;
			if (S->fstart == z) S->fstart = now();
			if (now() - S->fstart > FCAP) return;
			S->focus += b.count;
		}
		const Target &t = P->targets[b.target];
		Rng r(block_seed(b));
		sl.target = b.target;
		sl.block = (int)bi;
		if (b.mode == GUIDED) {
			if (S->minfail < LONG_MAX) continue;
			guided(sl, b, [&](const Case &c) {
				if (S->minfail < LONG_MAX) return true;
				if (t.check(c, nullptr).res != FAIL) return false;
				S->fails[b.target]++;
				record(bi, b.target, c);
				return true;
			});
			continue;
		}
		long ev = 0, nt = 0, kn = 0, dis = 0;
		for (uint32_t i = 0; i < b.count; i++) {
			Case c;
			make_case(t, b, i, r, c);
			sl.c = c;
			sl.beat++;
			ev++;
			Verdict v = t.check(c, nullptr);
			if (STATS && v.res != FAIL && v.err < 1e8 && v.err > S->maxerr[b.target]) { S->maxerr[b.target] = v.err; S->maxcase[b.target] = c; }
			if (v.res == TRIVIAL) continue;
			if (v.res == KNOWN) { kn++; if (v.kf >= 0 && v.kf < 32) S->kfcount[v.kf]++; continue; }
			if (v.res == FAIL) {
				S->fails[b.target]++;
				if (STATS) { // calibration: keep going
					if (v.err > S->maxerr[b.target]) { S->maxerr[b.target] = v.err; S->maxcase[b.target] = c; }
					continue;
				}
				record(bi, b.target, c);
				break;
			}
			nt++;
			uint64_t h = hash_case(b.target, c) & (NBITS - 1);
			uint8_t m = (uint8_t)(1u << (h & 7));
			if (!(BITS[h >> 3].fetch_or(m, std::memory_order_relaxed) & m)) dis++;
			if (nt == 1 && S->nsample < SAMPLES && bi < 4 * (long)P->targets.size() && mix(SEED, bi) % (1 + P->targets.size() / 8) == 0) {
				int k = S->nsample++;
				if (k < SAMPLES) snprintf(S->sample[k], sizeof S->sample[k], "%s", show_case(t, c).c_str());
			}
		}
		S->evals[b.target] += ev; S->nontriv[b.target] += nt; S->known[b.target] += kn; S->distinct += dis;
	}
}
// ------------------------------------------------------ isolated evaluation
// Runs f in a child: returns 0 pass, 1 fail, 2 crash, 3 hang
static int isolated(const std::function<bool()> &f, int cpu = 30)
{
	fflush(nullptr);
	pid_t p = fork();
	if (p == 0) {
		rlimit rl = {(rlim_t)cpu, (rlim_t)cpu + 2};
		setrlimit(RLIMIT_CPU, &rl);
		rlimit nc = {0, 0};
		setrlimit(RLIMIT_CORE, &nc);
		_exit(f() ? 0 : 1);
	}
	int st;
	while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
	if (WIFEXITED(st)) return WEXITSTATUS(st) == 0 ? 0 : WEXITSTATUS(st) == 1 ? 1 : 2;
	return WTERMSIG(st) == SIGXCPU || WTERMSIG(st) == SIGKILL ? 3 : 2;
}
static int eval_iso(const Target &t, const Case &c) { return isolated([&] { return t.check(c, nullptr).res != FAIL; }); }
static bool same_case(const Case &a, const Case &b) { return !memcmp(&a, &b, sizeof a) || (a.a[0].i == b.a[0].i && a.a[1].i == b.a[1].i && a.a[0].f == b.a[0].f && a.a[1].f == b.a[1].f); }
static std::vector<Case> simpler(const Target &t, const Case &c)
{
	std::vector<Case> out;
	for (size_t k = 0; k < t.args.size(); k++) {
		const ArgSpec &a = t.args[k];
		auto put = [&](int64_t v) { Case d = c; d.a[k].i = v; out.push_back(d); };
		auto putf = [&](ldbl v) { Case d = c; d.a[k].f = a.t == 0 ? (ldbl)(float)v : a.t == 1 ? (ldbl)(double)v : v; out.push_back(d); };
		if (a.kind == A_TAKUM) {
			int n = TYPES[a.t].n;
			int64_t v = c.a[k].i, s[] = {0, tk_one(n), -tk_one(n), 1, tk_max(n)};
			for (int64_t x : s) { if (x == v) break; put(x); }
			if (v < 0 && v != tk_nar(n)) put(-v);
			for (int j = n - 6; j >= 1; j--) { // fewer mantissa bits
				int64_t x = v & (int64_t)(~0ull << j);
				if (x != v) put(x);
			}
			for (int j = 0; j < n - 1; j++) if (v >> j & 1) put(v ^ (int64_t)(1ull << j));
		} else if (a.kind == A_INT) {
			int64_t v = c.a[k].i, s[] = {0, 1, -1, 2, 3};
			for (int64_t x : s) { if (x == v) break; put(x); }
			if (v < 0 && v != INT64_MIN) put(-v);
			for (int j = 62; j >= 1; j--) { int64_t q = v / ((int64_t)1 << j); if (q != 0 && q != v) put(q); }
			for (int j = 62; j >= 1; j--) { int64_t x = v - v % ((int64_t)1 << j); if (x != v && x != 0) put(x); }
			if (v > 0) put(v - 1);
			if (v < 0) put(v + 1);
		} else {
			ldbl v = c.a[k].f;
			if (v != 1) putf(1);
			if (std::isfinite(v) && v != 0) {
				if (v < 0) putf(-v);
				int e;
				ldbl g = frexpl(v, &e);
				for (int j = 1; j < 60; j++) { ldbl q = ldexpl(truncl(ldexpl(g, j)), e - j); if (q != v) putf(q); }
			}
		}
	}
	return out;
}
static Case shrink(const Target &t, Case c, int how)
{
	int budget = how == 3 ? 3 : 600;
	for (bool better = true; better && budget > 0;) {
		better = false;
		for (auto &d : simpler(t, c)) {
			if (budget-- <= 0) break;
			if (same_case(c, d)) continue;
			if (eval_iso(t, d) != 0) {
				// strictly simpler by construction only for some moves: require a smaller key
				auto key = [&](const Case &x) {
					double s = 0;
					for (size_t k = 0; k < t.args.size(); k++) {
						if (t.args[k].kind == A_FLOAT) { ldbl f = x.a[k].f; int e; ldbl g = std::isfinite(f) ? frexpl(fabsl(f), &e) : 0.7L; int bits = 0; for (ldbl q = g; bits < 70 && q != 0; bits++) { q = q * 2; if (q >= 1) q -= 1; } s += bits + (f < 0) * 0.5 + (f == 1 ? -100 : 0); }
						else if (t.args[k].kind == A_INT) { quad v = fabsq((quad)x.a[k].i); s += (double)v * 1e-17 + log2((double)v + 1) + (x.a[k].i < 0) * 0.25; }
						else { int64_t v = x.a[k].i; int n = TYPES[t.args[k].t].n; s += __builtin_popcountll(v < 0 && v != tk_nar(n) ? (uint64_t)-v : v & ((2ull << (n - 1)) - 1)) + (v < 0) * 0.5 - (v == 0) - (v == tk_one(n)) * 0.5; }
					}
					return s;
				};
				if (key(d) < key(c)) { c = d; better = true; break; }
			}
		}
	}
	return c;
}
static bool run_blocks(const std::vector<int> &bl, Case *out)
{
	for (int bi : bl) {
		const Block &b = BL[bi];
		const Target &t = P->targets[b.target];
		Rng r(block_seed(b));
		for (uint32_t i = 0; i < b.count; i++) {
			Case c;
			make_case(t, b, i, r, c);
			if (t.check(c, nullptr).res == FAIL) { if (out) *out = c; return false; }
		}
	}
	return true;
}
static std::string arg_text(const ArgSpec &a, const Arg &v)
{
	char b[64];
	if (a.kind != A_FLOAT) { snprintf(b, sizeof b, "i:%lld", (long long)v.i); return b; }
	uint64_t lo; uint16_t hi;
	memcpy(&lo, &v.f, 8); memcpy(&hi, (const char *)&v.f + 8, 2);
	snprintf(b, sizeof b, "f:%04x%016llx", hi, (unsigned long long)lo);
	return b;
}
static bool parse_arg(const char *s, Arg &v)
{
	v = Arg{};
	if (!strncmp(s, "i:", 2)) { v.i = strtoll(s + 2, nullptr, 10); return true; }
	if (!strncmp(s, "f:", 2) && strlen(s) >= 22) {
		char h[5] = {0};
		memcpy(h, s + 2, 4);
		uint16_t hi = (uint16_t)strtoul(h, nullptr, 16);
		uint64_t lo = strtoull(s + 6, nullptr, 16);
		memcpy(&v.f, &lo, 8); memcpy((char *)&v.f + 8, &hi, 2);
		return true;
	}
	return false;
}
static int find_target(const std::string &n)
{
	auto plain = [](std::string s) { for (char &c : s) if (c == ' ') c = '_'; return s; }; // known findings write names without blanks
	for (size_t i = 0; i < P->targets.size(); i++) if (plain(P->targets[i].name) == plain(n)) return (int)i;
	return -1;
}
static void plan(double millions)
{
	BL.clear();
	double w = 0;
	for (auto &t : P->targets) w += t.weight;
	const uint32_t B = 2048;
	for (size_t i = 0; i < P->targets.size(); i++) {
		uint64_t sp = P->targets[i].space();
		for (uint64_t f = 0; f < sp; f += B) BL.push_back({(int)i, f, (uint32_t)std::min<uint64_t>(B, sp - f), EXHAUSTIVE});
	}
	for (size_t i = 0; i < P->targets.size(); i++) {
		uint64_t sp = lattice(P->targets[i]);
		for (uint64_t f = 0; f < sp; f += B) BL.push_back({(int)i, f, (uint32_t)std::min<uint64_t>(B, sp - f), LATTICE});
	}
	std::vector<std::pair<double, Block>> rnd;
	for (size_t i = 0; i < P->targets.size(); i++) {
		if (P->targets[i].space() && P->targets[i].weight == 0) continue;
		bool done = P->targets[i].space() > 0;   // enumerated completely
		uint64_t n = done ? 0 : (uint64_t)(millions * 1e6 * P->targets[i].weight / w);
		for (uint64_t f = 0; f < n; f += B) rnd.push_back({(double)f / (double)(n + 1), {(int)i, f, (uint32_t)std::min<uint64_t>(B, n - f), RANDOM}});
	}
	std::stable_sort(rnd.begin(), rnd.end(), [](auto &a, auto &b) { return a.first < b.first; });
	for (auto &x : rnd) BL.push_back(x.second);
	// more cases, for a fixed time, for the targets that reach changed functions
	double wc = 0;
	for (auto &t : P->targets) if (t.changed && !t.space()) wc += t.weight;
	if (wc > 0) for (uint64_t round = 0; BL.size() < 2000000 && round < 2000; round++) for (size_t i = 0; i < P->targets.size(); i++) {
		const Target &t = P->targets[i];
		if (!t.changed || t.space()) continue;
		int k = std::max(1, (int)(t.weight / wc * 64));
		for (int j = 0; j < k; j++) BL.push_back({(int)i, (1ull << 40) + (round * 64 + j) * B, B, FOCUS});
	}
}
// the targets that call a changed function, found by running a few cases of each
static void find_changed(int nw)
{
	if (CHANGED.empty()) return;
	size_t n = P->targets.size();
	uint8_t *m = (uint8_t *)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset(m, 1, n);   // a child that does not get through leaves its targets marked
	std::vector<pid_t> pid;
	for (int w = 0; w < nw; w++) {
		pid_t p = fork();
		if (p == 0) {
			rlimit rl = {60, 62}, nc = {0, 0};
			setrlimit(RLIMIT_CPU, &rl);
			setrlimit(RLIMIT_CORE, &nc);
			std::vector<const Op *> seen;
			tk_trace = &seen;
			for (size_t j = w; j < n; j += nw) {
				const Target &t = P->targets[j];
				Rng r(mix(99, j));
				bool hit = false;
				for (int k = 0; k < 40 && !hit; k++) {
					Case c;
					seen.clear();
					if (t.space()) enum_case(t, r.below(t.space()), c);
					else if (t.gen) t.gen(r, c);
					else gen_default(r, t, c);
					t.check(c, nullptr);
					for (auto o : seen) if (CHANGED.count(o->name)) hit = true;
				}
				m[j] = hit;
			}
			_exit(0);
		}
		pid.push_back(p);
	}
	for (pid_t p : pid) waitpid(p, nullptr, 0);
	for (size_t j = 0; j < n; j++) P->targets[j].changed = m[j];
	munmap(m, n);
}
static void boundaries(int nw)
{
	// computed in parallel children, results through a shared page
	std::vector<int> todo;
	for (size_t i = 0; i < P->targets.size(); i++) if (P->targets[i].boundary && P->targets[i].op) todo.push_back((int)i);
	if (todo.empty()) return;
	const int CAPN = 9000;
	int64_t *m = (int64_t *)mmap(nullptr, todo.size() * CAPN * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	std::vector<pid_t> pid;
	for (int w = 0; w < nw; w++) {
		pid_t p = fork();
		if (p == 0) {
			for (size_t j = w; j < todo.size(); j += nw) {
				auto v = boundary_points(*P->targets[todo[j]].op, P->targets[todo[j]].changed ? 4096 : 512);
				int k = (int)std::min<size_t>(v.size(), CAPN - 1);
				m[j * CAPN] = k;
				for (int q = 0; q < k; q++) m[j * CAPN + 1 + q] = v[q];
			}
			_exit(0);
		}
		pid.push_back(p);
	}
	for (pid_t p : pid) waitpid(p, nullptr, 0);
	for (size_t j = 0; j < todo.size(); j++) P->targets[todo[j]].bnd.assign(m + j * CAPN + 1, m + j * CAPN + 1 + m[j * CAPN]);
	munmap(m, todo.size() * CAPN * 8);
}
static double cpu_of(pid_t p)
{
	char b[64], l[1024];
	snprintf(b, sizeof b, "/proc/%d/stat", (int)p);
	FILE *f = fopen(b, "r");
	if (!f) return 0;
	size_t n = fread(l, 1, sizeof l - 1, f);
	fclose(f);
	l[n] = 0;
	char *q = strrchr(l, ')');
	unsigned long u = 0, s = 0;
	if (q) sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s);
	return (double)(u + s) / (double)sysconf(_SC_CLK_TCK);
}
int main(int argc, char **argv)
{
	std::string prop, replay, tier = getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", kfile, evid, rdir = ".";
	SEED = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
	double scale = 1, guide = 0;
	std::string only;
	int nw = (int)sysconf(_SC_NPROCESSORS_ONLN);
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--property") prop = nx();
		else if (a == "--replay") replay = nx();
		else if (a == "--known") kfile = nx();
		else if (a == "--evidence") evid = nx();
		else if (a == "--replay-dir") rdir = nx();
		else if (a == "--scale") scale = atof(nx().c_str());
		else if (a == "--stats") STATS = true;
		else if (a == "--guided") guide = atof(nx().c_str());
		else if (a == "--only") only = nx();
		else if (a == "--workers") nw = atoi(nx().c_str());
		else if (a == "--seed") SEED = strtoull(nx().c_str(), nullptr, 10);
	}
	if (nw > MAXW) nw = MAXW;
	if (nw < 2) nw = 2;
	bool thorough = tier == "thorough";
	T0 = now();
	CAP = getenv("TK_CAP") ? atof(getenv("TK_CAP")) : thorough ? 4 * 3600 : 600;
	FCAP = getenv("TK_FOCUS") ? atof(getenv("TK_FOCUS")) : thorough ? 1800 : 40;
	gen_init();
	build_properties();
	build_properties2();
	build_properties3();
	build_properties4(); build_properties5();
	for (auto &p : properties()) if (p.id == prop) P = &p;
	if (!P) { fprintf(stderr, "unknown property %s\n", prop.c_str()); return 2; }
	if (!only.empty()) {
		std::vector<Target> v;
		for (auto &t : P->targets) if (t.name.find(only) != std::string::npos) v.push_back(t);
		P->targets = v;
	}
	if (P->targets.empty() || P->targets.size() > MAXT) { fprintf(stderr, "bad target count %zu\n", P->targets.size()); return 2; }
	// known findings of this property
	struct Ex { std::string kf, target, what; Arg a[3]; };
	std::vector<Ex> exs;
	if (FILE *f = kfile.empty() ? nullptr : fopen(kfile.c_str(), "r")) {
		char line[2000];
		while (fgets(line, sizeof line, f)) {
			char kf[64], pid[64], tg[200], as[400];
			int off = 0;
			if (sscanf(line, "finding: id=%63s property=%63s target=%199s args=%399s what=%n", kf, pid, tg, as, &off) < 4 || off == 0) continue;
			if (prop != pid) continue;
			Ex e;
			e.kf = kf; e.target = tg; e.what = line + off;
			while (!e.what.empty() && (e.what.back() == '\n')) e.what.pop_back();
			std::string rest = as;
			for (int k = 0; k < 3 && !rest.empty(); k++) {
				size_t p = rest.find(',');
				parse_arg(rest.substr(0, p).c_str(), e.a[k]);
				rest = p == std::string::npos ? "" : rest.substr(p + 1);
			}
			KFON.insert(kf);
			known_index(kf);
			exs.push_back(e);
		}
		fclose(f);
	}
	if (!replay.empty()) {
		FILE *f = fopen(replay.c_str(), "r");
		if (!f) { fprintf(stderr, "cannot open %s\n", replay.c_str()); return 2; }
		char line[2000];
		std::string tg, mode = "case";
		Case c = {};
		std::vector<int> bl;
		while (fgets(line, sizeof line, f)) {
			std::string l = line;
			while (!l.empty() && l.back() == '\n') l.pop_back();
			size_t q = l.find('=');
			if (q == std::string::npos) continue;
			std::string k = l.substr(0, q), v = l.substr(q + 1);
			if (k == "target") tg = v;
			else if (k == "seed") SEED = strtoull(v.c_str(), nullptr, 10);
			else if (k == "mode") mode = v;
			else if (k == "block") bl.push_back(atoi(v.c_str()));
			else if (k.size() == 2 && k[0] == 'a') parse_arg(v.c_str(), c.a[k[1] - '0']);
		}
		fclose(f);
		int r;
		if (mode == "case") {
			int ti = find_target(tg);
			if (ti < 0) { fprintf(stderr, "no target %s\n", tg.c_str()); return 2; }
			std::string why;
			r = eval_iso(P->targets[ti], c);
			if (r < 2) P->targets[ti].check(c, &why);
			printf("%s: %s %s\n", show_case(P->targets[ti], c).c_str(), r == 0 ? "holds" : r == 1 ? "FAILS" : r == 2 ? "CRASHES" : "DOES NOT RETURN", why.c_str());
		} else {
			find_changed(nw);
			boundaries(nw);
			plan(scale * (thorough ? P->thorough : P->quick));
			r = isolated([&] { return run_blocks(bl, nullptr); }, 3600);
		}
		if (r) printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replay.c_str());
		return r ? 1 : 0;
	}
	std::string vio_why;
	bool violated = false;
	std::string rpath = rdir + "/" + prop + ".replay";
	auto write_replay = [&](const Target &t, const Case &c, const std::string &mode, const std::vector<int> &bl, const std::string &why) {
		FILE *f = fopen(rpath.c_str(), "w");
		if (!f) return;
		fprintf(f, "property=%s\nmode=%s\nseed=%llu\ntarget=%s\n", prop.c_str(), mode.c_str(), (unsigned long long)SEED, t.name.c_str());
		for (size_t k = 0; k < t.args.size(); k++) fprintf(f, "a%zu=%s\n", k, arg_text(t.args[k], c.a[k]).c_str());
		for (int b : bl) fprintf(f, "block=%d\n", b);
		fprintf(f, "# %s\n# %s\n", show_case(t, c).c_str(), why.c_str());
		fclose(f);
	};
	std::vector<std::string> kprinted;
	for (auto &e : exs) {
		int ti = find_target(e.target);
		if (ti < 0) { if (only.empty()) fprintf(stderr, "known finding %s: no target %s\n", e.kf.c_str(), e.target.c_str()); continue; }
		Case c = {};
		for (int k = 0; k < 3; k++) c.a[k] = e.a[k];
		if (isolated([&] { return P->targets[ti].check(c, nullptr).res == KNOWN; }) == 0) {
			printf("KNOWN-FINDING: property=%s %s: %s\n", prop.c_str(), e.kf.c_str(), e.what.c_str());
			kprinted.push_back(e.kf + ": " + e.what);
		}
	}
	fflush(stdout);
	find_changed(nw);
	boundaries(nw);
	if (guide > 0) { // coverage-guided: a share of the time for every target of interest
		if (!tk_cover) { fprintf(stderr, "the library is not instrumented\n"); return 2; }
		std::vector<int> ts;
		for (size_t i = 0; i < P->targets.size(); i++) if ((P->targets[i].changed || CHANGED.empty()) && !P->targets[i].space()) ts.push_back((int)i);
		BL.clear();
		if (!ts.empty()) {
			int reps = std::max<int>(1, (int)((2 * nw + ts.size() - 1) / ts.size()));
			double ms = guide * 1000 * nw / ((double)ts.size() * reps);
			for (int k = 0; k < reps; k++) for (int i : ts) BL.push_back({i, (1ull << 50) + k, (uint32_t)std::max(1.0, ms), GUIDED});
		}
	} else plan(scale * (thorough ? P->thorough : P->quick));
	S = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	BITS = (std::atomic<uint8_t> *)mmap(nullptr, NBITS / 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (S == MAP_FAILED || (void *)BITS == MAP_FAILED) { perror("mmap"); return 2; }
	S->minfail = LONG_MAX;
	std::vector<pid_t> pid(nw);
	for (int w = 0; w < nw; w++) {
		S->slot[w].block = -1;
		pid[w] = fork();
		if (pid[w] == 0) {
			rlimit nc = {0, 0};
			setrlimit(RLIMIT_CORE, &nc);
			worker(w);
			_exit(0);
		}
	}
	int alive = nw, crashed = -1, crashsig = 0;
	bool hung = false;
	std::vector<long> last(nw, -1);
	std::vector<double> lastcpu(nw, 0), lastt(nw, now());
	while (alive > 0) {
		int st;
		pid_t p = waitpid(-1, &st, WNOHANG);
		if (p > 0) {
			for (int w = 0; w < nw; w++) if (pid[w] == p) {
				pid[w] = 0;
				alive--;
				if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0) && crashed < 0) { crashed = w; crashsig = WIFSIGNALED(st) ? WTERMSIG(st) : -WEXITSTATUS(st); }
			}
			if (crashed >= 0) break;
			continue;
		}
		usleep(20000);
		for (int w = 0; w < nw; w++) if (pid[w] && S->slot[w].block >= 0) {
			long b = S->slot[w].beat;
			if (b != last[w]) { last[w] = b; lastt[w] = now(); lastcpu[w] = -1; continue; }
			if (now() - lastt[w] < 30) continue;
			double cu = cpu_of(pid[w]);
			if (lastcpu[w] < 0) lastcpu[w] = cu;
			if (cu - lastcpu[w] > 30) { crashed = w; hung = true; }
		}
		if (crashed >= 0) break;
	}
	for (int w = 0; w < nw; w++) if (pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], nullptr, 0); }
	if (crashed >= 0 && S->minfail == LONG_MAX) {
		Slot &sl = S->slot[crashed];
		if (sl.block < 0) { fprintf(stderr, "worker died before its first case (signal %d)\n", crashsig); return 2; }
		if (crashsig == SIGKILL && !hung) { fprintf(stderr, "worker was killed from outside\n"); return 2; }
		const Target &t = P->targets[sl.target];
		Case c = sl.c;
		int how = eval_iso(t, c);
		vio_why = hung ? "the call does not return" : "the call ended the process (signal/exit " + std::to_string(crashsig) + ")";
		violated = true;
		if (how >= 2) { c = shrink(t, c, how); write_replay(t, c, "case", {}, vio_why); }
		else write_replay(t, c, "history", {(int)sl.block}, vio_why);
		printf("FAILED %s: %s\n", show_case(t, c).c_str(), vio_why.c_str());
	} else if (S->minfail != LONG_MAX) {
		violated = true;
		const Target &t = P->targets[S->ftarget];
		Case c = S->fcase;
		int rep = 0;
		for (int k = 0; k < 3; k++) rep += eval_iso(t, c) != 0;
		std::string mode = "case";
		std::vector<int> bl;
		vio_why = S->fwhy;
		if (rep == 3) {
			c = shrink(t, c, 1);
			std::string why;
			if (eval_iso(t, c) == 1) { t.check(c, &why); vio_why = why; }
		} else { // depends on earlier calls: replay the block
			mode = "history";
			bl.push_back((int)S->fblock);
			bool again = isolated([&] { return run_blocks(bl, nullptr); }, 600) != 0;
			if (!again) { bl.clear(); for (int b = 0; b <= (int)S->fblock && b < 20000; b++) bl.push_back(b); }
			vio_why += " (only after earlier calls)";
		}
		write_replay(t, c, mode, bl, vio_why);
		printf("FAILED %s: %s\n", show_case(t, c).c_str(), vio_why.c_str());
	}
	long ev = 0, nt = 0, kn = 0;
	uint64_t exh = 0, lat = 0;
	for (auto &t : P->targets) lat += lattice(t);
	for (size_t i = 0; i < P->targets.size(); i++) { ev += S->evals[i]; nt += S->nontriv[i]; kn += S->known[i]; if (P->targets[i].space()) exh++; }
	if (STATS) for (size_t i = 0; i < P->targets.size(); i++) {
		std::string why;
		P->targets[i].check(S->maxcase[i], &why);
		printf("%-44s evals %9ld nontrivial %9ld known %7ld fails %7ld maxerr %-10.6g %s %s\n", P->targets[i].name.c_str(), (long)S->evals[i], (long)S->nontriv[i], (long)S->known[i], (long)S->fails[i], S->maxerr[i], show_case(P->targets[i], S->maxcase[i]).c_str(), why.c_str());
	}
	double wall = now() - T0;
	if (guide > 0 && !evid.empty()) {
		FILE *f = fopen(evid.c_str(), "w");
		if (!f) { perror(evid.c_str()); return 2; }
		fprintf(f, "{\"executions\": %ld, \"full_checks\": %ld, \"corpus\": %ld, \"edges\": %ld, \"searches\": %zu, \"wall_s\": %.1f, \"violations\": %d}\n", (long)S->gexec, (long)S->gcheck, (long)S->gcorpus, (long)S->gedges, BL.size(), wall, violated ? 1 : 0);
		fclose(f);
	} else if (!evid.empty()) {
		FILE *f = fopen(evid.c_str(), "w");
		if (!f) { perror(evid.c_str()); return 2; }
		fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n", prop.c_str(), thorough ? "thorough" : "quick", (unsigned long long)SEED);
		fprintf(f, " \"coverage\": {\n  \"evaluations\": %ld,\n  \"nontrivial\": %ld,\n  \"distinct_nontrivial\": %ld,\n  \"rule\": \"%s\",\n", ev, nt, (long)S->distinct, jesc(P->rule).c_str());
		fprintf(f, "  \"targets\": %zu,\n  \"targets_enumerated_completely\": %lu,\n  \"enumerated_exponent_mantissa_lattice\": %lu,\n  \"excluded_as_known_findings\": %ld,\n  \"truncated_by_time_cap\": %s,\n", P->targets.size(), (unsigned long)exh, (unsigned long)lat, kn, S->truncated ? "true" : "false");
		fprintf(f, "  \"nontrivial_per_target_min\": ");
		long mn = LONG_MAX;
		std::string mnn;
		for (size_t i = 0; i < P->targets.size(); i++) if (S->nontriv[i] < mn) { mn = S->nontriv[i]; mnn = P->targets[i].name; }
		fprintf(f, "{\"%s\": %ld},\n", jesc(mnn).c_str(), mn);
		fprintf(f, "  \"known_finding_cases\": {");
		bool first = true;
		for (size_t i = 0; i < KFIDS.size() && i < 32; i++) { fprintf(f, "%s\"%s\": %ld", first ? "" : ", ", KFIDS[i].c_str(), (long)S->kfcount[i]); first = false; }
		fprintf(f, "},\n  \"functions_changed\": %zu,\n  \"cases_focused_on_changed_functions\": %ld,\n  \"literals_new_to_the_source\": %zu,\n  \"samples\": [", CHANGED.size(), (long)S->focus, NOVEL_INT.size() + NOVEL_FLT.size());
		int ns = std::min<int>(S->nsample, SAMPLES);
		for (int i = 0; i < ns; i++) fprintf(f, "%s\n   \"%s\"", i ? "," : "", jesc(S->sample[i]).c_str());
		fprintf(f, "\n  ]\n },\n \"assumptions\": [\"GCC libquadmath binary128 functions are accurate to better than 2^-100\", \"x86-64 with 80-bit long double and glibc libm, as installed\"],\n \"wall_s\": %.3f,\n \"violations\": %d\n}\n", wall, violated ? 1 : 0);
		fclose(f);
	}
	long nch = 0;
	for (auto &t : P->targets) nch += t.changed;
	if (nch) printf("%s: %zu changed functions, %ld targets reach them, %ld further cases for those\n", prop.c_str(), CHANGED.size(), nch, (long)S->focus);
	if (guide > 0) printf("%s: coverage-guided: %ld executions, %ld full checks, corpus %ld, %ld edges, %.1f s\n", prop.c_str(), (long)S->gexec, (long)S->gcheck, (long)S->gcorpus, (long)S->gedges, wall);
	else printf("%s: %ld evaluations, %ld non-trivial, %ld distinct, %ld known, %zu targets, %.1f s\n", prop.c_str(), ev, nt, (long)S->distinct, kn, P->targets.size(), wall);
	if (violated) {
		printf("VIOLATION property=%s replay=%s\n", prop.c_str(), rpath.c_str());
		return 1;
	}
	return 0;
}
