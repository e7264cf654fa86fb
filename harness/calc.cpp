// C27: example/calculator against a model of the documented stack machine.
// calc --exe PLAIN --san SANITIZED --sessions N --dir SCRATCH --evidence F --replay-file F [--replay F]
#include "engine.h"
#include <quadmath.h>
#include <cstdio>
#include <cstdlib>
#include <algorithm>
#include <set>
#include <atomic>
#include <cerrno>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <time.h>

typedef std::vector<std::string> Session; // lines without the newline
// identifiers of the calculator and the library functions they stand for
static const char *UN[][2] = {{"abs", "absolute"}, {"inv", "inversion"}, {"sqrt", "square_root"}};
static const char *SAME[] = {"arccos", "arccos_over_pi", "arccot", "arccot_over_pi", "arccsc", "arccsc_over_pi", "arcosh", "arcoth", "arcsch", "arcsec", "arcsec_over_pi", "arcsin", "arcsin_over_pi",
	"arctan", "arctan_over_pi", "arsech", "arsinh", "artanh", "cos", "cos_pi_times", "cosh", "cot", "cot_pi_times", "coth", "csc", "csc_pi_times", "csch", "exp", "exp_minus_1", "lb", "lb_1_plus",
	"lg", "lg_1_plus", "ln", "ln_1_plus", "sec", "sec_pi_times", "sech", "sign", "sin", "sin_pi_times", "sinh", "tan", "tan_pi_times", "tanh"};
static const char *BIN[][2] = {{"+", "addition"}, {"-", "subtraction"}, {"*", "multiplication"}, {"/", "division"}, {"arctan2", "arctan2"}, {"arctan2_over_pi", "arctan2_over_pi"}, {"hypotenuse", "hypotenuse"}};

static std::string un_base(const std::string &t)
{
	for (auto &u : UN) if (t == u[0]) return u[1];
	for (auto &u : SAME) if (t == u) return u;
	return "";
}
static std::string bin_base(const std::string &t)
{
	for (auto &u : BIN) if (t == u[0]) return u[1];
	return "";
}
static const Op &op(int t, const std::string &b)
{
	static std::map<std::string, const Op *> m;
	std::string k = std::string(TYPES[t].name) + "_" + b;
	auto &p = m[k];
	if (!p) p = tk_find(k);
	if (!p) { fprintf(stderr, "no function %s\n", k.c_str()); exit(2); }
	return *p;
}
struct Num { int type = 0; int64_t v[8] = {0}; bool integral = true; int64_t i = 0; bool token = false; };
static void spread(Num &x)
{
	for (int s = 0; s < 8; s++) if (s != x.type) x.v[s] = tk_call_conv(op(s, std::string("from_") + TYPES[x.type].name), x.v[x.type]);
}
static Num number(int t, int64_t v)
{
	Num x;
	x.type = t;
	x.v[t] = v;
	spread(x);
	int n = TYPES[t].n;
	x.integral = false;
	Dec d = tk_decode(t, v);
	if (d.k == R_ZERO) { x.integral = true; x.i = 0; }
	else if (d.k == R_NUM && !TYPES[t].lin) { if (v == tk_one(n) || v == -tk_one(n)) { x.integral = true; x.i = v > 0 ? 1 : -1; } }
	else if (d.k == R_NUM && d.x == rintq(d.x) && d.x >= -0x1p63Q && d.x < 0x1p63Q) { x.integral = true; x.i = (int64_t)d.x; }
	return x;
}
struct Line { bool value = false; char reg = 0; Num num; bool error = false, silent = false; bool ops = false; };
// Known findings (known_findings.txt): integers below the range of long long are
// read as INT64_MIN; values of linear takums that are no int64_t are cast to it
static bool KF_INT = false, KF_CAST = false;
struct Hits { long ints = 0, casts = 0; };
struct Model {
	int type = 3;
	bool clamp = false; // with KF-CALC-INT
	long clamped = 0;
	Num reg[26];
	int off = 0;
	Line line(const std::string &text)
	{
		Line out;
		std::vector<Num> st;
		std::vector<std::string> tok;
		std::string cur;
		for (char c : text) { if (c == ' ' || c == '\n') { if (!cur.empty()) tok.push_back(cur); cur.clear(); } else cur += c; }
		if (!cur.empty()) tok.push_back(cur);
		if (tok.empty()) return out;
		for (auto &t : tok) {
			auto need = [&](size_t k) { if (st.size() < k) { out.error = true; return false; } return true; };
			if (t.size() == 1 && t[0] >= 'a' && t[0] <= 'z') { st.push_back(reg[t[0] - 'a']); continue; }
			if (t == "?") { return out; }
			bool sw = false;
			for (int k = 0; k < 8; k++) if (t == TYPES[k].name) { type = k; sw = true; }
			if (sw) return out;
			std::string b = un_base(t);
			if (!b.empty()) {
				if (!need(1)) return out;
				Num a = st.back(); st.pop_back();
				st.push_back(number(type, tk_call_un(op(type, b), a.v[type])));
				out.ops = true;
				continue;
			}
			b = bin_base(t);
			if (!b.empty() || t == "^" || t == "root") {
				if (!need(2)) return out;
				Num y = st.back(); st.pop_back();
				Num x = st.back(); st.pop_back();
				if (t == "root" && !y.integral) { out.silent = true; return out; }
				int64_t r;
				if (t == "root") r = tk_call_int(op(type, "root"), x.v[type], y.i);
				else if (t == "^" && y.integral) r = tk_call_int(op(type, "integer_power"), x.v[type], y.i);
				else r = tk_call_bin(op(type, t == "^" ? "power" : b), x.v[type], y.v[type]);
				st.push_back(number(type, r));
				out.ops = true;
				continue;
			}
			if (t == "precision") {
				if (!need(1)) return out;
				Num a = st.back(); st.pop_back();
				st.push_back(number(type, tk_call_fromf(op(type, "from_extended_float"), (ldbl)tk_call_prec(op(type, "precision"), a.v[type]))));
				out.ops = true;
				continue;
			}
			// a number, as C reads it
			char *e1, *e2;
			errno = 0;
			long long i = strtoll(t.c_str(), &e1, 0);
			bool range = errno == ERANGE || i == INT64_MAX;
			if (clamp && !*e1 && errno == ERANGE && i == INT64_MIN) { range = false; clamped++; }
			ldbl f = strtold(t.c_str(), &e2);
			if (t.find_first_of("bB") != std::string::npos && t.find_first_of("xX") == std::string::npos) {
				// 0b101 is a number in C23 and an error before
				out.silent = true;
				return out;
			}
			Num x;
			x.type = type;
			x.token = true;
			if (!*e1) {
				x.integral = !range;
				x.i = i;
				f = range ? NAN : (ldbl)i;
			} else if (!*e2) {
				x.integral = f == 0 || f == 1 || f == -1;
				x.i = x.integral ? (int64_t)f : 0;
			} else { out.error = true; return out; }
			x.v[type] = tk_call_fromf(op(type, "from_extended_float"), f);
			spread(x);
			st.push_back(x);
		}
		if (st.size() != 1) { out.error = true; return out; }
		out.value = true;
		out.num = st[0];
		out.reg = (char)('a' + off);
		reg[off] = st[0];
		off = (off + 1) % 26;
		return out;
	}
};
static bool same_value(const Num &x, const std::string &s)
{
	if (x.integral) {
		if (s == std::to_string(x.i)) return true;
		if (x.token) return false;
	}
	Dec d = tk_decode(x.type, x.v[x.type]);
	if (d.k == R_NAR) return s == "NaR";
	char *e;
	ldbl f = strtold(s.c_str(), &e);
	if (e == s.c_str() || *e) return false;
	if (d.k == R_ZERO) return f == 0;
	return fabsq((quad)f - d.x) <= 1e-5Q * fabsq(d.x);
}
static std::string DIR_;
static std::string slurp(const std::string &p)
{
	std::string s;
	FILE *f = fopen(p.c_str(), "rb");
	if (!f) return s;
	char b[65536];
	size_t k;
	while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
	fclose(f);
	return s;
}
// the reports of KF-CALC-CAST taken out of the error output
static std::string drop_casts(const std::string &err, long &n)
{
	std::string o;
	size_t at = 0;
	auto next = [&] { size_t e = err.find('\n', at); e = e == std::string::npos ? err.size() : e + 1; std::string l = err.substr(at, e - at); at = e; return l; };
	while (at < err.size()) {
		std::string l = next();
		size_t q = l.find(": runtime error: "), x = l.find(" is outside the range of representable values of type 'long int'");
		if (q != std::string::npos && x != std::string::npos) {
			size_t save = at;
			std::string f = next(), v = l.substr(q + 17, x - q - 17);
			double d = strtod(v.c_str(), nullptr);
			bool site = false;
			for (const char *w : {"8", "16", "32", "64"}) site |= f.find(std::string(" in number_from_takum_linear") + w + " ") != std::string::npos;
			if (site && !(d > -9.2e18 && d < 9.2e18)) {
				n++;
				while (at < err.size()) { save = at; l = next(); if (l.compare(0, 5, "    #") && l != "\n") { at = save; break; } }
				continue;
			}
			at = save;
		}
		o += l;
	}
	return o;
}
struct Stat { long lines = 0, nontriv = 0; std::set<uint64_t> seen; };
// empty string: as the model says
static std::string compare(const Session &se, const std::string &out, const std::string &err, bool clamp, Stat *st, long *clamped);
static std::string judge(const std::string &exe, const Session &se, bool last_newline, Stat *st, Hits *kn = nullptr)
{
	std::string id = DIR_ + "/" + std::to_string(getpid());
	std::string in = id + ".in", so = id + ".out", er = id + ".err", text;
	for (size_t k = 0; k < se.size(); k++) { text += se[k]; if (k + 1 < se.size() || last_newline) text += '\n'; }
	FILE *f = fopen(in.c_str(), "wb");
	if (!f) { perror("scratch"); exit(2); }
	fwrite(text.data(), 1, text.size(), f);
	fclose(f);
	pid_t p = fork();
	if (p == 0) {
		rlimit rl = {30, 32}, nc = {0, 0}, fs = {1u << 26, 1u << 26};
		setrlimit(RLIMIT_CPU, &rl);
		setrlimit(RLIMIT_CORE, &nc);
		setrlimit(RLIMIT_FSIZE, &fs);
		int a = open(in.c_str(), O_RDONLY), b = open(so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), c = open(er.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
		dup2(a, 0); dup2(b, 1); dup2(c, 2);
		execl(exe.c_str(), exe.c_str(), (char *)nullptr);
		_exit(127);
	}
	int w;
	while (waitpid(p, &w, 0) < 0) {}
	if (WIFEXITED(w) && WEXITSTATUS(w) == 127) { fprintf(stderr, "cannot run %s\n", exe.c_str()); exit(2); }
	std::string out = slurp(so), err = slurp(er);
	long casts = 0, clamped = 0;
	if (KF_CAST) err = drop_casts(err, casts);
	if (err.find(": runtime error: ") != std::string::npos || !(WIFEXITED(w) && WEXITSTATUS(w) == 0)) {
		std::string first;
		size_t q = err.find("runtime error");
		if (q == std::string::npos) q = err.find("ERROR: ");
		if (q != std::string::npos) first = err.substr(q, err.find('\n', q) - q);
		return "the calculator ended with " + std::string(WIFSIGNALED(w) ? "signal " : "status ") + std::to_string(WIFSIGNALED(w) ? WTERMSIG(w) : WEXITSTATUS(w)) + (first.empty() ? "" : ": " + first);
	}
	std::string why = compare(se, out, err, false, st, &clamped);
	if (!why.empty() && KF_INT && compare(se, out, err, true, nullptr, &clamped).empty()) why.clear();
	if (kn) { kn->casts += casts > 0; kn->ints += clamped > 0; }
	return why;
}
static std::string compare(const Session &se, const std::string &out, const std::string &err, bool clamp, Stat *st, long *clamped)
{
	std::vector<std::pair<char, std::string>> got;
	size_t at = 0;
	while (at < out.size()) {
		size_t e = out.find('\n', at);
		if (e == std::string::npos) e = out.size();
		std::string l = out.substr(at, e - at);
		at = e + 1;
		while (l.compare(0, 2, "> ") == 0) l = l.substr(2);
		if (l.size() > 5 && l.compare(1, 5, " \xe2\x86\x90 ") == 0) got.push_back({l[0], l.substr(6)});
	}
	long elines = std::count(err.begin(), err.end(), '\n');
	Model m;
	m.clamp = clamp;
	size_t k = 0;
	long errs = 0, silent = 0;
	for (size_t i = 0; i < se.size(); i++) {
		std::string src = se[i];
		Line l = m.line(src);
		errs += l.error;
		silent += l.silent;
		if (st) st->lines++;
		if (!l.value) continue;
		if (k >= got.size()) return "line " + std::to_string(i + 1) + " '" + src.substr(0, 200) + "': no result, expected one in register " + l.reg;
		if (got[k].first != l.reg) return "line " + std::to_string(i + 1) + " '" + src.substr(0, 200) + "': result in register " + got[k].first + ", expected " + l.reg;
		if (!same_value(l.num, got[k].second)) {
			Dec d = tk_decode(l.num.type, l.num.v[l.num.type]);
			return "line " + std::to_string(i + 1) + " '" + src.substr(0, 200) + "': printed " + got[k].second + ", expected " + (l.num.integral ? std::to_string(l.num.i) : d.k == R_NAR ? "NaR" : qstr(d.x));
		}
		k++;
		if (st && l.ops && l.num.v[l.num.type] != 0 && l.num.v[l.num.type] != tk_nar(TYPES[l.num.type].n)) {
			st->nontriv++;
			uint64_t h = 1469598103934665603ull;
			for (char c : src) h = (h ^ (unsigned char)c) * 1099511628211ull;
			st->seen.insert(h ^ (uint64_t)l.num.v[l.num.type] * 0x9e3779b97f4a7c15ull);
		}
	}
	if (k != got.size()) return "more results (" + std::to_string(got.size()) + ") than lines with one (" + std::to_string(k) + ")";
	if (elines < errs || elines > errs + silent) return std::to_string(elines) + " messages on the error output, expected " + std::to_string(errs);
	*clamped = m.clamped;
	return "";
}
// ------------------------------------------------------------- generator
static std::string gnum(Rng &r)
{
	char b[128];
	switch (r.below(14)) {
	case 0: case 1: case 2: return std::to_string(r.range(-12, 12));
	case 3: return std::to_string((int64_t)r.next() >> r.below(64));
	case 4: { static const char *s[] = {"9223372036854775807", "9223372036854775806", "-9223372036854775808", "-9223372036854775807", "9223372036854775808", "-9223372036854775809", "99999999999999999999999", "-99999999999999999999999", "0", "-0", "0.0", "-0.0", "1.0", "-1.0", "+1", "1e0", "0x1p0", "2147483648", "4294967296"}; return s[r.below(19)]; }
	case 5: snprintf(b, sizeof b, "0x%llx", (unsigned long long)(r.next() >> (1 + r.below(63)))); return b;
	case 6: snprintf(b, sizeof b, "0%llo", (unsigned long long)(r.next() >> (1 + r.below(63)))); return b;
	case 7: { static const char *s[] = {"inf", "-inf", "nan", "NaN", "infinity", "1e400", "1e5000", "-1e5000", "1e-400", "1e-5000", "1e76", "1e-77", "1e55", "1e-56"}; return s[r.below(14)]; }
	case 8: snprintf(b, sizeof b, "%.*Lg", (int)r.range(1, 21), gen_float(r, (int)r.below(3))); return b;
	case 9: snprintf(b, sizeof b, "%La", gen_float(r, (int)r.below(3))); return b;
	case 10: { int t = (int)r.below(8); Dec d = tk_decode(t, gen_takum(r, t, nullptr)); if (d.k != R_NUM) return "0"; snprintf(b, sizeof b, "%.21Lg", (ldbl)d.x); return b; }
	case 11: snprintf(b, sizeof b, "%lld.5", (long long)r.range(-30, 30)); return b;
	case 12: snprintf(b, sizeof b, "%g", (double)r.range(-400, 400) / 100); return b;
	default: return std::to_string(r.range(-1000, 1000));
	}
}
static std::string garbage(Rng &r)
{
	static const char *s[] = {"A", "aa", "++", "1x", "0x", "1e", "--1", "1,5", "sinn", "si", "takum", "takum128", "takum_linear", "sin(", "\t", "1\t2", "\r", "^^", "root2", ".", "e5", "1 .. 2", "\xe2\x86\x90", "SIN", "pi", "1_000", "%s%n", "?a", "precision8", "=", "~", "2_raised"};
	if (r.below(4)) return s[r.below(33)];
	std::string g;
	for (int k = (int)r.range(1, 12); k > 0; k--) { char c = (char)r.range(1, 255); if (c == '\n') c = '!'; g += c; }
	return g;
}
static std::string reg(Rng &r) { return std::string(1, (char)('a' + (r.one_in(4) ? r.below(26) : r.below(6)))); }
static void expr(Rng &r, int depth, std::vector<std::string> &o)
{
	if (depth <= 0 || r.one_in(5)) { o.push_back(r.one_in(3) ? reg(r) : gnum(r)); return; }
	switch (r.below(8)) {
	case 0: case 1: case 2: { expr(r, depth - 1, o); int k = (int)r.below(50); o.push_back(k < 3 ? UN[k][0] : k < 48 ? SAME[k - 3] : "precision"); break; }
	case 3: expr(r, depth - 1, o); o.push_back(r.one_in(3) ? reg(r) : std::to_string(r.one_in(3) ? (int64_t)r.next() >> r.below(64) : r.range(-9, 9))); o.push_back(r.one_in(2) ? "root" : "^"); break;
	case 4: expr(r, depth - 1, o); expr(r, depth - 1, o); o.push_back("^"); break;
	default: expr(r, depth - 1, o); expr(r, depth - 1, o); o.push_back(BIN[r.below(r.one_in(3) ? 7 : 4)][0]); break;
	}
}
static Session gen_session(uint64_t seed, bool &nl)
{
	Rng r(seed);
	Session s;
	int n = (int)r.range(1, r.one_in(3) ? 90 : 30);
	nl = !r.one_in(6);
	for (int i = 0; i < n; i++) {
		std::vector<std::string> t;
		if (r.one_in(8)) { t.push_back(TYPES[r.below(8)].name); if (r.one_in(4)) expr(r, 1, t); }
		else if (r.one_in(40)) { }
		else if (r.one_in(60)) { t.push_back("?"); }
		else {
			expr(r, (int)r.range(0, 4), t);
			if (r.one_in(12) && !t.empty()) t.erase(t.begin() + (long)r.below(t.size()));
			if (r.one_in(14)) t.insert(t.begin() + (long)r.below(t.size() + 1), garbage(r));
			if (r.one_in(20)) t.insert(t.begin() + (long)r.below(t.size() + 1), TYPES[r.below(8)].name);
			if (r.one_in(20)) t.insert(t.begin() + (long)r.below(t.size() + 1), gnum(r));
			if (r.one_in(150)) { // a deep stack or a very long line
				t.clear();
				int d = (int)r.range(200, 3000);
				for (int k = 0; k < d; k++) t.push_back(r.one_in(5) ? reg(r) : std::to_string(r.range(-9, 9)));
				for (int k = 0; k + 1 < d; k++) t.push_back(BIN[r.below(2)][0]);
			}
		}
		std::string l;
		for (size_t k = 0; k < t.size(); k++) { if (k || r.one_in(20)) l += r.one_in(20) ? "   " : " "; l += t[k]; }
		if (r.one_in(20)) l += " ";
		if (r.one_in(200)) { // filled up to a length around those at which line buffers grow
			static const long cap[] = {128, 256, 512, 1024, 2048, 4096, 8192, 10240, 12800, 16000, 16384, 20000, 25000, 31250, 32768, 39062, 65536, 70000};
			long n = cap[r.below(18)] + r.range(-3, 2) - (long)l.size();
			size_t at = l.find(' ', r.below(l.size() + 1));
			if (n > 0) l.insert(at == std::string::npos ? (r.one_in(2) ? l.size() : 0) : at, (size_t)n, ' ');
		}
		s.push_back(l);
	}
	return s;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static std::string jesc(const std::string &s)
{
	std::string o;
	char b[8];
	for (unsigned char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += (char)c; } else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; } else o += (char)c; }
	return o;
}
struct Shm { std::atomic<long> lines, nontriv, kints, kcasts, sessions, distinct, bad; std::atomic<long> next; };
int main(int argc, char **argv)
{
	std::string exe, san, ev, rf, replay, known;
	long n = 1000, ns = 100;
	uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), nullptr, 10) : 1;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--exe") exe = nx();
		else if (a == "--san") san = nx();
		else if (a == "--sessions") n = atol(nx().c_str());
		else if (a == "--san-sessions") ns = atol(nx().c_str());
		else if (a == "--dir") DIR_ = nx();
		else if (a == "--evidence") ev = nx();
		else if (a == "--known") known = nx();
		else if (a == "--replay-file") rf = nx();
		else if (a == "--replay") replay = nx();
	}
	gen_init();
	std::vector<std::string> listed;
	if (FILE *f = fopen(known.c_str(), "r")) {
		char b[4096];
		while (fgets(b, sizeof b, f)) {
			std::string l = b;
			if (l.compare(0, 9, "finding: ") || l.find(" property=C27 ") == std::string::npos) continue;
			if (!l.empty() && l.back() == '\n') l.pop_back();
			(l.find("id=KF-CALC-INT ") != std::string::npos ? KF_INT : KF_CAST) = true;
			listed.push_back(l);
		}
		fclose(f);
	}
	double t0 = now();
	if (!replay.empty()) {
		std::string b = slurp(replay), h = "property=C27\n";
		size_t q = b.find("---\n");
		if (q == std::string::npos) { fprintf(stderr, "no session in %s\n", replay.c_str()); return 2; }
		bool nl = b.find("newline=1") < q;
		b = b.substr(q + 4);
		Session s(1);
		for (char c : b) { if (c == '\n') s.push_back(""); else s.back() += c; }
		if (s.size() > 1 && s.back().empty() && nl) s.pop_back();
		for (auto &x : {exe, san}) {
			std::string why = judge(x, s, nl, nullptr);
			if (!why.empty()) { printf("%s\nVIOLATION property=C27 replay=%s\n", why.c_str(), replay.c_str()); return 1; }
		}
		printf("holds\n");
		return 0;
	}
	for (auto &l : listed) { // the example of each finding, if it still fails
		size_t a = l.find(" args="), w = l.find(" what="), i = l.find("id=");
		if (a == std::string::npos || w == std::string::npos) continue;
		Session s(1);
		for (char c : l.substr(a + 6, w - a - 6)) { if (c == ';') s.push_back(""); else s.back() += c == ',' ? ' ' : c; }
		Hits kn;
		judge(exe, s, true, nullptr, &kn);
		judge(san, s, true, nullptr, &kn);
		if (kn.ints || kn.casts) printf("KNOWN-FINDING: property=C27 %s: %s\n", l.substr(i + 3, l.find(' ', i) - i - 3).c_str(), l.substr(w + 6).c_str());
	}
	fflush(stdout);
	Shm *S = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	S->bad = -1;
	int nw = std::max(2, (int)sysconf(_SC_NPROCESSORS_ONLN));
	long total = n + ns;
	std::vector<pid_t> pid;
	for (int w = 0; w < nw; w++) {
		pid_t p = fork();
		if (p == 0) {
			Stat st;
			Hits kn;
			for (;;) {
				long k = S->next++;
				if (k >= total || S->bad >= 0) break;
				bool nl;
				Session s = gen_session(mix(seed, (uint64_t)k), nl);
				if (!judge(k < n ? exe : san, s, nl, &st, &kn).empty()) { long e = -1; S->bad.compare_exchange_strong(e, k); break; }
				S->sessions++;
			}
			S->kints += kn.ints; S->kcasts += kn.casts; S->lines += st.lines; S->nontriv += st.nontriv; S->distinct += (long)st.seen.size();
			_exit(0);
		}
		pid.push_back(p);
	}
	bool err = false;
	for (pid_t p : pid) { int w; waitpid(p, &w, 0); if (!WIFEXITED(w) || WEXITSTATUS(w)) err = true; }
	if (err && S->bad < 0) { fprintf(stderr, "a worker failed\n"); return 2; }
	bool viol = false;
	std::string why;
	if (S->bad >= 0) {
		long k = S->bad;
		bool nl;
		Session s = gen_session(mix(seed, (uint64_t)k), nl);
		const std::string &x = k < n ? exe : san;
		int rep = 0;
		for (int i = 0; i < 3; i++) rep += !(why = judge(x, s, nl, nullptr)).empty();
		viol = rep > 0;
		int budget = 1500;
		auto bad = [&](const Session &c, bool l) { if (budget-- <= 0) return false; std::string y = judge(x, c, l, nullptr); if (y.empty()) return false; why = y; return true; };
		if (!nl && bad(s, true)) nl = true;
		for (size_t step = s.size() / 2; step >= 1; step /= 2) // fewer lines
			for (size_t i = 0; i + step <= s.size() && s.size() > step;) { Session c = s; c.erase(c.begin() + (long)i, c.begin() + (long)(i + step)); if (bad(c, nl)) s = c; else i += step; }
		for (size_t i = 0; i < s.size(); i++) // fewer tokens
			for (size_t at = 0; at < s[i].size() && budget > 0;) {
				size_t e = s[i].find(' ', at);
				if (e == std::string::npos) e = s[i].size(); else e++;
				Session c = s;
				c[i].erase(at, e - at);
				if (bad(c, nl)) s = c; else at = e;
			}
		FILE *f = fopen(rf.c_str(), "wb");
		if (f) {
			fprintf(f, "property=C27 newline=%d\n# %s\n---\n", nl, why.c_str());
			for (size_t i = 0; i < s.size(); i++) fprintf(f, "%s%s", s[i].c_str(), i + 1 < s.size() || nl ? "\n" : "");
			fclose(f);
		}
		printf("FAILED (reproduced %d of 3): %s\n", rep, why.c_str());
	}
	double wall = now() - t0;
	if (!ev.empty()) {
		FILE *f = fopen(ev.c_str(), "w");
		if (!f) { perror("evidence"); return 2; }
		fprintf(f, "{\n \"property\": \"C27\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": %ld,\n  \"nontrivial\": %ld,\n  \"distinct_nontrivial\": %ld,\n", getenv("VERIF_TIER") ? getenv("VERIF_TIER") : "quick", (unsigned long long)seed, (long)S->lines, (long)S->nontriv, (long)S->distinct);
		fprintf(f, "  \"rule\": \"Generated calculator sessions of up to 90 lines (RPN expression trees over all operators, registers, number spellings and type switches, with deleted, inserted and malformed tokens, deep stacks and very long lines); an evaluation is a line; non-trivial: a line that applies an operator and whose result is neither 0 nor NaR. distinct: by line text and result, per worker.\",\n");
		fprintf(f, "  \"sessions\": %ld,\n  \"sessions_with_sanitizers\": %ld,\n  \"sessions_with_known_finding_KF_CALC_INT\": %ld,\n  \"sessions_with_known_finding_KF_CALC_CAST\": %ld,\n  \"samples\": [", (long)S->sessions, ns, (long)S->kints, (long)S->kcasts);
		bool nl;
		Session s = gen_session(mix(seed, 3), nl), s2 = gen_session(mix(seed, 5), nl);
		s.insert(s.end(), s2.begin(), s2.end());
		for (size_t i = 0; i < s.size() && i < 24; i++) fprintf(f, "%s\n   \"%s\"", i ? "," : "", jesc(s[i].substr(0, 160)).c_str());
		fprintf(f, "\n  ]\n },\n \"assumptions\": [\"numbers are read as the C library's strtoll and strtold read them\", \"the library functions themselves are judged by the other properties\"],\n \"wall_s\": %.3f,\n \"violations\": %d\n}\n", wall, viol ? 1 : 0);
		fclose(f);
	}
	printf("C27: %ld sessions, %ld lines, %ld non-trivial, %ld distinct, %.1f s\n", (long)S->sessions, (long)S->lines, (long)S->nontriv, (long)S->distinct, wall);
	if (viol) { printf("VIOLATION property=C27 replay=%s\n", rf.c_str()); return 1; }
	return 0;
}
