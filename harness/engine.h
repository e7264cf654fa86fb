// Property-based testing engine: cases, generators, targets.
#ifndef ENGINE_H
#define ENGINE_H
#include "oracle.h"
#include <set>

// ------------------------------------------------------------------ random
struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed) : s(seed) {}
	uint64_t next()
	{
		uint64_t z = (s += 0x9e3779b97f4a7c15ull);
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
		z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
		return z ^ (z >> 31);
	}
	uint64_t below(uint64_t n) { return (uint64_t)(((unsigned __int128)next() * n) >> 64); }
	int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
	bool one_in(int n) { return below(n) == 0; }
};
uint64_t mix(uint64_t a, uint64_t b);

// -------------------------------------------------------------------- case
enum ArgKind { A_TAKUM, A_INT, A_FLOAT };
struct ArgSpec { ArgKind kind; int t; };    // t: takum type or float kind
struct Arg { int64_t i; ldbl f; };
struct Case { Arg a[3]; };

enum Res { PASS, TRIVIAL, KNOWN, FAIL };
struct Verdict {
	Res res;
	int kf;              // index of the known finding when res == KNOWN
	double err;          // distance from the accepted set/true value, for calibration
};
typedef std::function<Verdict(const Case &, std::string *why)> CheckFn;
typedef std::function<void(Rng &, Case &)> GenFn;

struct Target {
	std::string name;
	std::vector<ArgSpec> args;
	CheckFn check;
	GenFn gen;                          // may be empty: default generation from args
	double weight = 1;
	const Op *op = nullptr;             // for boundary points
	bool boundary = false;              // compute boundary points of the function
	bool exhaustive = false;            // enumerate the space completely as well
	uint64_t space() const;             // size of the space when enumerable (<= 2^17), else 0
	std::vector<int64_t> bnd;           // filled by the engine
	bool changed = false;               // calls a function whose compiled code differs from the fingerprints
};
struct Property {
	std::string id;
	std::string rule;
	std::vector<Target> targets;
	double quick, thorough;             // number of random cases for weight sum, in millions
};

// --------------------------------------------------------------- generators
void gen_init();                            // harvest dictionaries
int64_t gen_takum(Rng &, int type, const std::vector<int64_t> *bnd);
int64_t gen_int(Rng &, int type);
ldbl gen_float(Rng &, int kind);
void gen_pair(Rng &, const Op *op, int type, int64_t &a, int64_t &b, const std::vector<int64_t> *bnd);
void gen_default(Rng &, const Target &, Case &);
uint64_t lattice_size(const ArgSpec &);
void lattice_arg(const ArgSpec &, uint64_t i, Arg &);
std::vector<int64_t> boundary_points(const Op &, int grid);
extern std::vector<int64_t> DICT_INT;       // all integer literals
extern std::vector<ldbl> DICT_FLT;
extern std::vector<int64_t> NOVEL_INT;      // those not in the committed baseline list
extern std::vector<ldbl> NOVEL_FLT;
extern std::set<std::string> CHANGED;       // public functions whose compiled code is not the one fingerprinted

// ---------------------------------------------------------- known findings
struct Known { std::string id; };
bool known_enabled(const char *id);         // listed in the known-findings file
int known_index(const char *id);

std::vector<Property> &properties();        // the registry, built by props.cpp
void build_properties();
void build_properties2();
// is the result of a unary, binary or integer operation (or the given result) one its accuracy property allows?
bool tk_correct(const Op &o, int64_t a, int64_t b, const int64_t *given);
// the same for any kind of operation, with the precision in which arguments are held
Verdict tk_judge(const Op &o, const Case &c, const Arg &given, quad eps, std::string *why);
void build_properties3();
void build_properties4();
void build_properties5();
std::string show_case(const Target &, const Case &);
#endif
