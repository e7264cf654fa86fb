// Shared vocabulary of the harness: takum types, argument kinds, API table.
#ifndef TK_H
#define TK_H
#include <cstdint>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <functional>
#include <map>

typedef __float128 quad;
typedef long double ldbl;

// type index: 0..3 = takum8/16/32/64, 4..7 = takum_linear8/16/32/64
struct TypeInfo { const char *name; int n; bool lin; };
static const TypeInfo TYPES[8] = {
	{"takum8", 8, false}, {"takum16", 16, false}, {"takum32", 32, false}, {"takum64", 64, false},
	{"takum_linear8", 8, true}, {"takum_linear16", 16, true}, {"takum_linear32", 32, true}, {"takum_linear64", 64, true},
};
static inline int64_t tk_nar(int n) { return n == 64 ? INT64_MIN : -((int64_t)1 << (n - 1)); }
static inline int64_t tk_max(int n) { return n == 64 ? INT64_MAX : ((int64_t)1 << (n - 1)) - 1; }
static inline int64_t tk_one(int n) { return (int64_t)1 << (n - 2); }
static inline int64_t tk_wrap(int n, uint64_t v) { return (int64_t)(v << (64 - n)) >> (64 - n); }
static inline int64_t tk_neg(int n, int64_t v) { return tk_wrap(n, (uint64_t)0 - (uint64_t)v); }

// operation kinds
enum Kind { K_UN, K_BIN, K_INT, K_PREC, K_FROMF, K_TOF, K_CONV };

// floats travel as their bit patterns: kind 0 float32, 1 float64, 2 extended
struct FBits { uint64_t lo; uint16_t hi; };

struct Op {
	std::string name;    // full C name
	std::string base;    // e.g. "addition"
	Kind kind;
	int t;               // takum type (result type, or argument type for K_TOF/K_PREC)
	int t2;              // K_CONV: source type; K_FROMF/K_TOF: float kind 0/1/2
	void *fn;
};
const std::vector<Op> &tk_ops();
const Op *tk_find(const std::string &name);
extern std::vector<const Op *> *tk_trace; // when set, the operations called are appended
int64_t tk_call_un(const Op &, int64_t a);
int64_t tk_call_bin(const Op &, int64_t a, int64_t b);
int64_t tk_call_int(const Op &, int64_t a, int64_t n);
unsigned tk_call_prec(const Op &, int64_t a);
int64_t tk_call_fromf(const Op &, ldbl f);   // f is cast to the operation's own float type
ldbl tk_call_tof(const Op &, int64_t a);
int64_t tk_call_conv(const Op &, int64_t a);
#endif
