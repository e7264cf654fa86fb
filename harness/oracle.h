// Reference model of takum arithmetic, written from the takum definition and
// the manual pages, independent of the library: exact decode, the position of
// a real number in the ordered ring of n-bit strings, and the true value of
// every documented function in IEEE binary128.
#ifndef ORACLE_H
#define ORACLE_H
#include "tk.h"

enum RK { R_NAR, R_ZERO, R_NUM };
struct Real {            // an exact (to ~110 bits) real, or NaR
	RK k; quad v;        // v: clamped into [1e-4000, 1e4000] in magnitude
	bool hasL = false;   // log-domain magnitude known: |x| = exp(L/2)
	quad L = 0;
};
struct Dec {             // decoded takum
	RK k; bool s; int c; quad m; quad x; quad l; // l only for log: |x|=exp(l/2)
};
Dec tk_decode(int type, int64_t t);
// position of a real in the n-bit integer order, saturated to +-[1, max]; 0 for zero
quad tk_pos(int type, const Real &r);
quad tk_pos_log(int n, bool s, quad L);   // log types: from sign and L
quad tk_pos_lin(int n, quad x);
// nearest (ties to even bit string), saturating
int64_t tk_round(int type, quad pos);
int64_t tk_encode(int type, const Real &r);
// exact functions
struct UnFn {
	const char *name;
	Real (*f)(quad x);                 // x != NaR, finite
	int cls;                           // 0 plain, 1 periodic (rad), 2 periodic (pi times)
	bool bounded;                      // |f| <= 1
};
const UnFn *ref_un(const std::string &base);
Real ref_bin(const std::string &base, quad a, quad b);
Real ref_int(bool root, int type, const Dec &d, int64_t n);
Real rnum(quad v);
extern const Real RNAR, RZERO;
std::string qstr(quad v);
#endif
