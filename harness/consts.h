// The named constants of takum.h with their values: X(name, value)
#define CONSTANTS(X) \
	X(2_PI, 2 * M_PIq / 1) \
	X(2_PI_OVER_3, 2 * M_PIq / 3) \
	X(2_PI_OVER_5, 2 * M_PIq / 5) \
	X(3_PI, 3 * M_PIq / 1) \
	X(3_PI_OVER_2, 3 * M_PIq / 2) \
	X(3_PI_OVER_4, 3 * M_PIq / 4) \
	X(3_PI_OVER_5, 3 * M_PIq / 5) \
	X(4_PI, 4 * M_PIq / 1) \
	X(4_PI_OVER_3, 4 * M_PIq / 3) \
	X(4_PI_OVER_5, 4 * M_PIq / 5) \
	X(5_PI, 5 * M_PIq / 1) \
	X(5_PI_OVER_2, 5 * M_PIq / 2) \
	X(5_PI_OVER_3, 5 * M_PIq / 3) \
	X(5_PI_OVER_4, 5 * M_PIq / 4) \
	X(5_PI_OVER_6, 5 * M_PIq / 6) \
	X(6_PI, 6 * M_PIq / 1) \
	X(6_PI_OVER_5, 6 * M_PIq / 5) \
	X(GAMMA, 0.57721566490153286060651209008240243104215933593992Q) \
	X(LB_10, logq(10) / M_LN2q) \
	X(LB_E, 1 / M_LN2q) \
	X(LG_2, M_LN2q / logq(10)) \
	X(LG_E, 1 / logq(10)) \
	X(LN_10, logq(10)) \
	X(LN_2, M_LN2q) \
	X(ONE, 1) \
	X(PHI, (1 + sqrtq(5)) / 2) \
	X(PI, 1 * M_PIq / 1) \
	X(PI_OVER_2, 1 * M_PIq / 2) \
	X(PI_OVER_3, 1 * M_PIq / 3) \
	X(PI_OVER_4, 1 * M_PIq / 4) \
	X(PI_OVER_5, 1 * M_PIq / 5) \
	X(PI_OVER_6, 1 * M_PIq / 6) \
	X(SQUARE_ROOT_2, sqrtq(2)) \
	X(SQUARE_ROOT_3, sqrtq(3)) \
	X(SQUARE_ROOT_5, sqrtq(5)) \
	X(SQUARE_ROOT_6, sqrtq(6))
