// GENERATED once from the public header's naming scheme: one row per public function.
extern "C" {
#include "takum.h"
}
#include "tk.h"
#include <unordered_map>
#include <cstdlib>

static const std::vector<Op> OPS = {
	{"takum8_10_raised", "10_raised", K_UN, 0, 0, (void *)takum8_10_raised},
	{"takum8_10_raised_minus_1", "10_raised_minus_1", K_UN, 0, 0, (void *)takum8_10_raised_minus_1},
	{"takum8_2_raised", "2_raised", K_UN, 0, 0, (void *)takum8_2_raised},
	{"takum8_2_raised_minus_1", "2_raised_minus_1", K_UN, 0, 0, (void *)takum8_2_raised_minus_1},
	{"takum8_absolute", "absolute", K_UN, 0, 0, (void *)takum8_absolute},
	{"takum8_arccos", "arccos", K_UN, 0, 0, (void *)takum8_arccos},
	{"takum8_arccos_over_pi", "arccos_over_pi", K_UN, 0, 0, (void *)takum8_arccos_over_pi},
	{"takum8_arccot", "arccot", K_UN, 0, 0, (void *)takum8_arccot},
	{"takum8_arccot_over_pi", "arccot_over_pi", K_UN, 0, 0, (void *)takum8_arccot_over_pi},
	{"takum8_arccsc", "arccsc", K_UN, 0, 0, (void *)takum8_arccsc},
	{"takum8_arccsc_over_pi", "arccsc_over_pi", K_UN, 0, 0, (void *)takum8_arccsc_over_pi},
	{"takum8_arcosh", "arcosh", K_UN, 0, 0, (void *)takum8_arcosh},
	{"takum8_arcoth", "arcoth", K_UN, 0, 0, (void *)takum8_arcoth},
	{"takum8_arcsch", "arcsch", K_UN, 0, 0, (void *)takum8_arcsch},
	{"takum8_arcsec", "arcsec", K_UN, 0, 0, (void *)takum8_arcsec},
	{"takum8_arcsec_over_pi", "arcsec_over_pi", K_UN, 0, 0, (void *)takum8_arcsec_over_pi},
	{"takum8_arcsin", "arcsin", K_UN, 0, 0, (void *)takum8_arcsin},
	{"takum8_arcsin_over_pi", "arcsin_over_pi", K_UN, 0, 0, (void *)takum8_arcsin_over_pi},
	{"takum8_arctan", "arctan", K_UN, 0, 0, (void *)takum8_arctan},
	{"takum8_arctan_over_pi", "arctan_over_pi", K_UN, 0, 0, (void *)takum8_arctan_over_pi},
	{"takum8_arsech", "arsech", K_UN, 0, 0, (void *)takum8_arsech},
	{"takum8_arsinh", "arsinh", K_UN, 0, 0, (void *)takum8_arsinh},
	{"takum8_artanh", "artanh", K_UN, 0, 0, (void *)takum8_artanh},
	{"takum8_cos", "cos", K_UN, 0, 0, (void *)takum8_cos},
	{"takum8_cos_pi_times", "cos_pi_times", K_UN, 0, 0, (void *)takum8_cos_pi_times},
	{"takum8_cosh", "cosh", K_UN, 0, 0, (void *)takum8_cosh},
	{"takum8_cot", "cot", K_UN, 0, 0, (void *)takum8_cot},
	{"takum8_cot_pi_times", "cot_pi_times", K_UN, 0, 0, (void *)takum8_cot_pi_times},
	{"takum8_coth", "coth", K_UN, 0, 0, (void *)takum8_coth},
	{"takum8_csc", "csc", K_UN, 0, 0, (void *)takum8_csc},
	{"takum8_csc_pi_times", "csc_pi_times", K_UN, 0, 0, (void *)takum8_csc_pi_times},
	{"takum8_csch", "csch", K_UN, 0, 0, (void *)takum8_csch},
	{"takum8_exp", "exp", K_UN, 0, 0, (void *)takum8_exp},
	{"takum8_exp_minus_1", "exp_minus_1", K_UN, 0, 0, (void *)takum8_exp_minus_1},
	{"takum8_inversion", "inversion", K_UN, 0, 0, (void *)takum8_inversion},
	{"takum8_lb", "lb", K_UN, 0, 0, (void *)takum8_lb},
	{"takum8_lb_1_plus", "lb_1_plus", K_UN, 0, 0, (void *)takum8_lb_1_plus},
	{"takum8_lg", "lg", K_UN, 0, 0, (void *)takum8_lg},
	{"takum8_lg_1_plus", "lg_1_plus", K_UN, 0, 0, (void *)takum8_lg_1_plus},
	{"takum8_ln", "ln", K_UN, 0, 0, (void *)takum8_ln},
	{"takum8_ln_1_plus", "ln_1_plus", K_UN, 0, 0, (void *)takum8_ln_1_plus},
	{"takum8_sec", "sec", K_UN, 0, 0, (void *)takum8_sec},
	{"takum8_sec_pi_times", "sec_pi_times", K_UN, 0, 0, (void *)takum8_sec_pi_times},
	{"takum8_sech", "sech", K_UN, 0, 0, (void *)takum8_sech},
	{"takum8_sign", "sign", K_UN, 0, 0, (void *)takum8_sign},
	{"takum8_sin", "sin", K_UN, 0, 0, (void *)takum8_sin},
	{"takum8_sin_pi_times", "sin_pi_times", K_UN, 0, 0, (void *)takum8_sin_pi_times},
	{"takum8_sinh", "sinh", K_UN, 0, 0, (void *)takum8_sinh},
	{"takum8_square_root", "square_root", K_UN, 0, 0, (void *)takum8_square_root},
	{"takum8_tan", "tan", K_UN, 0, 0, (void *)takum8_tan},
	{"takum8_tan_pi_times", "tan_pi_times", K_UN, 0, 0, (void *)takum8_tan_pi_times},
	{"takum8_tanh", "tanh", K_UN, 0, 0, (void *)takum8_tanh},
	{"takum8_addition", "addition", K_BIN, 0, 0, (void *)takum8_addition},
	{"takum8_subtraction", "subtraction", K_BIN, 0, 0, (void *)takum8_subtraction},
	{"takum8_multiplication", "multiplication", K_BIN, 0, 0, (void *)takum8_multiplication},
	{"takum8_division", "division", K_BIN, 0, 0, (void *)takum8_division},
	{"takum8_power", "power", K_BIN, 0, 0, (void *)takum8_power},
	{"takum8_hypotenuse", "hypotenuse", K_BIN, 0, 0, (void *)takum8_hypotenuse},
	{"takum8_arctan2", "arctan2", K_BIN, 0, 0, (void *)takum8_arctan2},
	{"takum8_arctan2_over_pi", "arctan2_over_pi", K_BIN, 0, 0, (void *)takum8_arctan2_over_pi},
	{"takum8_integer_power", "integer_power", K_INT, 0, 0, (void *)takum8_integer_power},
	{"takum8_root", "root", K_INT, 0, 0, (void *)takum8_root},
	{"takum8_precision", "precision", K_PREC, 0, 0, (void *)takum8_precision},
	{"takum8_from_float32", "from_float32", K_FROMF, 0, 0, (void *)takum8_from_float32},
	{"takum8_to_float32", "to_float32", K_TOF, 0, 0, (void *)takum8_to_float32},
	{"takum8_from_float64", "from_float64", K_FROMF, 0, 1, (void *)takum8_from_float64},
	{"takum8_to_float64", "to_float64", K_TOF, 0, 1, (void *)takum8_to_float64},
	{"takum8_from_extended_float", "from_extended_float", K_FROMF, 0, 2, (void *)takum8_from_extended_float},
	{"takum8_to_extended_float", "to_extended_float", K_TOF, 0, 2, (void *)takum8_to_extended_float},
	{"takum8_from_takum16", "from_takum16", K_CONV, 0, 1, (void *)takum8_from_takum16},
	{"takum8_from_takum32", "from_takum32", K_CONV, 0, 2, (void *)takum8_from_takum32},
	{"takum8_from_takum64", "from_takum64", K_CONV, 0, 3, (void *)takum8_from_takum64},
	{"takum8_from_takum_linear8", "from_takum_linear8", K_CONV, 0, 4, (void *)takum8_from_takum_linear8},
	{"takum8_from_takum_linear16", "from_takum_linear16", K_CONV, 0, 5, (void *)takum8_from_takum_linear16},
	{"takum8_from_takum_linear32", "from_takum_linear32", K_CONV, 0, 6, (void *)takum8_from_takum_linear32},
	{"takum8_from_takum_linear64", "from_takum_linear64", K_CONV, 0, 7, (void *)takum8_from_takum_linear64},
	{"takum16_10_raised", "10_raised", K_UN, 1, 0, (void *)takum16_10_raised},
	{"takum16_10_raised_minus_1", "10_raised_minus_1", K_UN, 1, 0, (void *)takum16_10_raised_minus_1},
	{"takum16_2_raised", "2_raised", K_UN, 1, 0, (void *)takum16_2_raised},
	{"takum16_2_raised_minus_1", "2_raised_minus_1", K_UN, 1, 0, (void *)takum16_2_raised_minus_1},
	{"takum16_absolute", "absolute", K_UN, 1, 0, (void *)takum16_absolute},
	{"takum16_arccos", "arccos", K_UN, 1, 0, (void *)takum16_arccos},
	{"takum16_arccos_over_pi", "arccos_over_pi", K_UN, 1, 0, (void *)takum16_arccos_over_pi},
	{"takum16_arccot", "arccot", K_UN, 1, 0, (void *)takum16_arccot},
	{"takum16_arccot_over_pi", "arccot_over_pi", K_UN, 1, 0, (void *)takum16_arccot_over_pi},
	{"takum16_arccsc", "arccsc", K_UN, 1, 0, (void *)takum16_arccsc},
	{"takum16_arccsc_over_pi", "arccsc_over_pi", K_UN, 1, 0, (void *)takum16_arccsc_over_pi},
	{"takum16_arcosh", "arcosh", K_UN, 1, 0, (void *)takum16_arcosh},
	{"takum16_arcoth", "arcoth", K_UN, 1, 0, (void *)takum16_arcoth},
	{"takum16_arcsch", "arcsch", K_UN, 1, 0, (void *)takum16_arcsch},
	{"takum16_arcsec", "arcsec", K_UN, 1, 0, (void *)takum16_arcsec},
	{"takum16_arcsec_over_pi", "arcsec_over_pi", K_UN, 1, 0, (void *)takum16_arcsec_over_pi},
	{"takum16_arcsin", "arcsin", K_UN, 1, 0, (void *)takum16_arcsin},
	{"takum16_arcsin_over_pi", "arcsin_over_pi", K_UN, 1, 0, (void *)takum16_arcsin_over_pi},
	{"takum16_arctan", "arctan", K_UN, 1, 0, (void *)takum16_arctan},
	{"takum16_arctan_over_pi", "arctan_over_pi", K_UN, 1, 0, (void *)takum16_arctan_over_pi},
	{"takum16_arsech", "arsech", K_UN, 1, 0, (void *)takum16_arsech},
	{"takum16_arsinh", "arsinh", K_UN, 1, 0, (void *)takum16_arsinh},
	{"takum16_artanh", "artanh", K_UN, 1, 0, (void *)takum16_artanh},
	{"takum16_cos", "cos", K_UN, 1, 0, (void *)takum16_cos},
	{"takum16_cos_pi_times", "cos_pi_times", K_UN, 1, 0, (void *)takum16_cos_pi_times},
	{"takum16_cosh", "cosh", K_UN, 1, 0, (void *)takum16_cosh},
	{"takum16_cot", "cot", K_UN, 1, 0, (void *)takum16_cot},
	{"takum16_cot_pi_times", "cot_pi_times", K_UN, 1, 0, (void *)takum16_cot_pi_times},
	{"takum16_coth", "coth", K_UN, 1, 0, (void *)takum16_coth},
	{"takum16_csc", "csc", K_UN, 1, 0, (void *)takum16_csc},
	{"takum16_csc_pi_times", "csc_pi_times", K_UN, 1, 0, (void *)takum16_csc_pi_times},
	{"takum16_csch", "csch", K_UN, 1, 0, (void *)takum16_csch},
	{"takum16_exp", "exp", K_UN, 1, 0, (void *)takum16_exp},
	{"takum16_exp_minus_1", "exp_minus_1", K_UN, 1, 0, (void *)takum16_exp_minus_1},
	{"takum16_inversion", "inversion", K_UN, 1, 0, (void *)takum16_inversion},
	{"takum16_lb", "lb", K_UN, 1, 0, (void *)takum16_lb},
	{"takum16_lb_1_plus", "lb_1_plus", K_UN, 1, 0, (void *)takum16_lb_1_plus},
	{"takum16_lg", "lg", K_UN, 1, 0, (void *)takum16_lg},
	{"takum16_lg_1_plus", "lg_1_plus", K_UN, 1, 0, (void *)takum16_lg_1_plus},
	{"takum16_ln", "ln", K_UN, 1, 0, (void *)takum16_ln},
	{"takum16_ln_1_plus", "ln_1_plus", K_UN, 1, 0, (void *)takum16_ln_1_plus},
	{"takum16_sec", "sec", K_UN, 1, 0, (void *)takum16_sec},
	{"takum16_sec_pi_times", "sec_pi_times", K_UN, 1, 0, (void *)takum16_sec_pi_times},
	{"takum16_sech", "sech", K_UN, 1, 0, (void *)takum16_sech},
	{"takum16_sign", "sign", K_UN, 1, 0, (void *)takum16_sign},
	{"takum16_sin", "sin", K_UN, 1, 0, (void *)takum16_sin},
	{"takum16_sin_pi_times", "sin_pi_times", K_UN, 1, 0, (void *)takum16_sin_pi_times},
	{"takum16_sinh", "sinh", K_UN, 1, 0, (void *)takum16_sinh},
	{"takum16_square_root", "square_root", K_UN, 1, 0, (void *)takum16_square_root},
	{"takum16_tan", "tan", K_UN, 1, 0, (void *)takum16_tan},
	{"takum16_tan_pi_times", "tan_pi_times", K_UN, 1, 0, (void *)takum16_tan_pi_times},
	{"takum16_tanh", "tanh", K_UN, 1, 0, (void *)takum16_tanh},
	{"takum16_addition", "addition", K_BIN, 1, 0, (void *)takum16_addition},
	{"takum16_subtraction", "subtraction", K_BIN, 1, 0, (void *)takum16_subtraction},
	{"takum16_multiplication", "multiplication", K_BIN, 1, 0, (void *)takum16_multiplication},
	{"takum16_division", "division", K_BIN, 1, 0, (void *)takum16_division},
	{"takum16_power", "power", K_BIN, 1, 0, (void *)takum16_power},
	{"takum16_hypotenuse", "hypotenuse", K_BIN, 1, 0, (void *)takum16_hypotenuse},
	{"takum16_arctan2", "arctan2", K_BIN, 1, 0, (void *)takum16_arctan2},
	{"takum16_arctan2_over_pi", "arctan2_over_pi", K_BIN, 1, 0, (void *)takum16_arctan2_over_pi},
	{"takum16_integer_power", "integer_power", K_INT, 1, 0, (void *)takum16_integer_power},
	{"takum16_root", "root", K_INT, 1, 0, (void *)takum16_root},
	{"takum16_precision", "precision", K_PREC, 1, 0, (void *)takum16_precision},
	{"takum16_from_float32", "from_float32", K_FROMF, 1, 0, (void *)takum16_from_float32},
	{"takum16_to_float32", "to_float32", K_TOF, 1, 0, (void *)takum16_to_float32},
	{"takum16_from_float64", "from_float64", K_FROMF, 1, 1, (void *)takum16_from_float64},
	{"takum16_to_float64", "to_float64", K_TOF, 1, 1, (void *)takum16_to_float64},
	{"takum16_from_extended_float", "from_extended_float", K_FROMF, 1, 2, (void *)takum16_from_extended_float},
	{"takum16_to_extended_float", "to_extended_float", K_TOF, 1, 2, (void *)takum16_to_extended_float},
	{"takum16_from_takum8", "from_takum8", K_CONV, 1, 0, (void *)takum16_from_takum8},
	{"takum16_from_takum32", "from_takum32", K_CONV, 1, 2, (void *)takum16_from_takum32},
	{"takum16_from_takum64", "from_takum64", K_CONV, 1, 3, (void *)takum16_from_takum64},
	{"takum16_from_takum_linear8", "from_takum_linear8", K_CONV, 1, 4, (void *)takum16_from_takum_linear8},
	{"takum16_from_takum_linear16", "from_takum_linear16", K_CONV, 1, 5, (void *)takum16_from_takum_linear16},
	{"takum16_from_takum_linear32", "from_takum_linear32", K_CONV, 1, 6, (void *)takum16_from_takum_linear32},
	{"takum16_from_takum_linear64", "from_takum_linear64", K_CONV, 1, 7, (void *)takum16_from_takum_linear64},
	{"takum32_10_raised", "10_raised", K_UN, 2, 0, (void *)takum32_10_raised},
	{"takum32_10_raised_minus_1", "10_raised_minus_1", K_UN, 2, 0, (void *)takum32_10_raised_minus_1},
	{"takum32_2_raised", "2_raised", K_UN, 2, 0, (void *)takum32_2_raised},
	{"takum32_2_raised_minus_1", "2_raised_minus_1", K_UN, 2, 0, (void *)takum32_2_raised_minus_1},
	{"takum32_absolute", "absolute", K_UN, 2, 0, (void *)takum32_absolute},
	{"takum32_arccos", "arccos", K_UN, 2, 0, (void *)takum32_arccos},
	{"takum32_arccos_over_pi", "arccos_over_pi", K_UN, 2, 0, (void *)takum32_arccos_over_pi},
	{"takum32_arccot", "arccot", K_UN, 2, 0, (void *)takum32_arccot},
	{"takum32_arccot_over_pi", "arccot_over_pi", K_UN, 2, 0, (void *)takum32_arccot_over_pi},
	{"takum32_arccsc", "arccsc", K_UN, 2, 0, (void *)takum32_arccsc},
	{"takum32_arccsc_over_pi", "arccsc_over_pi", K_UN, 2, 0, (void *)takum32_arccsc_over_pi},
	{"takum32_arcosh", "arcosh", K_UN, 2, 0, (void *)takum32_arcosh},
	{"takum32_arcoth", "arcoth", K_UN, 2, 0, (void *)takum32_arcoth},
	{"takum32_arcsch", "arcsch", K_UN, 2, 0, (void *)takum32_arcsch},
	{"takum32_arcsec", "arcsec", K_UN, 2, 0, (void *)takum32_arcsec},
	{"takum32_arcsec_over_pi", "arcsec_over_pi", K_UN, 2, 0, (void *)takum32_arcsec_over_pi},
	{"takum32_arcsin", "arcsin", K_UN, 2, 0, (void *)takum32_arcsin},
	{"takum32_arcsin_over_pi", "arcsin_over_pi", K_UN, 2, 0, (void *)takum32_arcsin_over_pi},
	{"takum32_arctan", "arctan", K_UN, 2, 0, (void *)takum32_arctan},
	{"takum32_arctan_over_pi", "arctan_over_pi", K_UN, 2, 0, (void *)takum32_arctan_over_pi},
	{"takum32_arsech", "arsech", K_UN, 2, 0, (void *)takum32_arsech},
	{"takum32_arsinh", "arsinh", K_UN, 2, 0, (void *)takum32_arsinh},
	{"takum32_artanh", "artanh", K_UN, 2, 0, (void *)takum32_artanh},
	{"takum32_cos", "cos", K_UN, 2, 0, (void *)takum32_cos},
	{"takum32_cos_pi_times", "cos_pi_times", K_UN, 2, 0, (void *)takum32_cos_pi_times},
	{"takum32_cosh", "cosh", K_UN, 2, 0, (void *)takum32_cosh},
	{"takum32_cot", "cot", K_UN, 2, 0, (void *)takum32_cot},
	{"takum32_cot_pi_times", "cot_pi_times", K_UN, 2, 0, (void *)takum32_cot_pi_times},
	{"takum32_coth", "coth", K_UN, 2, 0, (void *)takum32_coth},
	{"takum32_csc", "csc", K_UN, 2, 0, (void *)takum32_csc},
	{"takum32_csc_pi_times", "csc_pi_times", K_UN, 2, 0, (void *)takum32_csc_pi_times},
	{"takum32_csch", "csch", K_UN, 2, 0, (void *)takum32_csch},
	{"takum32_exp", "exp", K_UN, 2, 0, (void *)takum32_exp},
	{"takum32_exp_minus_1", "exp_minus_1", K_UN, 2, 0, (void *)takum32_exp_minus_1},
	{"takum32_inversion", "inversion", K_UN, 2, 0, (void *)takum32_inversion},
	{"takum32_lb", "lb", K_UN, 2, 0, (void *)takum32_lb},
	{"takum32_lb_1_plus", "lb_1_plus", K_UN, 2, 0, (void *)takum32_lb_1_plus},
	{"takum32_lg", "lg", K_UN, 2, 0, (void *)takum32_lg},
	{"takum32_lg_1_plus", "lg_1_plus", K_UN, 2, 0, (void *)takum32_lg_1_plus},
	{"takum32_ln", "ln", K_UN, 2, 0, (void *)takum32_ln},
	{"takum32_ln_1_plus", "ln_1_plus", K_UN, 2, 0, (void *)takum32_ln_1_plus},
	{"takum32_sec", "sec", K_UN, 2, 0, (void *)takum32_sec},
	{"takum32_sec_pi_times", "sec_pi_times", K_UN, 2, 0, (void *)takum32_sec_pi_times},
	{"takum32_sech", "sech", K_UN, 2, 0, (void *)takum32_sech},
	{"takum32_sign", "sign", K_UN, 2, 0, (void *)takum32_sign},
	{"takum32_sin", "sin", K_UN, 2, 0, (void *)takum32_sin},
	{"takum32_sin_pi_times", "sin_pi_times", K_UN, 2, 0, (void *)takum32_sin_pi_times},
	{"takum32_sinh", "sinh", K_UN, 2, 0, (void *)takum32_sinh},
	{"takum32_square_root", "square_root", K_UN, 2, 0, (void *)takum32_square_root},
	{"takum32_tan", "tan", K_UN, 2, 0, (void *)takum32_tan},
	{"takum32_tan_pi_times", "tan_pi_times", K_UN, 2, 0, (void *)takum32_tan_pi_times},
	{"takum32_tanh", "tanh", K_UN, 2, 0, (void *)takum32_tanh},
	{"takum32_addition", "addition", K_BIN, 2, 0, (void *)takum32_addition},
	{"takum32_subtraction", "subtraction", K_BIN, 2, 0, (void *)takum32_subtraction},
	{"takum32_multiplication", "multiplication", K_BIN, 2, 0, (void *)takum32_multiplication},
	{"takum32_division", "division", K_BIN, 2, 0, (void *)takum32_division},
	{"takum32_power", "power", K_BIN, 2, 0, (void *)takum32_power},
	{"takum32_hypotenuse", "hypotenuse", K_BIN, 2, 0, (void *)takum32_hypotenuse},
	{"takum32_arctan2", "arctan2", K_BIN, 2, 0, (void *)takum32_arctan2},
	{"takum32_arctan2_over_pi", "arctan2_over_pi", K_BIN, 2, 0, (void *)takum32_arctan2_over_pi},
	{"takum32_integer_power", "integer_power", K_INT, 2, 0, (void *)takum32_integer_power},
	{"takum32_root", "root", K_INT, 2, 0, (void *)takum32_root},
	{"takum32_precision", "precision", K_PREC, 2, 0, (void *)takum32_precision},
	{"takum32_from_float32", "from_float32", K_FROMF, 2, 0, (void *)takum32_from_float32},
	{"takum32_to_float32", "to_float32", K_TOF, 2, 0, (void *)takum32_to_float32},
	{"takum32_from_float64", "from_float64", K_FROMF, 2, 1, (void *)takum32_from_float64},
	{"takum32_to_float64", "to_float64", K_TOF, 2, 1, (void *)takum32_to_float64},
	{"takum32_from_extended_float", "from_extended_float", K_FROMF, 2, 2, (void *)takum32_from_extended_float},
	{"takum32_to_extended_float", "to_extended_float", K_TOF, 2, 2, (void *)takum32_to_extended_float},
	{"takum32_from_takum8", "from_takum8", K_CONV, 2, 0, (void *)takum32_from_takum8},
	{"takum32_from_takum16", "from_takum16", K_CONV, 2, 1, (void *)takum32_from_takum16},
	{"takum32_from_takum64", "from_takum64", K_CONV, 2, 3, (void *)takum32_from_takum64},
	{"takum32_from_takum_linear8", "from_takum_linear8", K_CONV, 2, 4, (void *)takum32_from_takum_linear8},
	{"takum32_from_takum_linear16", "from_takum_linear16", K_CONV, 2, 5, (void *)takum32_from_takum_linear16},
	{"takum32_from_takum_linear32", "from_takum_linear32", K_CONV, 2, 6, (void *)takum32_from_takum_linear32},
	{"takum32_from_takum_linear64", "from_takum_linear64", K_CONV, 2, 7, (void *)takum32_from_takum_linear64},
	{"takum64_10_raised", "10_raised", K_UN, 3, 0, (void *)takum64_10_raised},
	{"takum64_10_raised_minus_1", "10_raised_minus_1", K_UN, 3, 0, (void *)takum64_10_raised_minus_1},
	{"takum64_2_raised", "2_raised", K_UN, 3, 0, (void *)takum64_2_raised},
	{"takum64_2_raised_minus_1", "2_raised_minus_1", K_UN, 3, 0, (void *)takum64_2_raised_minus_1},
	{"takum64_absolute", "absolute", K_UN, 3, 0, (void *)takum64_absolute},
	{"takum64_arccos", "arccos", K_UN, 3, 0, (void *)takum64_arccos},
	{"takum64_arccos_over_pi", "arccos_over_pi", K_UN, 3, 0, (void *)takum64_arccos_over_pi},
	{"takum64_arccot", "arccot", K_UN, 3, 0, (void *)takum64_arccot},
	{"takum64_arccot_over_pi", "arccot_over_pi", K_UN, 3, 0, (void *)takum64_arccot_over_pi},
	{"takum64_arccsc", "arccsc", K_UN, 3, 0, (void *)takum64_arccsc},
	{"takum64_arccsc_over_pi", "arccsc_over_pi", K_UN, 3, 0, (void *)takum64_arccsc_over_pi},
	{"takum64_arcosh", "arcosh", K_UN, 3, 0, (void *)takum64_arcosh},
	{"takum64_arcoth", "arcoth", K_UN, 3, 0, (void *)takum64_arcoth},
	{"takum64_arcsch", "arcsch", K_UN, 3, 0, (void *)takum64_arcsch},
	{"takum64_arcsec", "arcsec", K_UN, 3, 0, (void *)takum64_arcsec},
	{"takum64_arcsec_over_pi", "arcsec_over_pi", K_UN, 3, 0, (void *)takum64_arcsec_over_pi},
	{"takum64_arcsin", "arcsin", K_UN, 3, 0, (void *)takum64_arcsin},
	{"takum64_arcsin_over_pi", "arcsin_over_pi", K_UN, 3, 0, (void *)takum64_arcsin_over_pi},
	{"takum64_arctan", "arctan", K_UN, 3, 0, (void *)takum64_arctan},
	{"takum64_arctan_over_pi", "arctan_over_pi", K_UN, 3, 0, (void *)takum64_arctan_over_pi},
	{"takum64_arsech", "arsech", K_UN, 3, 0, (void *)takum64_arsech},
	{"takum64_arsinh", "arsinh", K_UN, 3, 0, (void *)takum64_arsinh},
	{"takum64_artanh", "artanh", K_UN, 3, 0, (void *)takum64_artanh},
	{"takum64_cos", "cos", K_UN, 3, 0, (void *)takum64_cos},
	{"takum64_cos_pi_times", "cos_pi_times", K_UN, 3, 0, (void *)takum64_cos_pi_times},
	{"takum64_cosh", "cosh", K_UN, 3, 0, (void *)takum64_cosh},
	{"takum64_cot", "cot", K_UN, 3, 0, (void *)takum64_cot},
	{"takum64_cot_pi_times", "cot_pi_times", K_UN, 3, 0, (void *)takum64_cot_pi_times},
	{"takum64_coth", "coth", K_UN, 3, 0, (void *)takum64_coth},
	{"takum64_csc", "csc", K_UN, 3, 0, (void *)takum64_csc},
	{"takum64_csc_pi_times", "csc_pi_times", K_UN, 3, 0, (void *)takum64_csc_pi_times},
	{"takum64_csch", "csch", K_UN, 3, 0, (void *)takum64_csch},
	{"takum64_exp", "exp", K_UN, 3, 0, (void *)takum64_exp},
	{"takum64_exp_minus_1", "exp_minus_1", K_UN, 3, 0, (void *)takum64_exp_minus_1},
	{"takum64_inversion", "inversion", K_UN, 3, 0, (void *)takum64_inversion},
	{"takum64_lb", "lb", K_UN, 3, 0, (void *)takum64_lb},
	{"takum64_lb_1_plus", "lb_1_plus", K_UN, 3, 0, (void *)takum64_lb_1_plus},
	{"takum64_lg", "lg", K_UN, 3, 0, (void *)takum64_lg},
	{"takum64_lg_1_plus", "lg_1_plus", K_UN, 3, 0, (void *)takum64_lg_1_plus},
	{"takum64_ln", "ln", K_UN, 3, 0, (void *)takum64_ln},
	{"takum64_ln_1_plus", "ln_1_plus", K_UN, 3, 0, (void *)takum64_ln_1_plus},
	{"takum64_sec", "sec", K_UN, 3, 0, (void *)takum64_sec},
	{"takum64_sec_pi_times", "sec_pi_times", K_UN, 3, 0, (void *)takum64_sec_pi_times},
	{"takum64_sech", "sech", K_UN, 3, 0, (void *)takum64_sech},
	{"takum64_sign", "sign", K_UN, 3, 0, (void *)takum64_sign},
	{"takum64_sin", "sin", K_UN, 3, 0, (void *)takum64_sin},
	{"takum64_sin_pi_times", "sin_pi_times", K_UN, 3, 0, (void *)takum64_sin_pi_times},
	{"takum64_sinh", "sinh", K_UN, 3, 0, (void *)takum64_sinh},
	{"takum64_square_root", "square_root", K_UN, 3, 0, (void *)takum64_square_root},
	{"takum64_tan", "tan", K_UN, 3, 0, (void *)takum64_tan},
	{"takum64_tan_pi_times", "tan_pi_times", K_UN, 3, 0, (void *)takum64_tan_pi_times},
	{"takum64_tanh", "tanh", K_UN, 3, 0, (void *)takum64_tanh},
	{"takum64_addition", "addition", K_BIN, 3, 0, (void *)takum64_addition},
	{"takum64_subtraction", "subtraction", K_BIN, 3, 0, (void *)takum64_subtraction},
	{"takum64_multiplication", "multiplication", K_BIN, 3, 0, (void *)takum64_multiplication},
	{"takum64_division", "division", K_BIN, 3, 0, (void *)takum64_division},
	{"takum64_power", "power", K_BIN, 3, 0, (void *)takum64_power},
	{"takum64_hypotenuse", "hypotenuse", K_BIN, 3, 0, (void *)takum64_hypotenuse},
	{"takum64_arctan2", "arctan2", K_BIN, 3, 0, (void *)takum64_arctan2},
	{"takum64_arctan2_over_pi", "arctan2_over_pi", K_BIN, 3, 0, (void *)takum64_arctan2_over_pi},
	{"takum64_integer_power", "integer_power", K_INT, 3, 0, (void *)takum64_integer_power},
	{"takum64_root", "root", K_INT, 3, 0, (void *)takum64_root},
	{"takum64_precision", "precision", K_PREC, 3, 0, (void *)takum64_precision},
	{"takum64_from_float32", "from_float32", K_FROMF, 3, 0, (void *)takum64_from_float32},
	{"takum64_to_float32", "to_float32", K_TOF, 3, 0, (void *)takum64_to_float32},
	{"takum64_from_float64", "from_float64", K_FROMF, 3, 1, (void *)takum64_from_float64},
	{"takum64_to_float64", "to_float64", K_TOF, 3, 1, (void *)takum64_to_float64},
	{"takum64_from_extended_float", "from_extended_float", K_FROMF, 3, 2, (void *)takum64_from_extended_float},
	{"takum64_to_extended_float", "to_extended_float", K_TOF, 3, 2, (void *)takum64_to_extended_float},
	{"takum64_from_takum8", "from_takum8", K_CONV, 3, 0, (void *)takum64_from_takum8},
	{"takum64_from_takum16", "from_takum16", K_CONV, 3, 1, (void *)takum64_from_takum16},
	{"takum64_from_takum32", "from_takum32", K_CONV, 3, 2, (void *)takum64_from_takum32},
	{"takum64_from_takum_linear8", "from_takum_linear8", K_CONV, 3, 4, (void *)takum64_from_takum_linear8},
	{"takum64_from_takum_linear16", "from_takum_linear16", K_CONV, 3, 5, (void *)takum64_from_takum_linear16},
	{"takum64_from_takum_linear32", "from_takum_linear32", K_CONV, 3, 6, (void *)takum64_from_takum_linear32},
	{"takum64_from_takum_linear64", "from_takum_linear64", K_CONV, 3, 7, (void *)takum64_from_takum_linear64},
	{"takum_linear8_10_raised", "10_raised", K_UN, 4, 0, (void *)takum_linear8_10_raised},
	{"takum_linear8_10_raised_minus_1", "10_raised_minus_1", K_UN, 4, 0, (void *)takum_linear8_10_raised_minus_1},
	{"takum_linear8_2_raised", "2_raised", K_UN, 4, 0, (void *)takum_linear8_2_raised},
	{"takum_linear8_2_raised_minus_1", "2_raised_minus_1", K_UN, 4, 0, (void *)takum_linear8_2_raised_minus_1},
	{"takum_linear8_absolute", "absolute", K_UN, 4, 0, (void *)takum_linear8_absolute},
	{"takum_linear8_arccos", "arccos", K_UN, 4, 0, (void *)takum_linear8_arccos},
	{"takum_linear8_arccos_over_pi", "arccos_over_pi", K_UN, 4, 0, (void *)takum_linear8_arccos_over_pi},
	{"takum_linear8_arccot", "arccot", K_UN, 4, 0, (void *)takum_linear8_arccot},
	{"takum_linear8_arccot_over_pi", "arccot_over_pi", K_UN, 4, 0, (void *)takum_linear8_arccot_over_pi},
	{"takum_linear8_arccsc", "arccsc", K_UN, 4, 0, (void *)takum_linear8_arccsc},
	{"takum_linear8_arccsc_over_pi", "arccsc_over_pi", K_UN, 4, 0, (void *)takum_linear8_arccsc_over_pi},
	{"takum_linear8_arcosh", "arcosh", K_UN, 4, 0, (void *)takum_linear8_arcosh},
	{"takum_linear8_arcoth", "arcoth", K_UN, 4, 0, (void *)takum_linear8_arcoth},
	{"takum_linear8_arcsch", "arcsch", K_UN, 4, 0, (void *)takum_linear8_arcsch},
	{"takum_linear8_arcsec", "arcsec", K_UN, 4, 0, (void *)takum_linear8_arcsec},
	{"takum_linear8_arcsec_over_pi", "arcsec_over_pi", K_UN, 4, 0, (void *)takum_linear8_arcsec_over_pi},
	{"takum_linear8_arcsin", "arcsin", K_UN, 4, 0, (void *)takum_linear8_arcsin},
	{"takum_linear8_arcsin_over_pi", "arcsin_over_pi", K_UN, 4, 0, (void *)takum_linear8_arcsin_over_pi},
	{"takum_linear8_arctan", "arctan", K_UN, 4, 0, (void *)takum_linear8_arctan},
	{"takum_linear8_arctan_over_pi", "arctan_over_pi", K_UN, 4, 0, (void *)takum_linear8_arctan_over_pi},
	{"takum_linear8_arsech", "arsech", K_UN, 4, 0, (void *)takum_linear8_arsech},
	{"takum_linear8_arsinh", "arsinh", K_UN, 4, 0, (void *)takum_linear8_arsinh},
	{"takum_linear8_artanh", "artanh", K_UN, 4, 0, (void *)takum_linear8_artanh},
	{"takum_linear8_cos", "cos", K_UN, 4, 0, (void *)takum_linear8_cos},
	{"takum_linear8_cos_pi_times", "cos_pi_times", K_UN, 4, 0, (void *)takum_linear8_cos_pi_times},
	{"takum_linear8_cosh", "cosh", K_UN, 4, 0, (void *)takum_linear8_cosh},
	{"takum_linear8_cot", "cot", K_UN, 4, 0, (void *)takum_linear8_cot},
	{"takum_linear8_cot_pi_times", "cot_pi_times", K_UN, 4, 0, (void *)takum_linear8_cot_pi_times},
	{"takum_linear8_coth", "coth", K_UN, 4, 0, (void *)takum_linear8_coth},
	{"takum_linear8_csc", "csc", K_UN, 4, 0, (void *)takum_linear8_csc},
	{"takum_linear8_csc_pi_times", "csc_pi_times", K_UN, 4, 0, (void *)takum_linear8_csc_pi_times},
	{"takum_linear8_csch", "csch", K_UN, 4, 0, (void *)takum_linear8_csch},
	{"takum_linear8_exp", "exp", K_UN, 4, 0, (void *)takum_linear8_exp},
	{"takum_linear8_exp_minus_1", "exp_minus_1", K_UN, 4, 0, (void *)takum_linear8_exp_minus_1},
	{"takum_linear8_inversion", "inversion", K_UN, 4, 0, (void *)takum_linear8_inversion},
	{"takum_linear8_lb", "lb", K_UN, 4, 0, (void *)takum_linear8_lb},
	{"takum_linear8_lb_1_plus", "lb_1_plus", K_UN, 4, 0, (void *)takum_linear8_lb_1_plus},
	{"takum_linear8_lg", "lg", K_UN, 4, 0, (void *)takum_linear8_lg},
	{"takum_linear8_lg_1_plus", "lg_1_plus", K_UN, 4, 0, (void *)takum_linear8_lg_1_plus},
	{"takum_linear8_ln", "ln", K_UN, 4, 0, (void *)takum_linear8_ln},
	{"takum_linear8_ln_1_plus", "ln_1_plus", K_UN, 4, 0, (void *)takum_linear8_ln_1_plus},
	{"takum_linear8_sec", "sec", K_UN, 4, 0, (void *)takum_linear8_sec},
	{"takum_linear8_sec_pi_times", "sec_pi_times", K_UN, 4, 0, (void *)takum_linear8_sec_pi_times},
	{"takum_linear8_sech", "sech", K_UN, 4, 0, (void *)takum_linear8_sech},
	{"takum_linear8_sign", "sign", K_UN, 4, 0, (void *)takum_linear8_sign},
	{"takum_linear8_sin", "sin", K_UN, 4, 0, (void *)takum_linear8_sin},
	{"takum_linear8_sin_pi_times", "sin_pi_times", K_UN, 4, 0, (void *)takum_linear8_sin_pi_times},
	{"takum_linear8_sinh", "sinh", K_UN, 4, 0, (void *)takum_linear8_sinh},
	{"takum_linear8_square_root", "square_root", K_UN, 4, 0, (void *)takum_linear8_square_root},
	{"takum_linear8_tan", "tan", K_UN, 4, 0, (void *)takum_linear8_tan},
	{"takum_linear8_tan_pi_times", "tan_pi_times", K_UN, 4, 0, (void *)takum_linear8_tan_pi_times},
	{"takum_linear8_tanh", "tanh", K_UN, 4, 0, (void *)takum_linear8_tanh},
	{"takum_linear8_addition", "addition", K_BIN, 4, 0, (void *)takum_linear8_addition},
	{"takum_linear8_subtraction", "subtraction", K_BIN, 4, 0, (void *)takum_linear8_subtraction},
	{"takum_linear8_multiplication", "multiplication", K_BIN, 4, 0, (void *)takum_linear8_multiplication},
	{"takum_linear8_division", "division", K_BIN, 4, 0, (void *)takum_linear8_division},
	{"takum_linear8_power", "power", K_BIN, 4, 0, (void *)takum_linear8_power},
	{"takum_linear8_hypotenuse", "hypotenuse", K_BIN, 4, 0, (void *)takum_linear8_hypotenuse},
	{"takum_linear8_arctan2", "arctan2", K_BIN, 4, 0, (void *)takum_linear8_arctan2},
	{"takum_linear8_arctan2_over_pi", "arctan2_over_pi", K_BIN, 4, 0, (void *)takum_linear8_arctan2_over_pi},
	{"takum_linear8_integer_power", "integer_power", K_INT, 4, 0, (void *)takum_linear8_integer_power},
	{"takum_linear8_root", "root", K_INT, 4, 0, (void *)takum_linear8_root},
	{"takum_linear8_precision", "precision", K_PREC, 4, 0, (void *)takum_linear8_precision},
	{"takum_linear8_from_float32", "from_float32", K_FROMF, 4, 0, (void *)takum_linear8_from_float32},
	{"takum_linear8_to_float32", "to_float32", K_TOF, 4, 0, (void *)takum_linear8_to_float32},
	{"takum_linear8_from_float64", "from_float64", K_FROMF, 4, 1, (void *)takum_linear8_from_float64},
	{"takum_linear8_to_float64", "to_float64", K_TOF, 4, 1, (void *)takum_linear8_to_float64},
	{"takum_linear8_from_extended_float", "from_extended_float", K_FROMF, 4, 2, (void *)takum_linear8_from_extended_float},
	{"takum_linear8_to_extended_float", "to_extended_float", K_TOF, 4, 2, (void *)takum_linear8_to_extended_float},
	{"takum_linear8_from_takum8", "from_takum8", K_CONV, 4, 0, (void *)takum_linear8_from_takum8},
	{"takum_linear8_from_takum16", "from_takum16", K_CONV, 4, 1, (void *)takum_linear8_from_takum16},
	{"takum_linear8_from_takum32", "from_takum32", K_CONV, 4, 2, (void *)takum_linear8_from_takum32},
	{"takum_linear8_from_takum64", "from_takum64", K_CONV, 4, 3, (void *)takum_linear8_from_takum64},
	{"takum_linear8_from_takum_linear16", "from_takum_linear16", K_CONV, 4, 5, (void *)takum_linear8_from_takum_linear16},
	{"takum_linear8_from_takum_linear32", "from_takum_linear32", K_CONV, 4, 6, (void *)takum_linear8_from_takum_linear32},
	{"takum_linear8_from_takum_linear64", "from_takum_linear64", K_CONV, 4, 7, (void *)takum_linear8_from_takum_linear64},
	{"takum_linear16_10_raised", "10_raised", K_UN, 5, 0, (void *)takum_linear16_10_raised},
	{"takum_linear16_10_raised_minus_1", "10_raised_minus_1", K_UN, 5, 0, (void *)takum_linear16_10_raised_minus_1},
	{"takum_linear16_2_raised", "2_raised", K_UN, 5, 0, (void *)takum_linear16_2_raised},
	{"takum_linear16_2_raised_minus_1", "2_raised_minus_1", K_UN, 5, 0, (void *)takum_linear16_2_raised_minus_1},
	{"takum_linear16_absolute", "absolute", K_UN, 5, 0, (void *)takum_linear16_absolute},
	{"takum_linear16_arccos", "arccos", K_UN, 5, 0, (void *)takum_linear16_arccos},
	{"takum_linear16_arccos_over_pi", "arccos_over_pi", K_UN, 5, 0, (void *)takum_linear16_arccos_over_pi},
	{"takum_linear16_arccot", "arccot", K_UN, 5, 0, (void *)takum_linear16_arccot},
	{"takum_linear16_arccot_over_pi", "arccot_over_pi", K_UN, 5, 0, (void *)takum_linear16_arccot_over_pi},
	{"takum_linear16_arccsc", "arccsc", K_UN, 5, 0, (void *)takum_linear16_arccsc},
	{"takum_linear16_arccsc_over_pi", "arccsc_over_pi", K_UN, 5, 0, (void *)takum_linear16_arccsc_over_pi},
	{"takum_linear16_arcosh", "arcosh", K_UN, 5, 0, (void *)takum_linear16_arcosh},
	{"takum_linear16_arcoth", "arcoth", K_UN, 5, 0, (void *)takum_linear16_arcoth},
	{"takum_linear16_arcsch", "arcsch", K_UN, 5, 0, (void *)takum_linear16_arcsch},
	{"takum_linear16_arcsec", "arcsec", K_UN, 5, 0, (void *)takum_linear16_arcsec},
	{"takum_linear16_arcsec_over_pi", "arcsec_over_pi", K_UN, 5, 0, (void *)takum_linear16_arcsec_over_pi},
	{"takum_linear16_arcsin", "arcsin", K_UN, 5, 0, (void *)takum_linear16_arcsin},
	{"takum_linear16_arcsin_over_pi", "arcsin_over_pi", K_UN, 5, 0, (void *)takum_linear16_arcsin_over_pi},
	{"takum_linear16_arctan", "arctan", K_UN, 5, 0, (void *)takum_linear16_arctan},
	{"takum_linear16_arctan_over_pi", "arctan_over_pi", K_UN, 5, 0, (void *)takum_linear16_arctan_over_pi},
	{"takum_linear16_arsech", "arsech", K_UN, 5, 0, (void *)takum_linear16_arsech},
	{"takum_linear16_arsinh", "arsinh", K_UN, 5, 0, (void *)takum_linear16_arsinh},
	{"takum_linear16_artanh", "artanh", K_UN, 5, 0, (void *)takum_linear16_artanh},
	{"takum_linear16_cos", "cos", K_UN, 5, 0, (void *)takum_linear16_cos},
	{"takum_linear16_cos_pi_times", "cos_pi_times", K_UN, 5, 0, (void *)takum_linear16_cos_pi_times},
	{"takum_linear16_cosh", "cosh", K_UN, 5, 0, (void *)takum_linear16_cosh},
	{"takum_linear16_cot", "cot", K_UN, 5, 0, (void *)takum_linear16_cot},
	{"takum_linear16_cot_pi_times", "cot_pi_times", K_UN, 5, 0, (void *)takum_linear16_cot_pi_times},
	{"takum_linear16_coth", "coth", K_UN, 5, 0, (void *)takum_linear16_coth},
	{"takum_linear16_csc", "csc", K_UN, 5, 0, (void *)takum_linear16_csc},
	{"takum_linear16_csc_pi_times", "csc_pi_times", K_UN, 5, 0, (void *)takum_linear16_csc_pi_times},
	{"takum_linear16_csch", "csch", K_UN, 5, 0, (void *)takum_linear16_csch},
	{"takum_linear16_exp", "exp", K_UN, 5, 0, (void *)takum_linear16_exp},
	{"takum_linear16_exp_minus_1", "exp_minus_1", K_UN, 5, 0, (void *)takum_linear16_exp_minus_1},
	{"takum_linear16_inversion", "inversion", K_UN, 5, 0, (void *)takum_linear16_inversion},
	{"takum_linear16_lb", "lb", K_UN, 5, 0, (void *)takum_linear16_lb},
	{"takum_linear16_lb_1_plus", "lb_1_plus", K_UN, 5, 0, (void *)takum_linear16_lb_1_plus},
	{"takum_linear16_lg", "lg", K_UN, 5, 0, (void *)takum_linear16_lg},
	{"takum_linear16_lg_1_plus", "lg_1_plus", K_UN, 5, 0, (void *)takum_linear16_lg_1_plus},
	{"takum_linear16_ln", "ln", K_UN, 5, 0, (void *)takum_linear16_ln},
	{"takum_linear16_ln_1_plus", "ln_1_plus", K_UN, 5, 0, (void *)takum_linear16_ln_1_plus},
	{"takum_linear16_sec", "sec", K_UN, 5, 0, (void *)takum_linear16_sec},
	{"takum_linear16_sec_pi_times", "sec_pi_times", K_UN, 5, 0, (void *)takum_linear16_sec_pi_times},
	{"takum_linear16_sech", "sech", K_UN, 5, 0, (void *)takum_linear16_sech},
	{"takum_linear16_sign", "sign", K_UN, 5, 0, (void *)takum_linear16_sign},
	{"takum_linear16_sin", "sin", K_UN, 5, 0, (void *)takum_linear16_sin},
	{"takum_linear16_sin_pi_times", "sin_pi_times", K_UN, 5, 0, (void *)takum_linear16_sin_pi_times},
	{"takum_linear16_sinh", "sinh", K_UN, 5, 0, (void *)takum_linear16_sinh},
	{"takum_linear16_square_root", "square_root", K_UN, 5, 0, (void *)takum_linear16_square_root},
	{"takum_linear16_tan", "tan", K_UN, 5, 0, (void *)takum_linear16_tan},
	{"takum_linear16_tan_pi_times", "tan_pi_times", K_UN, 5, 0, (void *)takum_linear16_tan_pi_times},
	{"takum_linear16_tanh", "tanh", K_UN, 5, 0, (void *)takum_linear16_tanh},
	{"takum_linear16_addition", "addition", K_BIN, 5, 0, (void *)takum_linear16_addition},
	{"takum_linear16_subtraction", "subtraction", K_BIN, 5, 0, (void *)takum_linear16_subtraction},
	{"takum_linear16_multiplication", "multiplication", K_BIN, 5, 0, (void *)takum_linear16_multiplication},
	{"takum_linear16_division", "division", K_BIN, 5, 0, (void *)takum_linear16_division},
	{"takum_linear16_power", "power", K_BIN, 5, 0, (void *)takum_linear16_power},
	{"takum_linear16_hypotenuse", "hypotenuse", K_BIN, 5, 0, (void *)takum_linear16_hypotenuse},
	{"takum_linear16_arctan2", "arctan2", K_BIN, 5, 0, (void *)takum_linear16_arctan2},
	{"takum_linear16_arctan2_over_pi", "arctan2_over_pi", K_BIN, 5, 0, (void *)takum_linear16_arctan2_over_pi},
	{"takum_linear16_integer_power", "integer_power", K_INT, 5, 0, (void *)takum_linear16_integer_power},
	{"takum_linear16_root", "root", K_INT, 5, 0, (void *)takum_linear16_root},
	{"takum_linear16_precision", "precision", K_PREC, 5, 0, (void *)takum_linear16_precision},
	{"takum_linear16_from_float32", "from_float32", K_FROMF, 5, 0, (void *)takum_linear16_from_float32},
	{"takum_linear16_to_float32", "to_float32", K_TOF, 5, 0, (void *)takum_linear16_to_float32},
	{"takum_linear16_from_float64", "from_float64", K_FROMF, 5, 1, (void *)takum_linear16_from_float64},
	{"takum_linear16_to_float64", "to_float64", K_TOF, 5, 1, (void *)takum_linear16_to_float64},
	{"takum_linear16_from_extended_float", "from_extended_float", K_FROMF, 5, 2, (void *)takum_linear16_from_extended_float},
	{"takum_linear16_to_extended_float", "to_extended_float", K_TOF, 5, 2, (void *)takum_linear16_to_extended_float},
	{"takum_linear16_from_takum8", "from_takum8", K_CONV, 5, 0, (void *)takum_linear16_from_takum8},
	{"takum_linear16_from_takum16", "from_takum16", K_CONV, 5, 1, (void *)takum_linear16_from_takum16},
	{"takum_linear16_from_takum32", "from_takum32", K_CONV, 5, 2, (void *)takum_linear16_from_takum32},
	{"takum_linear16_from_takum64", "from_takum64", K_CONV, 5, 3, (void *)takum_linear16_from_takum64},
	{"takum_linear16_from_takum_linear8", "from_takum_linear8", K_CONV, 5, 4, (void *)takum_linear16_from_takum_linear8},
	{"takum_linear16_from_takum_linear32", "from_takum_linear32", K_CONV, 5, 6, (void *)takum_linear16_from_takum_linear32},
	{"takum_linear16_from_takum_linear64", "from_takum_linear64", K_CONV, 5, 7, (void *)takum_linear16_from_takum_linear64},
	{"takum_linear32_10_raised", "10_raised", K_UN, 6, 0, (void *)takum_linear32_10_raised},
	{"takum_linear32_10_raised_minus_1", "10_raised_minus_1", K_UN, 6, 0, (void *)takum_linear32_10_raised_minus_1},
	{"takum_linear32_2_raised", "2_raised", K_UN, 6, 0, (void *)takum_linear32_2_raised},
	{"takum_linear32_2_raised_minus_1", "2_raised_minus_1", K_UN, 6, 0, (void *)takum_linear32_2_raised_minus_1},
	{"takum_linear32_absolute", "absolute", K_UN, 6, 0, (void *)takum_linear32_absolute},
	{"takum_linear32_arccos", "arccos", K_UN, 6, 0, (void *)takum_linear32_arccos},
	{"takum_linear32_arccos_over_pi", "arccos_over_pi", K_UN, 6, 0, (void *)takum_linear32_arccos_over_pi},
	{"takum_linear32_arccot", "arccot", K_UN, 6, 0, (void *)takum_linear32_arccot},
	{"takum_linear32_arccot_over_pi", "arccot_over_pi", K_UN, 6, 0, (void *)takum_linear32_arccot_over_pi},
	{"takum_linear32_arccsc", "arccsc", K_UN, 6, 0, (void *)takum_linear32_arccsc},
	{"takum_linear32_arccsc_over_pi", "arccsc_over_pi", K_UN, 6, 0, (void *)takum_linear32_arccsc_over_pi},
	{"takum_linear32_arcosh", "arcosh", K_UN, 6, 0, (void *)takum_linear32_arcosh},
	{"takum_linear32_arcoth", "arcoth", K_UN, 6, 0, (void *)takum_linear32_arcoth},
	{"takum_linear32_arcsch", "arcsch", K_UN, 6, 0, (void *)takum_linear32_arcsch},
	{"takum_linear32_arcsec", "arcsec", K_UN, 6, 0, (void *)takum_linear32_arcsec},
	{"takum_linear32_arcsec_over_pi", "arcsec_over_pi", K_UN, 6, 0, (void *)takum_linear32_arcsec_over_pi},
	{"takum_linear32_arcsin", "arcsin", K_UN, 6, 0, (void *)takum_linear32_arcsin},
	{"takum_linear32_arcsin_over_pi", "arcsin_over_pi", K_UN, 6, 0, (void *)takum_linear32_arcsin_over_pi},
	{"takum_linear32_arctan", "arctan", K_UN, 6, 0, (void *)takum_linear32_arctan},
	{"takum_linear32_arctan_over_pi", "arctan_over_pi", K_UN, 6, 0, (void *)takum_linear32_arctan_over_pi},
	{"takum_linear32_arsech", "arsech", K_UN, 6, 0, (void *)takum_linear32_arsech},
	{"takum_linear32_arsinh", "arsinh", K_UN, 6, 0, (void *)takum_linear32_arsinh},
	{"takum_linear32_artanh", "artanh", K_UN, 6, 0, (void *)takum_linear32_artanh},
	{"takum_linear32_cos", "cos", K_UN, 6, 0, (void *)takum_linear32_cos},
	{"takum_linear32_cos_pi_times", "cos_pi_times", K_UN, 6, 0, (void *)takum_linear32_cos_pi_times},
	{"takum_linear32_cosh", "cosh", K_UN, 6, 0, (void *)takum_linear32_cosh},
	{"takum_linear32_cot", "cot", K_UN, 6, 0, (void *)takum_linear32_cot},
	{"takum_linear32_cot_pi_times", "cot_pi_times", K_UN, 6, 0, (void *)takum_linear32_cot_pi_times},
	{"takum_linear32_coth", "coth", K_UN, 6, 0, (void *)takum_linear32_coth},
	{"takum_linear32_csc", "csc", K_UN, 6, 0, (void *)takum_linear32_csc},
	{"takum_linear32_csc_pi_times", "csc_pi_times", K_UN, 6, 0, (void *)takum_linear32_csc_pi_times},
	{"takum_linear32_csch", "csch", K_UN, 6, 0, (void *)takum_linear32_csch},
	{"takum_linear32_exp", "exp", K_UN, 6, 0, (void *)takum_linear32_exp},
	{"takum_linear32_exp_minus_1", "exp_minus_1", K_UN, 6, 0, (void *)takum_linear32_exp_minus_1},
	{"takum_linear32_inversion", "inversion", K_UN, 6, 0, (void *)takum_linear32_inversion},
	{"takum_linear32_lb", "lb", K_UN, 6, 0, (void *)takum_linear32_lb},
	{"takum_linear32_lb_1_plus", "lb_1_plus", K_UN, 6, 0, (void *)takum_linear32_lb_1_plus},
	{"takum_linear32_lg", "lg", K_UN, 6, 0, (void *)takum_linear32_lg},
	{"takum_linear32_lg_1_plus", "lg_1_plus", K_UN, 6, 0, (void *)takum_linear32_lg_1_plus},
	{"takum_linear32_ln", "ln", K_UN, 6, 0, (void *)takum_linear32_ln},
	{"takum_linear32_ln_1_plus", "ln_1_plus", K_UN, 6, 0, (void *)takum_linear32_ln_1_plus},
	{"takum_linear32_sec", "sec", K_UN, 6, 0, (void *)takum_linear32_sec},
	{"takum_linear32_sec_pi_times", "sec_pi_times", K_UN, 6, 0, (void *)takum_linear32_sec_pi_times},
	{"takum_linear32_sech", "sech", K_UN, 6, 0, (void *)takum_linear32_sech},
	{"takum_linear32_sign", "sign", K_UN, 6, 0, (void *)takum_linear32_sign},
	{"takum_linear32_sin", "sin", K_UN, 6, 0, (void *)takum_linear32_sin},
	{"takum_linear32_sin_pi_times", "sin_pi_times", K_UN, 6, 0, (void *)takum_linear32_sin_pi_times},
	{"takum_linear32_sinh", "sinh", K_UN, 6, 0, (void *)takum_linear32_sinh},
	{"takum_linear32_square_root", "square_root", K_UN, 6, 0, (void *)takum_linear32_square_root},
	{"takum_linear32_tan", "tan", K_UN, 6, 0, (void *)takum_linear32_tan},
	{"takum_linear32_tan_pi_times", "tan_pi_times", K_UN, 6, 0, (void *)takum_linear32_tan_pi_times},
	{"takum_linear32_tanh", "tanh", K_UN, 6, 0, (void *)takum_linear32_tanh},
	{"takum_linear32_addition", "addition", K_BIN, 6, 0, (void *)takum_linear32_addition},
	{"takum_linear32_subtraction", "subtraction", K_BIN, 6, 0, (void *)takum_linear32_subtraction},
	{"takum_linear32_multiplication", "multiplication", K_BIN, 6, 0, (void *)takum_linear32_multiplication},
	{"takum_linear32_division", "division", K_BIN, 6, 0, (void *)takum_linear32_division},
	{"takum_linear32_power", "power", K_BIN, 6, 0, (void *)takum_linear32_power},
	{"takum_linear32_hypotenuse", "hypotenuse", K_BIN, 6, 0, (void *)takum_linear32_hypotenuse},
	{"takum_linear32_arctan2", "arctan2", K_BIN, 6, 0, (void *)takum_linear32_arctan2},
	{"takum_linear32_arctan2_over_pi", "arctan2_over_pi", K_BIN, 6, 0, (void *)takum_linear32_arctan2_over_pi},
	{"takum_linear32_integer_power", "integer_power", K_INT, 6, 0, (void *)takum_linear32_integer_power},
	{"takum_linear32_root", "root", K_INT, 6, 0, (void *)takum_linear32_root},
	{"takum_linear32_precision", "precision", K_PREC, 6, 0, (void *)takum_linear32_precision},
	{"takum_linear32_from_float32", "from_float32", K_FROMF, 6, 0, (void *)takum_linear32_from_float32},
	{"takum_linear32_to_float32", "to_float32", K_TOF, 6, 0, (void *)takum_linear32_to_float32},
	{"takum_linear32_from_float64", "from_float64", K_FROMF, 6, 1, (void *)takum_linear32_from_float64},
	{"takum_linear32_to_float64", "to_float64", K_TOF, 6, 1, (void *)takum_linear32_to_float64},
	{"takum_linear32_from_extended_float", "from_extended_float", K_FROMF, 6, 2, (void *)takum_linear32_from_extended_float},
	{"takum_linear32_to_extended_float", "to_extended_float", K_TOF, 6, 2, (void *)takum_linear32_to_extended_float},
	{"takum_linear32_from_takum8", "from_takum8", K_CONV, 6, 0, (void *)takum_linear32_from_takum8},
	{"takum_linear32_from_takum16", "from_takum16", K_CONV, 6, 1, (void *)takum_linear32_from_takum16},
	{"takum_linear32_from_takum32", "from_takum32", K_CONV, 6, 2, (void *)takum_linear32_from_takum32},
	{"takum_linear32_from_takum64", "from_takum64", K_CONV, 6, 3, (void *)takum_linear32_from_takum64},
	{"takum_linear32_from_takum_linear8", "from_takum_linear8", K_CONV, 6, 4, (void *)takum_linear32_from_takum_linear8},
	{"takum_linear32_from_takum_linear16", "from_takum_linear16", K_CONV, 6, 5, (void *)takum_linear32_from_takum_linear16},
	{"takum_linear32_from_takum_linear64", "from_takum_linear64", K_CONV, 6, 7, (void *)takum_linear32_from_takum_linear64},
	{"takum_linear64_10_raised", "10_raised", K_UN, 7, 0, (void *)takum_linear64_10_raised},
	{"takum_linear64_10_raised_minus_1", "10_raised_minus_1", K_UN, 7, 0, (void *)takum_linear64_10_raised_minus_1},
	{"takum_linear64_2_raised", "2_raised", K_UN, 7, 0, (void *)takum_linear64_2_raised},
	{"takum_linear64_2_raised_minus_1", "2_raised_minus_1", K_UN, 7, 0, (void *)takum_linear64_2_raised_minus_1},
	{"takum_linear64_absolute", "absolute", K_UN, 7, 0, (void *)takum_linear64_absolute},
	{"takum_linear64_arccos", "arccos", K_UN, 7, 0, (void *)takum_linear64_arccos},
	{"takum_linear64_arccos_over_pi", "arccos_over_pi", K_UN, 7, 0, (void *)takum_linear64_arccos_over_pi},
	{"takum_linear64_arccot", "arccot", K_UN, 7, 0, (void *)takum_linear64_arccot},
	{"takum_linear64_arccot_over_pi", "arccot_over_pi", K_UN, 7, 0, (void *)takum_linear64_arccot_over_pi},
	{"takum_linear64_arccsc", "arccsc", K_UN, 7, 0, (void *)takum_linear64_arccsc},
	{"takum_linear64_arccsc_over_pi", "arccsc_over_pi", K_UN, 7, 0, (void *)takum_linear64_arccsc_over_pi},
	{"takum_linear64_arcosh", "arcosh", K_UN, 7, 0, (void *)takum_linear64_arcosh},
	{"takum_linear64_arcoth", "arcoth", K_UN, 7, 0, (void *)takum_linear64_arcoth},
	{"takum_linear64_arcsch", "arcsch", K_UN, 7, 0, (void *)takum_linear64_arcsch},
	{"takum_linear64_arcsec", "arcsec", K_UN, 7, 0, (void *)takum_linear64_arcsec},
	{"takum_linear64_arcsec_over_pi", "arcsec_over_pi", K_UN, 7, 0, (void *)takum_linear64_arcsec_over_pi},
	{"takum_linear64_arcsin", "arcsin", K_UN, 7, 0, (void *)takum_linear64_arcsin},
	{"takum_linear64_arcsin_over_pi", "arcsin_over_pi", K_UN, 7, 0, (void *)takum_linear64_arcsin_over_pi},
	{"takum_linear64_arctan", "arctan", K_UN, 7, 0, (void *)takum_linear64_arctan},
	{"takum_linear64_arctan_over_pi", "arctan_over_pi", K_UN, 7, 0, (void *)takum_linear64_arctan_over_pi},
	{"takum_linear64_arsech", "arsech", K_UN, 7, 0, (void *)takum_linear64_arsech},
	{"takum_linear64_arsinh", "arsinh", K_UN, 7, 0, (void *)takum_linear64_arsinh},
	{"takum_linear64_artanh", "artanh", K_UN, 7, 0, (void *)takum_linear64_artanh},
	{"takum_linear64_cos", "cos", K_UN, 7, 0, (void *)takum_linear64_cos},
	{"takum_linear64_cos_pi_times", "cos_pi_times", K_UN, 7, 0, (void *)takum_linear64_cos_pi_times},
	{"takum_linear64_cosh", "cosh", K_UN, 7, 0, (void *)takum_linear64_cosh},
	{"takum_linear64_cot", "cot", K_UN, 7, 0, (void *)takum_linear64_cot},
	{"takum_linear64_cot_pi_times", "cot_pi_times", K_UN, 7, 0, (void *)takum_linear64_cot_pi_times},
	{"takum_linear64_coth", "coth", K_UN, 7, 0, (void *)takum_linear64_coth},
	{"takum_linear64_csc", "csc", K_UN, 7, 0, (void *)takum_linear64_csc},
	{"takum_linear64_csc_pi_times", "csc_pi_times", K_UN, 7, 0, (void *)takum_linear64_csc_pi_times},
	{"takum_linear64_csch", "csch", K_UN, 7, 0, (void *)takum_linear64_csch},
	{"takum_linear64_exp", "exp", K_UN, 7, 0, (void *)takum_linear64_exp},
	{"takum_linear64_exp_minus_1", "exp_minus_1", K_UN, 7, 0, (void *)takum_linear64_exp_minus_1},
	{"takum_linear64_inversion", "inversion", K_UN, 7, 0, (void *)takum_linear64_inversion},
	{"takum_linear64_lb", "lb", K_UN, 7, 0, (void *)takum_linear64_lb},
	{"takum_linear64_lb_1_plus", "lb_1_plus", K_UN, 7, 0, (void *)takum_linear64_lb_1_plus},
	{"takum_linear64_lg", "lg", K_UN, 7, 0, (void *)takum_linear64_lg},
	{"takum_linear64_lg_1_plus", "lg_1_plus", K_UN, 7, 0, (void *)takum_linear64_lg_1_plus},
	{"takum_linear64_ln", "ln", K_UN, 7, 0, (void *)takum_linear64_ln},
	{"takum_linear64_ln_1_plus", "ln_1_plus", K_UN, 7, 0, (void *)takum_linear64_ln_1_plus},
	{"takum_linear64_sec", "sec", K_UN, 7, 0, (void *)takum_linear64_sec},
	{"takum_linear64_sec_pi_times", "sec_pi_times", K_UN, 7, 0, (void *)takum_linear64_sec_pi_times},
	{"takum_linear64_sech", "sech", K_UN, 7, 0, (void *)takum_linear64_sech},
	{"takum_linear64_sign", "sign", K_UN, 7, 0, (void *)takum_linear64_sign},
	{"takum_linear64_sin", "sin", K_UN, 7, 0, (void *)takum_linear64_sin},
	{"takum_linear64_sin_pi_times", "sin_pi_times", K_UN, 7, 0, (void *)takum_linear64_sin_pi_times},
	{"takum_linear64_sinh", "sinh", K_UN, 7, 0, (void *)takum_linear64_sinh},
	{"takum_linear64_square_root", "square_root", K_UN, 7, 0, (void *)takum_linear64_square_root},
	{"takum_linear64_tan", "tan", K_UN, 7, 0, (void *)takum_linear64_tan},
	{"takum_linear64_tan_pi_times", "tan_pi_times", K_UN, 7, 0, (void *)takum_linear64_tan_pi_times},
	{"takum_linear64_tanh", "tanh", K_UN, 7, 0, (void *)takum_linear64_tanh},
	{"takum_linear64_addition", "addition", K_BIN, 7, 0, (void *)takum_linear64_addition},
	{"takum_linear64_subtraction", "subtraction", K_BIN, 7, 0, (void *)takum_linear64_subtraction},
	{"takum_linear64_multiplication", "multiplication", K_BIN, 7, 0, (void *)takum_linear64_multiplication},
	{"takum_linear64_division", "division", K_BIN, 7, 0, (void *)takum_linear64_division},
	{"takum_linear64_power", "power", K_BIN, 7, 0, (void *)takum_linear64_power},
	{"takum_linear64_hypotenuse", "hypotenuse", K_BIN, 7, 0, (void *)takum_linear64_hypotenuse},
	{"takum_linear64_arctan2", "arctan2", K_BIN, 7, 0, (void *)takum_linear64_arctan2},
	{"takum_linear64_arctan2_over_pi", "arctan2_over_pi", K_BIN, 7, 0, (void *)takum_linear64_arctan2_over_pi},
	{"takum_linear64_integer_power", "integer_power", K_INT, 7, 0, (void *)takum_linear64_integer_power},
	{"takum_linear64_root", "root", K_INT, 7, 0, (void *)takum_linear64_root},
	{"takum_linear64_precision", "precision", K_PREC, 7, 0, (void *)takum_linear64_precision},
	{"takum_linear64_from_float32", "from_float32", K_FROMF, 7, 0, (void *)takum_linear64_from_float32},
	{"takum_linear64_to_float32", "to_float32", K_TOF, 7, 0, (void *)takum_linear64_to_float32},
	{"takum_linear64_from_float64", "from_float64", K_FROMF, 7, 1, (void *)takum_linear64_from_float64},
	{"takum_linear64_to_float64", "to_float64", K_TOF, 7, 1, (void *)takum_linear64_to_float64},
	{"takum_linear64_from_extended_float", "from_extended_float", K_FROMF, 7, 2, (void *)takum_linear64_from_extended_float},
	{"takum_linear64_to_extended_float", "to_extended_float", K_TOF, 7, 2, (void *)takum_linear64_to_extended_float},
	{"takum_linear64_from_takum8", "from_takum8", K_CONV, 7, 0, (void *)takum_linear64_from_takum8},
	{"takum_linear64_from_takum16", "from_takum16", K_CONV, 7, 1, (void *)takum_linear64_from_takum16},
	{"takum_linear64_from_takum32", "from_takum32", K_CONV, 7, 2, (void *)takum_linear64_from_takum32},
	{"takum_linear64_from_takum64", "from_takum64", K_CONV, 7, 3, (void *)takum_linear64_from_takum64},
	{"takum_linear64_from_takum_linear8", "from_takum_linear8", K_CONV, 7, 4, (void *)takum_linear64_from_takum_linear8},
	{"takum_linear64_from_takum_linear16", "from_takum_linear16", K_CONV, 7, 5, (void *)takum_linear64_from_takum_linear16},
	{"takum_linear64_from_takum_linear32", "from_takum_linear32", K_CONV, 7, 6, (void *)takum_linear64_from_takum_linear32},
};

const std::vector<Op> &tk_ops() { return OPS; }
const Op *tk_find(const std::string &name)
{
	static std::unordered_map<std::string, const Op *> m;
	if (m.empty()) for (auto &o : OPS) m[o.name] = &o;
	auto it = m.find(name);
	return it == m.end() ? nullptr : it->second;
}
#define SW(N, E8, E16, E32, E64) do { switch (N) { case 8: E8; case 16: E16; case 32: E32; default: E64; } } while (0)
#define N_OF(T) (TYPES[T].n)
std::vector<const Op *> *tk_trace;
#define TRACE(o) do { if (__builtin_expect(tk_trace != nullptr, 0)) tk_trace->push_back(&o); } while (0)
int64_t tk_call_un(const Op &o, int64_t a)
{
	TRACE(o);
	SW(N_OF(o.t), return ((int8_t (*)(int8_t))o.fn)((int8_t)a), return ((int16_t (*)(int16_t))o.fn)((int16_t)a),
	   return ((int32_t (*)(int32_t))o.fn)((int32_t)a), return ((int64_t (*)(int64_t))o.fn)(a));
}
int64_t tk_call_bin(const Op &o, int64_t a, int64_t b)
{
	TRACE(o);
	SW(N_OF(o.t), return ((int8_t (*)(int8_t, int8_t))o.fn)((int8_t)a, (int8_t)b),
	   return ((int16_t (*)(int16_t, int16_t))o.fn)((int16_t)a, (int16_t)b),
	   return ((int32_t (*)(int32_t, int32_t))o.fn)((int32_t)a, (int32_t)b),
	   return ((int64_t (*)(int64_t, int64_t))o.fn)(a, b));
}
int64_t tk_call_int(const Op &o, int64_t a, int64_t n)
{
	TRACE(o);
	SW(N_OF(o.t), return ((int8_t (*)(int8_t, int64_t))o.fn)((int8_t)a, n),
	   return ((int16_t (*)(int16_t, int64_t))o.fn)((int16_t)a, n),
	   return ((int32_t (*)(int32_t, int64_t))o.fn)((int32_t)a, n),
	   return ((int64_t (*)(int64_t, int64_t))o.fn)(a, n));
}
unsigned tk_call_prec(const Op &o, int64_t a)
{
	TRACE(o);
	SW(N_OF(o.t), return ((uint8_t (*)(int8_t))o.fn)((int8_t)a), return ((uint8_t (*)(int16_t))o.fn)((int16_t)a),
	   return ((uint8_t (*)(int32_t))o.fn)((int32_t)a), return ((uint8_t (*)(int64_t))o.fn)(a));
}
template <class F> static int64_t fromf(const Op &o, F f)
{
	SW(N_OF(o.t), return ((int8_t (*)(F))o.fn)(f), return ((int16_t (*)(F))o.fn)(f),
	   return ((int32_t (*)(F))o.fn)(f), return ((int64_t (*)(F))o.fn)(f));
}
int64_t tk_call_fromf(const Op &o, ldbl f)
{
	TRACE(o);
	return o.t2 == 0 ? fromf<float>(o, (float)f) : o.t2 == 1 ? fromf<double>(o, (double)f) : fromf<ldbl>(o, f);
}
template <class F> static ldbl tof(const Op &o, int64_t a)
{
	SW(N_OF(o.t), return ((F (*)(int8_t))o.fn)((int8_t)a), return ((F (*)(int16_t))o.fn)((int16_t)a),
	   return ((F (*)(int32_t))o.fn)((int32_t)a), return ((F (*)(int64_t))o.fn)(a));
}
ldbl tk_call_tof(const Op &o, int64_t a)
{
	TRACE(o);
	return o.t2 == 0 ? tof<float>(o, a) : o.t2 == 1 ? tof<double>(o, a) : tof<ldbl>(o, a);
}
template <class R> static int64_t conv(const Op &o, int64_t a)
{
	SW(N_OF(o.t2), return ((R (*)(int8_t))o.fn)((int8_t)a), return ((R (*)(int16_t))o.fn)((int16_t)a),
	   return ((R (*)(int32_t))o.fn)((int32_t)a), return ((R (*)(int64_t))o.fn)(a));
}
int64_t tk_call_conv(const Op &o, int64_t a)
{
	TRACE(o);
	SW(N_OF(o.t), return conv<int8_t>(o, a), return conv<int16_t>(o, a), return conv<int32_t>(o, a), return conv<int64_t>(o, a));
}
