import json
W="for 8, 16 and 32 bits within 0.501 units in the last place (ulp) of the true result, for 64 bits within 0.9 ulp once the 80-bit extended precision in which arguments are held is allowed for"
T="Each function is tested on a few hundred to a few thousand sampled arguments against the same libm call the implementation makes, so an error in a region no sample hits, or shared with the reference, passes; the claim is over all bit strings (up to 2^64, pairs up to 2^128)."
def P(id,title,st,over,text,why,files,mech,obs=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs or ["public functions of takum.h"],hook_needed=None))
    assert len(title)<=80,title
    return d
I=["inputs"]
L=[
P("C01","Takum to floating point: every bit string decodes to its defined value",
 "Converting any takum of any width and either family to float32, float64 or extended precision gives the real number the takum format defines for that bit string, NaR gives NaN and 0 gives 0. For linear takums the result is that number correctly rounded to the target; for logarithmic takums of value exp(l/2) it is correct to half a unit in the last place of the target plus (|l|+2) 2^-64 relative for float32 and float64, and to the latter for extended precision. Numbers outside the target's range become its infinity or a subnormal/zero just as rounding demands.",
 I,"every bit string of the 8 takum types and the 3 float types","Tests decode a few thousand hand-picked or sampled strings per type; 2^32 and 2^64 strings with variable-length fields have many regimes (direction, regime, characteristic length, rounding into the target) that samples miss.",
 ["src/codec.c","src/codec.h","src/conversion.c"],[("bit field decoding of sign, direction, regime, characteristic, mantissa","src/codec.c"),("to_float32/to_float64/to_extended_float","src/conversion.c")]),
P("C02","Floating point to takum: nearest takum, ties to even, saturating",
 "Converting any float32, float64 or extended precision number to any takum gives the takum whose bit string is nearest to the exact encoding of the number (within 0.501 bit-string units for 8, 16 and 32 bits and 0.75 for 64 bits; exact ties in linear takums go to the even bit string). Finite non-zero numbers never become 0 or NaR but saturate at the smallest and largest magnitude with their sign, both zeros become 0, and infinities and NaNs become NaR.",
 I,"every float32, float64 and 80-bit value, subnormals, ties, carries and range edges included, for the 8 takum types","Tests encode a limited list of values per type; ties, carries across regime boundaries, subnormals and the exact saturation thresholds form thin sets in 2^32..2^80 inputs.",
 ["src/codec.c","src/conversion.c"],[("encoding and rounding with saturation","src/codec.c"),("from_float32/from_float64/from_extended_float","src/conversion.c")]),
P("C03","Round trips are lossless wherever the wider format can hold the value",
 "A takum converted to extended precision, to float64 (8 to 32 bits), to float32 (8 and 16 bits, inside its normal range) to a wider takum of its family, or to a takum of the other family at least twice as wide (inside the range both share), and back, is the same bit string again. A float32 or float64 inside the dynamic range converted to a 64-bit linear takum and back, and a float32 converted to a 64-bit logarithmic takum and back, is the same float again.",
 I,"every start value of every pair of formats for which the round trip is guaranteed","Tests check single directions on sampled values against recomputed references; losslessness is a relation between two conversions over all values.",
 ["src/conversion.c","src/codec.c"],[("conversion functions between all formats","src/conversion.c")]),
P("C04","Width conversions within a family: exact widening, round-to-even narrowing",
 "Converting a takum to a wider takum of the same family appends zero bits and so preserves the value exactly. Converting to a narrower one rounds the bit string to the nearest, ties to even, without ever turning a non-zero number into 0 or NaR or NaR into a number: magnitudes saturate and NaR, 0 and signs are preserved.",
 I,"every bit string of every source width and every target width of both families","Tests cover a sampled set; every carry chain, tie pattern and saturation end in 2^64 strings and all 24 width pairs is beyond sampling by examples.",
 ["src/conversion.c","src/util.h"],[("takumN_from_takumM, rounding shift with saturation","src/conversion.c")]),
P("C05","Logarithmic and linear takums convert to the nearest of the other kind",
 "Converting between any logarithmic and any linear takum type gives the takum of the target type nearest to the source's real value (within 0.501 bit-string units for targets below 64 bits, 0.75 for 64 bits, extended precision of the logarithmic value allowed for), saturating at the ends of the target's range with the sign kept. NaR and 0 are preserved and finite non-zero numbers never become either.",
 I,"every bit string of every source type, all 32 logarithmic/linear pairs, in both directions","Tests compare sampled values with a reference that shares the conversion path; the ranges of the two families differ, so saturation and rounding at every regime must hold for all strings.",
 ["src/conversion.c","src/codec.c"],[("cross-family conversions through extended precision","src/conversion.c")]),
P("C06","Takums are ordered and negated as two's complement integers",
 "For any two takums of a type, comparing them as signed integers orders them exactly as their real values, with NaR equal to itself and below everything else, and two's complement negation of the integer negates the value. Consequently conversions from floats and between takum types turn the negated argument into the negated result and are monotonic: a larger input never gives a smaller output (both up to one unit next to a tie for results computed in a format that cannot hold them exactly).",
 I,"every pair of takums of a type and every pair of floats","A relation over pairs (2^128 for 64 bits); no test compares orders of results.",
 ["src/codec.c","src/conversion.c","takum.h"],[("monotone encoding","src/codec.c")]),
P("C07","Symmetries: odd, even and commutative functions stay so bit for bit",
 "Functions that are odd (sin, tan, sinh, arsinh, arctan, inversion, odd roots, ...) return the exact negation for the negated argument, even functions (cos, cosh, sec, sech, ...) return the same bits, and addition, multiplication and hypotenuse commute, with subtraction and division following the matching sign rules. Where the relation negates a logarithmic 32- or 64-bit result between e^-0.5 and e^0.5 in magnitude, whose encoding rounds 1 - |l|, one unit in the last place of difference is allowed; nowhere else.",
 I,"every argument (pair) of every function of the 8 types with such a symmetry","A relation between two calls over all arguments; tests look at single calls.",
 ["src/addition.c","src/multiplication.c","src/sin.c","src/cos.c","src/sinh.c","src/inversion.c"],[("sign handling in decode and encode","src/codec.c"),("arithmetic on decoded values","src/*.c")]),
P("C08","Addition and subtraction are correctly rounded and saturating",
 "The sum and difference of any two takums of a type is the takum nearest to the exact real result: "+W+" (ties to even in linear takums up to 64 bits when the exact result is representable in extended precision). Results out of range saturate, exact cancellation gives 0 and only then, and any NaR operand gives NaR.",
 I,"every pair of operands of each of the 8 types",T,["src/addition.c","src/subtraction.c","src/codec.c"],[("extended-precision addition, rounding once on encoding","src/addition.c"),("subtraction","src/subtraction.c")]),
P("C09","Multiplication and division are correctly rounded and saturating",
 "The product and quotient of any two takums of a type is the takum nearest to the exact real result: "+W+", and for logarithmic takums computed exactly on the logarithms, with ties to even. Out-of-range results saturate with the right sign and never become 0 or NaR, 0 times a number and 0 divided by a non-zero number is 0, and NaR operands or division by 0 give NaR.",
 I,"every pair of operands of each of the 8 types",T,["src/multiplication.c","src/division.c","src/codec.c"],[("sum of logarithms, product of decoded values","src/multiplication.c"),("division","src/division.c")]),
P("C10","Inversion gives the exact or nearest reciprocal",
 "For every logarithmic takum the inverse is the exact reciprocal (an involution on all strings but 0 and NaR), and for every linear takum it is the takum nearest to the reciprocal (0.501 ulp below 64 bits, 0.75 ulp for 64 bits), saturating out of range. The inverse of 0 and NaR is NaR and signs are kept.",
 I,"every bit string of the 8 types",T,["src/inversion.c"],[("inversion by bit manipulation / division","src/inversion.c")]),
P("C11","Square root and n-th root are correctly rounded on their whole domain",
 "The square root of a non-negative takum and the n-th root for any non-zero 64-bit integer n is "+W.replace("result,","root,")+". Even roots of negative numbers, the zeroth root, negative roots of 0 and roots of NaR give NaR; odd roots of negative numbers are negative.",
 I,"every bit string of the 8 types and every 64-bit integer n",T+" Roots are tested for a handful of n.",["src/square_root.c","src/root.c"],[("square_root","src/square_root.c"),("root with sign and parity handling","src/root.c")]),
P("C12","Integer powers are accurate for every base and every 64-bit exponent",
 "Raising a takum to any 64-bit integer power gives the nearest takum: "+W+". The zeroth power of any non-zero number is 1, the first power is the identity, powers of NaR and zeroth and negative powers of 0 are NaR, signs follow the parity of the exponent, and out-of-range results saturate.",
 I,"every bit string of the 8 types and every 64-bit exponent",T+" Exponents in tests are few and small.",["src/integer_power.c"],[("integer_power, multiplication on logarithms / powl","src/integer_power.c")]),
P("C13","Power and hypotenuse are accurate and have the right domain",
 "x to the power y and the hypotenuse of (x, y) are the takum nearest to the real result: "+W+". A negative base gives a number only for integer exponents, with the sign given by their parity, and saturation applies where the result leaves the range; undefined combinations and NaR operands give NaR.",
 I,"every pair of operands of each of the 8 types",T,["src/power.c","src/hypotenuse.c"],[("power","src/power.c"),("hypotenuse","src/hypotenuse.c")]),
P("C14","Exponentials and logarithms are accurate on their whole domain",
 "exp, 2^x, 10^x, their minus-1 forms, ln, lb, lg and their 1-plus forms give the takum nearest to the real result: "+W+". Exponentials saturate instead of over- or underflowing, logarithms of non-positive (or, for 1-plus, at most -1) arguments give NaR, and arguments near 0 or 1 lose no accuracy in the 1-plus and exp-minus-1 forms.",
 I,"every bit string of the 8 types for the 12 functions",T,["src/exp.c","src/2_raised.c","src/10_raised.c","src/ln.c","src/lb.c","src/lg.c"],[("exponential functions","src/exp.c, src/2_raised.c, src/10_raised.c"),("logarithms","src/ln.c, src/lb.c, src/lg.c")]),
P("C15","Trigonometric functions are accurate for arguments of any size",
 "sin, cos, tan, cot, sec, csc and their pi-times forms give the takum nearest to the real result: "+W+" (where the argument's own extended-precision uncertainty covers a sizeable part of a period only the range of the function is guaranteed). The pi-times forms are exact at multiples of one half: zeros are 0, ones are 1 and poles are NaR.",
 I,"every bit string of the 8 types for the 12 functions",T,["src/sin.c","src/cos.c","src/tan.c","src/cot.c","src/sec.c","src/csc.c"],[("argument handling and libm calls","src/sin.c and siblings")]),
P("C16","Inverse trigonometric functions are accurate and land in the right range",
 "arcsin, arccos, arctan, arccot, arcsec, arccsc, their over-pi forms, and arctan2 with its over-pi form give the takum nearest to the principal value: "+W+". Arguments outside the domain give NaR, the ends of the domain give the exact limit values, and arctan2 picks the quadrant from the signs of both arguments, axes included.",
 I,"every bit string (pair for arctan2) of the 8 types for the 14 functions",T,["src/arcsin.c","src/arccos.c","src/arctan.c","src/arccot.c","src/arcsec.c","src/arccsc.c","src/arctan2.c"],[("domain checks and libm calls","src/arcsin.c and siblings")]),
P("C17","Hyperbolic and area functions are accurate on their whole domain",
 "sinh, cosh, tanh, coth, sech, csch and arsinh, arcosh, artanh, arcoth, arsech, arcsch give the takum nearest to the real result: "+W+". Large arguments saturate to the right limit with the right sign, small arguments keep full relative accuracy, and arguments outside the domain give NaR.",
 I,"every bit string of the 8 types for the 12 functions",T,["src/sinh.c","src/cosh.c","src/tanh.c","src/coth.c","src/sech.c","src/csch.c","src/arsinh.c","src/arcosh.c","src/artanh.c","src/arcoth.c","src/arsech.c","src/arcsch.c"],[("hyperbolic functions","src/sinh.c and siblings"),("area functions","src/arsinh.c and siblings")]),
P("C18","NaR is returned exactly where the mathematical function is undefined",
 "Any NaR argument gives NaR. For all other arguments a function returns NaR if and only if the mathematical function has no finite real value there (division by zero, logarithms of non-positive numbers, even roots of negative numbers, inverse functions outside their domain, poles of pi-times functions); overflow, underflow or loss of precision never produces NaR.",
 I,"every argument (pair) of all functions of the 8 types","NaR-ness at the exact domain boundary and its neighbours, for every width and every function, is a statement over all arguments; tests hit few boundary points.",
 ["src/*.c","src/codec.c"],[("NaR/domain guards at the head of each function","src/*.c"),("NaN and infinity mapping in encode","src/codec.c")]),
P("C19","Saturation: non-zero results never become 0 or NaR, at every range end",
 "When the exact result of an operation is non-zero but too small or too large for the type, the result is the smallest or largest number of the right sign, never 0, NaR or a number of the wrong sign, and results just inside the range are rounded normally. A result is 0 only when the mathematical result is exactly 0.",
 I,"every argument (pair) whose exact result lies at, near or beyond an end of the dynamic range or is exactly zero, for all arithmetic functions of the 8 types","The thresholds where results leave the range are single neighbouring bit strings per function and type, and pairs of them for binary functions; samples rarely touch them.",
 ["src/codec.c","src/*.c"],[("saturation in encode","src/codec.c"),("special cases before encoding","src/exp.c, src/sinh.c, ...")]),
P("C20","Precision reports the exact number of mantissa bits",
 "For every takum the precision function returns the number of mantissa bits its bit string has, which the leading bits alone determine: n minus 5 minus the regime value, never negative. 0 and NaR have the worst-case precision of the type, max(n - 12, 0).",
 I,"every bit string of the 8 types","Tests sample strings per regime; the claim covers all strings, both directions and truncated fields in 8 bits.",
 ["src/precision.c"],[("precision from direction and regime bits","src/precision.c")]),
P("C21","Sign and absolute value",
 "For every takum the sign function returns 1, 0 or -1 as takums of the type (NaR for NaR) according to the sign of its value, and absolute returns the takum of the magnitude. NaR stays NaR in every width, and sign times absolute gives back the argument.",
 I,"every bit string of the 8 types","A statement over all 2^64 strings and the wrap-around string; tests sample.",
 ["src/sign.c","src/absolute.c"],[("sign","src/sign.c"),("absolute","src/absolute.c")]),
P("C22","Monotone functions are monotone and mathematical bounds hold",
 "Wherever a function is monotone on an interval of real arguments (exponentials, logarithms, roots, hyperbolic and area functions, inverse trigonometric functions, trigonometric functions between their extrema, and the arithmetic operations, hypotenuse, power, integer power, root and arctan2 in each argument), a larger takum argument never gives a result on the wrong side, for neighbouring takums as for distant ones. Results keep the bounds of the function: |sin|, |cos|, |tanh|, sech <= 1, |sec|, |csc|, cosh, |coth| >= 1, hypotenuse >= either operand, |sinh x| >= |x| >= |arctan x|, angles within their principal range, exponentials and square roots >= 0. For 64-bit and 32-bit results one unit in the last place against the order is allowed where both results are within the accuracy their function promises (for 32 bits: next to a tie), and not at all for the arithmetic operations, square roots and logarithmic roots, which round once.",
 I,"every pair of arguments (neighbours and distant ones) of every monotone function or argument position of the 8 types, every argument of every bounded function","Order and bounds are relations over all pairs of arguments; tests look at single arguments, and a result a few units off next to a neighbour passes any accuracy tolerance of a few samples.",
 ["src/*.c","src/codec.c"],[("monotone rounding of accurate extended-precision results","src/codec.c"),("function bodies","src/*.c")]),
P("C23","Widths agree: narrow results are the rounding of wide results",
 "Evaluating a function on a takum and on the same value in a wider type of the same family gives coherent answers: the narrow result is the wide result rounded to the narrow type, up to one neighbour when the wide result lies within its own rounding error of a tie. NaR, 0 and the sign agree exactly, except where only the narrow result saturates.",
 I,"every argument (pair) of every function, every narrower/wider pair of types of a family","A relation across separately written per-width implementations; each width is tested in isolation with its own samples.",
 ["src/*.c"],[("separate per-width function bodies","src/*.c")]),
P("C24","Results depend only on arguments: any history, order, thread or FP state",
 "Every function returns the same result for the same arguments whatever calls preceded it, how often and in which order, whatever errno, the sticky floating-point exception flags and unused stack contents hold, and whatever other threads call at the same time. No function leaves the rounding mode or other floating-point control state changed.",
 ["histories","schedules"],"every sequence and interleaving of calls of all 608 public functions","Tests call functions once per argument in one fixed order in one thread and never compare the same call in two contexts.",
 ["src/*.c","src/util.h"],[("absence of mutable static state","src/*.c")]),
P("C25","No undefined behaviour for any argument",
 "No public function executes undefined behaviour, reads or writes out of bounds, traps or fails to return for any argument bits: any takum string, any 64-bit integer, any float including infinities, NaNs and subnormals. In particular no signed overflow, invalid shift or out-of-range float to integer conversion occurs.",
 I,"every argument of all 608 public functions","Undefined behaviour is silent without sanitizers and tests run without them on few extreme arguments.",
 ["src/codec.c","src/conversion.c","src/*.c"],[("guards before shifts, casts and indexing","src/codec.c, src/util.h")]),
P("C26","Equivalent computations give the same result",
 "Two ways of computing the same value through the library give the same takum: x+0, x-0, x*1, x/1, first powers and first roots are x, x-x is 0, x/x is 1, x*0 is 0, 1/x, x^-1 and the root of index -1 are the inversion, x^2 is x*x, the root of index 2 and the power 1/2 are the square root, x+x is 2*x, power with an integral exponent is the integer power, arctan2(x,1) is arctan, 2 and 10 to a power agree with 2_raised and 10_raised, reciprocal functions (csc, sec, cot, csch, sech, coth) are the inversion of their partners, sign(x)*|x| is x, and on logarithmic takums a/b is a*(1/b). Converting a number by way of another format that holds it exactly gives the same takum as converting it directly. Neutral elements, signs, zeros and NaR agree exactly; at most the few units that two roundings can differ are allowed elsewhere.",
 I,"every argument (pair) of each of these identities for the 8 types, every float and takum for the conversions","Each side is tested alone on a few samples against libm, never against the other.",
 ["src/*.c","src/conversion.c"],[("separate implementations of mathematically equal operations","src/*.c")]),
P("C27","The example calculator is a faithful stack machine over the library",
 "For any sequence of input lines the example calculator prints, for every line that is a complete reverse Polish expression, the result of applying the library's functions of the current number type to its operands in order and the register it is stored in (a to z, cyclically), and a message and no result for every other line. Registers hold the values last stored, converted to the type in use; decimal, hexadecimal and octal integers within 64 bits and decimal fractions are read as such, integers outside that range are NaR; settings change only what they name. It never crashes, leaks memory or executes undefined behaviour, whatever bytes it is given.",
 ["inputs","histories"],"every sequence of input lines (histories of settings, register contents and expressions, arbitrary bytes)","The calculator has no tests at all; its registers, type switches and error paths are state built up over a session.",
 ["example/calculator.c","example/util.c"],[("token parsing, operand stack, registers","example/calculator.c")],["standard output and error of example/calculator"]),
P("C28","Results do not depend on compiler, optimisation level or stack contents",
 "On one platform the library returns bit-identical results for the same arguments when built as standard C99 by GCC or Clang at any optimisation level without unsafe math options. No result depends on uninitialised memory.",
 ["inputs","configurations"],"every argument of all 608 public functions, compilers and optimisation levels","Tests run one build; reads of indeterminate values, strict-aliasing and evaluation-order dependence change results only in other builds.",
 ["src/*.c","src/codec.c","src/util.h"],[("strict C99 without reliance on unspecified behaviour","src/*.c")]),
P("C29","Named constants are the takums nearest to the numbers they name",
 "Every constant macro of takum.h (multiples and fractions of pi, e-, 2- and 10-based logarithms, square roots, the golden ratio, the Euler-Mascheroni constant, one) is, for each of the 8 types, the takum whose bit string is nearest to the exact encoding of the number named (within 0.51 units for takum64), and NaR, the positive minimum and the positive maximum are the strings the format defines.",
 I,"every constant macro of every type","The unit test compares each constant with the library's own conversion of an 80-bit literal, so an error common to the conversion and the constant, or of the literal, passes; nothing compares them with the mathematical numbers.",
 ["takum.h"],[("constant macros","takum.h")],["macros of takum.h"]),
P("C30","The accuracy contract holds on every floating-point platform the code supports",
 "The accuracy, saturation and NaR rules of conversions, arithmetic and functions do not depend on the x87 extended format: they hold for all 8 types on platforms whose long double is IEEE binary128, and for 8, 16 and 32 bits on those whose long double is IEEE binary64 (with arguments held in that precision, integer arguments it can hold; 64-bit takums are announced as not implemented there), and for all types where float and double expressions are evaluated in extended precision (FLT_EVAL_METHOD 2, as on 32-bit x86). The formats are selected by LDBL_MANT_DIG when the library is compiled.",
 ["inputs","configurations"],"every argument of all conversions and functions, for the three formats the code distinguishes and both ways of evaluating float and double","The tests run on one machine with one format of long double; the code for the other two is never executed.",
 ["src/codec.c","src/*.c"],[("extraction of the fraction bits of a long double, bounds and decoding per LDBL_MANT_DIG","src/codec.c")]),
]
open("/verif/properties.jsonl","w").write("".join(json.dumps(p,ensure_ascii=False)+"\n" for p in L))
TECH={p["id"]:"generated-input search against an independent binary128 reference model" for p in L}
TECH.update({"C03":"generated round trips (inverse oracle)","C04":"generated inputs against an exact integer rounding model","C06":"generated pairs, metamorphic order/negation relation","C07":"generated inputs, metamorphic symmetry relation","C20":"generated/enumerated inputs against an integer model","C21":"generated/enumerated inputs against an integer model","C22":"generated and enumerated neighbours and pairs, metamorphic order and bound relations","C26":"generated and enumerated inputs, metamorphic relations between equivalent computations","C27":"stateful (session) property-based testing against a stack-machine model, with sanitizers","C23":"generated inputs, differential across widths","C24":"stateful (history) property-based testing with threads and ThreadSanitizer","C25":"property-based fuzzing under address and undefined-behaviour sanitizers","C30":"generated inputs against an independent binary128 reference model, in builds with other long double formats and x87 evaluation","C28":"generated inputs, differential across build configurations"})
N="Search over generated inputs: no violation among the cases counted in the evidence file, 8- and 16-bit unary spaces enumerated completely; absence beyond that is not established. Trusts the reference model (harness/oracle.cpp, libquadmath binary128), GCC and the machine's x87 and glibc libm."
NOTE={p["id"]:N for p in L}
NOTE["C24"]="Search over generated call histories and thread interleavings the scheduler happens to give; ThreadSanitizer widens the latter to data races on executed paths. No violation among the histories counted in the evidence."
NOTE["C25"]="Search under GCC's address and undefined-behaviour sanitizers (with float-cast-overflow); finds only undefined behaviour they instrument, on executed inputs."
NOTE["C22"]="Search over generated inputs: neighbours of all 8- and 16-bit arguments enumerated; for 32 and 64 bits neighbours and pairs at generated arguments. Relations only, no reference values."
NOTE["C26"]="Search over generated inputs, 8- and 16-bit unary spaces enumerated. Relations only, no reference values: an error common to both ways is left to the accuracy properties."
NOTE["C27"]="Search over generated sessions; the library functions themselves are taken as given (other properties judge them), as is the C library's reading and printing of numbers."
NOTE["C29"]="All 312 macros enumerated and compared with binary128 values of the numbers; trusts libquadmath."
NOTE["C28"]="Search over inputs and five fixed builds (GCC -Os/-O0/-O3, Clang -O0/-O2, patterned and zeroed automatic variables)."
NOTE["C30"]="Search over generated inputs in three further builds (GCC -mfpmath=387, -mlong-double-64 and -mlong-double-128 on x86-64; for the latter two, l functions routed to glibc's double and _Float128 ones); little-endian only. Where the format has fewer or more digits the libm of a real platform may differ."
import os
m={"version":1,"setup_cmd":"./check --setup","checks":[{"property":p["id"],"quick_cmd":f"./check {p['id']}","thorough_cmd":f"./check {p['id']} --thorough","technique":TECH[p["id"]],"level":"exploration","level_note":NOTE[p["id"]]} for p in L],"not_applicable":[],
 "notes":"No hooks: the checks use the public API and rebuild the library from /repo/src with their own flags. Replay: ./check ID --replay replays/ID.replay."}
open("/verif/MANIFEST.json","w").write(json.dumps(m,indent=1,ensure_ascii=False)+"\n")
