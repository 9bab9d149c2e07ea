NA = {}


def define(prop, c):
    G, X, SIMD, TAIL = c["G"], c["X"], c["SIMD"], c["TAIL"]
    S = "operands from the value alphabet of the element type (all 256 values of 8-bit types, boundary/halfway/bit-pattern values of wider ones), in every lane; " + SIMD
    SAMPLED = "The stable tests call %s; every other operation, element type, lane count and operand is never executed."

    prop("C01", "Element-wise arithmetic equals the scalar operation in every lane",
         "For every simd type, +, -, *, /, %, unary +/-, ++/-- and their compound and vector-scalar forms give in each lane exactly what the scalar operation on the element type gives for that lane's operands (wrapping for unsigned and sub-int types, IEEE for floating-point types, NaN payloads aside). "
         "Integer division by zero and overflow of signed int and wider types are excluded. Compound assignments and increments return and modify what their scalar counterparts do.",
         ["inputs", "configurations"], S,
         SAMPLED % "a few math functions on a handful of floating-point values and no arithmetic operator on integers",
         [X + "type.hpp", X + "addsub.hpp", X + "muldiv.hpp", G + "type.hpp"],
         [("native add/sub/mul/div with scalar fallbacks", X + "addsub.hpp, muldiv.hpp"), ("element-wise loops", G + "type.hpp")], [TAIL])
    prop("C02", "Bitwise operators and shifts equal the scalar operation in every lane",
         "For every integer simd type, &, |, ^, ~, << and >> (also compound and vector-scalar forms) and the constant-count shifts lsl, lsr, asl, asr give in each lane the scalar result on the element type: << discards high bits, >> of a signed type and asr keep the sign, lsr shifts in zeros. Shift counts lie in [0, bits of the element type).",
         ["inputs", "configurations"], S + "; every shift count",
         SAMPLED % "no bitwise or shift operator",
         [X + "bitwise.hpp", X + "type.hpp", G + "type.hpp"], [("per-width shift emulation on SSE2/AVX", X + "bitwise.hpp"), ("variable-count shifts with element-wise fallback", X + "type.hpp")], [TAIL])
    prop("C03", "Comparisons give the scalar verdict in every lane",
         "For every simd type, ==, !=, <, <=, >, >= (and ! of integer vectors) return a mask whose element is true exactly in the lanes where the scalar comparison is true, including signed/unsigned order at the extremes of integer types and IEEE semantics (all but != are false with NaN, -0 equals +0) for floating-point types.",
         ["inputs", "configurations"], "all pairs of operands from the value alphabet, in every lane; " + SIMD,
         SAMPLED % "no comparison on integers or NaN",
         [X + "cmp.hpp", X + "type.hpp", G + "type.hpp"], [("compare emulation for unsigned and 64-bit integers", X + "cmp.hpp")], [TAIL])
    prop("C04", "Mask operations act like an array of bool under any operation history",
         "After any sequence of element assignments, &, |, ^, &&, ||, ==, !=, ~, !, unary +/-, compound assignments, copies and blends, every element of a simd_mask equals that of an array of bool put through the same element-wise operations (unary - is logical negation of each element). "
         "Whatever the lanes past size() hold never changes an element, and reading through a reference and through a value agree.",
         ["histories", "inputs", "configurations"], "breadth-first search over the states of a mask object (its bytes, unused lanes included), all operations from each state against a set of second operands; " + SIMD,
         "The stable tests contain no mask history at all; unused lanes only matter after particular sequences of operations.",
         [X + "type.hpp", G + "type.hpp", X + "utility.hpp"], [("mask operators on native vectors", X + "type.hpp"), ("bool arrays", G + "type.hpp")], [TAIL])
    prop("C05", "Mask reductions count exactly the elements of the mask",
         "all_of, any_of, none_of, some_of, reduce_count, reduce_min_index and reduce_max_index return what the same query over the array of the mask's size() elements returns, for every mask however it was produced. The index queries are asked of masks with at least one true element.",
         ["histories", "inputs", "configurations"], "every mask state reachable by the explored operations, with every content of unused lanes these produce; " + SIMD,
         "The stable tests only call all_of/any_of on masks of one vector; partially used last vectors and histories are not sampled.",
         [X + "type.hpp", X + "transform.hpp", G + "type.hpp"], [("movemask-based reductions with masking of the last native vector", X + "type.hpp"), ("test_mask", X + "transform.hpp")], [TAIL])
    prop("C06", "Loads and stores touch exactly size() elements and convert each one",
         "copy_from, the loading constructors and copy_to, for simd and simd_mask, with any alignment tag whose requirement is met, read or write exactly the size() consecutive elements at the given address - no byte before or after - and each element equals the scalar conversion between memory and element type. Values whose scalar conversion would be undefined (out of range) are excluded.",
         ["inputs", "configurations"], "every pair of element type and memory type, alignment tag, position against inaccessible pages and misalignment, values from the alphabet rotated through all lanes; " + SIMD,
         "The stable tests load and store whole aligned arrays of the element type; page boundaries, conversions and partial last vectors are not exercised.",
         [X + "type.hpp", X + "cvt.hpp", X + "utility.hpp", G + "type.hpp", "dpm/flags.hpp"], [("aligned fast path, cast_copy and masked tail", X + "type.hpp"), ("conversion table", X + "cvt.hpp")], [TAIL],
         ["memory around the range", "protection of adjacent pages"])
    prop("C07", "Masked loads and stores leave unselected elements and memory alone",
         "copy_from and copy_to with a mask, for simd and simd_mask, transfer (with scalar conversion) exactly the elements selected by the mask; unselected elements of the destination keep their value. Memory of unselected elements is neither written nor, for elements lying in inaccessible memory, touched. The constructor taking a mask loads the selected elements under the same rule.",
         ["inputs", "configurations"], "masks: all patterns up to 8 lanes, structured patterns above; memory types, tags, positions against inaccessible pages; " + SIMD,
         "No stable test uses a masked transfer.",
         [X + "type.hpp", X + "utility.hpp", G + "type.hpp"], [("maskload/maskstore with emulation", X + "utility.hpp"), ("masked copy loops", X + "type.hpp")], [TAIL], ["memory around the range", "protection of adjacent pages"])
    prop("C14", "min, max, minmax and clamp choose like their std counterparts in every lane",
         "min(a,b) and max(a,b) equal std::min and std::max of each lane's elements (also for NaN and signed zeros), minmax(a,b) equals {min, max}, and clamp(v,lo,hi) with lo<=hi equals std::clamp, for vector and scalar second operands. For equal or unordered elements the maximum of minmax may be either operand that std::minmax or std::max would choose.",
         ["inputs", "configurations"], "all pairs (triples for clamp) of alphabet values in every lane; " + SIMD,
         "No stable test calls them on integers, NaN or signed zeros.",
         [X + "minmax.hpp", X + "type.hpp", G + "type.hpp"], [("native min/max with operand order", X + "minmax.hpp"), ("emulation of missing integer min/max", X + "minmax.hpp")], [TAIL])
    prop("C13", "Reductions combine every element of a vector exactly once",
         "reduce (with plus, multiplies, bit_and, bit_or, bit_xor or any associative and commutative callable), reduce_min, reduce_max, hadd, hmul, hand, hor and hxor return what folding the vector's size() elements with that operation returns, whatever the lanes past size() hold. Stated for operands whose result does not depend on the order of combination and without signed overflow; NaN and the sign of zero are left open for minima and maxima.",
         ["inputs", "configurations"], "vectors over per-operation value sets: all of them for few lanes, every lane and pair of lanes against backgrounds, all-different vectors; 4 fillings of unused lanes; " + SIMD,
         "No stable test calls a reduction of values; a lane dropped or counted twice only shows for particular lane counts and instruction sets.",
         [X + "type.hpp", X + "addsub.hpp", X + "muldiv.hpp", X + "minmax.hpp", X + "bitwise.hpp", G + "type.hpp"], [("native horizontal operations with masking of the last vector", X + "type.hpp"), ("recursive halving", G + "type.hpp")], [TAIL])
    prop("C08", "Construction and element access store and return each element unchanged",
         "Broadcasting (from any arithmetic type, with the scalar conversion), generating (the generator is asked once per index, given as an integral constant), assigning through v[i], copying and native access give vectors and masks whose element i is the value put there, and no other element changes. to_native_data exposes element i as the i-th element of native_data_size_v contiguous native_data_type_t vectors, and a vector built from these native vectors equals the original.",
         ["inputs", "configurations"], "every alphabet value in every lane, with 4 fillings of unused lanes; " + SIMD,
         "The stable tests build vectors from arrays only; they never write single lanes, generate, or rebuild from native data.",
         [X + "type.hpp", G + "type.hpp"], [("storage_type array of native vectors and value_alias access", X + "type.hpp")], [TAIL])
    prop("C09", "Casts and conversions convert every element like the scalar conversion",
         "simd_cast, static_simd_cast, converting construction between simd types of equal size, to_fixed_size, to_native and to_compatible give in each lane the scalar conversion of the source element to the target element type, and mask conversions keep every element, whatever the two ABIs. Values whose scalar conversion would be undefined are excluded.",
         ["inputs", "configurations"], "every pair of element types and of source and target ABI of equal size, alphabet values rotated through all lanes, mask patterns; " + SIMD,
         "No stable test converts between element types or ABIs.",
         [G + "type.hpp", X + "type.hpp", X + "cvt.hpp"], [("copy_cast and conversion operators through buffers", G + "type.hpp"), ("conversion operators", X + "type.hpp")], [TAIL])
    prop("C10", "Constant evaluation gives the values that run time gives",
         "For vectors and masks of every ABI, construction, generation, element access, all operators, casts, copies (masked too), shuffles, blends, min/max/clamp, shifts by a constant, reductions, mask reductions, the classification, comparison and rounding functions, the fused operations, and the power, exponential, logarithm, trigonometric, hyperbolic, error, gamma and exponent-manipulation functions can be evaluated in a constant expression wherever the same scalar expression can (with the standard library at hand) and give there, in each lane, the scalar result; the same operation at run time gives the same (within the accuracy stated for it). "
         "Excepted are, for vectors with native storage, assignment to an element and, without SSSE3, shuffles of 8- and 16-bit elements. Vectors and masks of every ABI can be constant-initialised by broadcast and by generator, and then hold at run time the elements these name.",
         ["inputs", "configurations"], "operations x element types x {scalar, packed of 1, 3, 8, four native vectors and arrays of them} x 144 (196) operand vectors evaluated by the compiler and again at run time; constant-initialised vectors of every ABI with every value and 12 generators, masks with 16 generators",
         "No test evaluates anything at compile time.",
         [G + "type.hpp", G + "math.hpp", X + "type.hpp", X + "utility.hpp", X + "fmanip.hpp", X + "mbase.hpp", X + "trig.hpp"], [("constexpr element-wise loops", G + "type.hpp, " + G + "math.hpp"), ("branches under std::is_constant_evaluated", X + "*.hpp"), ("constant initialisation of native vectors", X + "type.hpp, " + X + "utility.hpp")])
    prop("C11", "shuffle<Is...> puts element Is[k] of the operand into lane k",
         "For simd and simd_mask, ext::shuffle<Is...>(x) returns a vector of sizeof...(Is) elements whose element k equals x[Is[k]], for every list of valid indices, including results longer or shorter than the operand and indices across its native vectors.",
         ["inputs", "configurations"], "all index tuples for small sizes, structured and scrambled families for larger ones, source and result sizes on both sides of native vector sizes; " + SIMD,
         "The repository's shuffle test uses two index lists per type and only runs on SSE2; which instruction sequence is chosen depends on the index list.",
         [X + "transform.hpp", X + "type.hpp", G + "type.hpp", "dpm/utility.hpp"], [("selection of the instruction sequence by index pattern", X + "transform.hpp"), ("index sequence utilities", "dpm/utility.hpp")], [TAIL])
    prop("C12", "blend(m, a, b) selects element i of a where m[i] is true, else of b",
         "For simd, simd_mask and plain bool masks, each element of blend(m, a, b) is the element of a where the mask element is true and of b elsewhere, bit for bit. A mask element written through its native data counts as true when any of its bits is set.",
         ["inputs", "configurations"], "all mask patterns up to 8 lanes (structured above), pairs of element values, native mask elements with different non-zero bit patterns; " + SIMD,
         "The repository's blend test does not compile; no stable test blends.",
         [X + "type.hpp", X + "transform.hpp", X + "cmp.hpp", G + "type.hpp"], [("blendv with normalised mask", X + "type.hpp"), ("mask_eq", X + "cmp.hpp")], [TAIL])
    prop("C15", "Rounding gives the correctly rounded integral value in every lane",
         "ceil, floor, trunc and round give in each lane the value of the std function of that name for every floating-point element (fractions, halfway cases and their neighbours, elements beyond every integer range, infinities, NaN, the sign of zero), rint and nearbyint follow the current rounding mode, and lround, llround, lrint, llrint, ltrunc, lltrunc, iround<I>, irint<I>, itrunc<I> give that value as an integer wherever it fits the result type.",
         ["inputs", "configurations"], "every combination of sign and exponent with a declared set of significands plus all halfway neighbourhoods, in every lane and in all four rounding modes; thorough: denser significands; " + SIMD,
         "No stable test rounds; the sequences used without SSE4.1 depend on magnitude and on the rounding mode.",
         [X + "round.hpp", X + "cvt.hpp", G + "math.hpp"], [("SSE4.1 roundps/roundpd and SSE2 emulation", X + "round.hpp"), ("conversion to integers", X + "cvt.hpp")], [TAIL])
    prop("C16", "Classification and quiet comparisons give the std verdict in every lane",
         "fpclassify, isnan, isinf, isfinite, isnormal and signbit classify every floating-point element as the std function of that name does; isgreater, isgreaterequal, isless, islessequal, islessgreater and isunordered give the std verdict for every pair of elements and raise no floating-point exception for quiet NaN. Integer and mixed operands are first converted to double (long double next to a long double operand). The masks returned are ordinary masks: reductions and further mask operations see the same elements.",
         ["inputs", "configurations"], "every sign x exponent x declared significand, all pairs of alphabet values, in every lane; every element type for the promoting overloads; " + SIMD,
         "No stable test classifies or compares NaN, denormal or infinite elements.",
         [X + "class.hpp", X + "cmp.hpp", X + "mbase.hpp", G + "math.hpp"], [("bit tests and ordered comparisons", X + "class.hpp")], [TAIL])
    prop("C17", "Exponent and significand functions match the C library bit for bit",
         "frexp and modf (both parts, by pointer and by reference), ilogb, logb, ldexp, scalbn, scalbln (vector and scalar exponents of any size), copysign, nextafter and nexttoward give in each lane exactly what the std function gives: denormal, zero, infinite and NaN elements, exponents that saturate and results that round to denormals included. Integer and mixed operands are first converted to double. frexp exponents of infinite or NaN elements are left open.",
         ["inputs", "configurations"], "every sign x exponent x declared significand for unary functions, all pairs of alphabet values, every exponent of x against every exponent change that crosses a boundary; " + SIMD,
         "The repository's fp-manipulation test uses a few ordinary values and exponents; denormals, saturation and per-lane exponents are not sampled.",
         [X + "fmanip.hpp", X + "frexp.cpp", X + "modf.cpp", X + "logb.cpp", X + "nextafter.cpp", X + "scalbn.cpp", G + "math.hpp"], [("bit manipulation of the representation", X + "fmanip.hpp and the .cpp files next to it")], [TAIL])
    prop("C18", "Basic numeric functions give the std result in every lane",
         "abs and fabs, fmax and fmin (a NaN operand is ignored, either zero may be returned), fdim, fmod, remainder and remquo (pointer and reference; the quotient has the right sign and three lowest bits) give in each lane exactly what the std function gives for floating-point elements, also with one scalar operand; abs of signed integers likewise (the minimum of int and wider types excluded); ext::nan gives std::nan of the string. "
         "fma, ext::fmadd, fmsub, fnmadd and fnmsub give +-(a*b)+-c rounded once, or rounded after the multiplication and after the addition; lerp is within a few roundings of a+f*(b-a). Integer and mixed operands are first converted to double (or long double); three operands of one integer type of the fused functions stay in that type.",
         ["inputs", "configurations"], "all pairs of alphabet values and their neighbours, small quotients around halfway cases, triples with cancellation; " + SIMD,
         "No stable test calls these functions at all; signs of zeros, NaN operands and cancellation need particular operands.",
         [X + "mbase.hpp", X + "muldiv.hpp", X + "minmax.hpp", X + "math.hpp", G + "math.hpp"], [("native multiply-add, minimum and maximum", X + "mbase.hpp, muldiv.hpp"), ("element-wise calls", G + "math.hpp")], [TAIL])
    ACC = " Special operands (NaN, infinities, zeros, poles, overflow) give the special result of the std function, sign included."
    AOVER = "every sign x exponent x declared significand plus neighbourhoods of the points where the algorithms change branch, in every lane position of vectors of mixed operands; thorough: every one of the 2^32 floats; " + SIMD
    AWHY = "The stable tests evaluate a handful of arguments with a loose tolerance; lanes taking different branches, denormals, signed zeros, poles and huge arguments are not sampled."
    prop("C19", "Powers and roots are accurate for every operand in every lane",
         "Each lane of sqrt is the correctly rounded root; cbrt is within 4 units in the last place, hypot and pow within 1, ext::rcp and ext::rsqrt of double within 2; ext::rcp and ext::rsqrt of float have a relative error of at most 1.5*2^-12 where argument and result are normal. No intermediate overflow or underflow spoils a representable result." + ACC,
         ["inputs", "configurations"], AOVER, AWHY,
         [X + "pow.hpp", X + "hypot.cpp", X + "mbase.hpp", G + "math.hpp"], [("scaling by exponent in hypot", X + "hypot.cpp"), ("native square root and reciprocal estimates", X + "pow.hpp")], [TAIL])
    prop("C20", "Trigonometric functions are accurate for every argument in every lane",
         "Each lane of sin, cos, and both results of sincos is within 4 units in the last place of the exact value or off by at most 1e-10 (float) or 1e-24 (double); tan is within 5 (float) or 24 (double) units or off by what such an error of the argument makes; asin and acos are within 4 (float) or 2 units, atan and atan2 within 2. This holds for arguments of any magnitude." + ACC,
         ["inputs", "configurations"], AOVER, AWHY,
         [X + "trig.hpp", X + "sincos.cpp", X + "tan.cpp", X + "asincos.cpp", X + "atan.cpp", "dpm/detail/fconst.cpp", G + "math.hpp"], [("argument reduction with scalar fallback for huge arguments", X + "sincos.cpp, tan.cpp"), ("polynomial per octant selected by masks", X + "sincos.cpp")], [TAIL])
    prop("C21", "Logarithms are accurate for every argument in every lane",
         "Each lane of log, log2, log10 and log1p is within 4 units in the last place of the exact value, or within 64 (float) or 512 (double; log2: any) units and off by at most 4 units of the last place of 1, denormal arguments included. Negative arguments (below -1 for log1p) give NaN, zero (-1 for log1p) negative infinity." + ACC,
         ["inputs", "configurations"], AOVER, AWHY,
         [X + "exp.hpp", X + "log.cpp", X + "log2.cpp", X + "log10.cpp", X + "log1p.cpp", "dpm/detail/fconst.cpp", G + "math.hpp"], [("normalisation of denormals and table lookup", X + "log.cpp and the .cpp files next to it")], [TAIL])
    prop("C22", "Exponential, hyperbolic, error and gamma functions are accurate in every lane",
         "Each lane of exp, exp2 and expm1 is within 2 units in the last place of the exact value, of sinh, cosh, tanh, asinh, acosh and atanh within 4, of erf within 2, erfc within 4, tgamma within 8 and lgamma within 6." + ACC,
         ["inputs", "configurations"], AOVER, AWHY,
         [X + "exp.hpp", X + "hypbl.hpp", X + "errfn.hpp", G + "math.hpp"], [("element-wise evaluation", X + "mbase.hpp"), ("generic loops", G + "math.hpp")], [TAIL])
    prop("C23", "Math functions of integers and mixed types convert their operands to double",
         "Called with an integer vector, or with operands of different arithmetic types, every function of the power, exponential, logarithm, trigonometric, hyperbolic, error, gamma, exponent-manipulation and classification families first converts the operands with the scalar conversion to double and returns, in each lane of a vector of as many elements with the same ABI, what the function of double returns (within the accuracy stated for it).",
         ["inputs", "configurations"], "every element type next to its own type, int8, uint64, float and double; all pairs of alphabet values; " + SIMD,
         "No stable test calls a mathematical function on integers or on mixed types; most of these overloads are never instantiated.",
         [G + "math.hpp"], [("promoting overloads", G + "math.hpp")], [TAIL])
    prop("C24", "Results stay as documented under every combination of build options",
         "Built with DPM_HANDLE_ERRORS only, every function of the power, exponential, logarithm, trigonometric and exponent-manipulation families still gives the std special results; with DPM_PROPAGATE_NAN only, finite operands inside the domain give accurate results and NaN operands give NaN (FP_ILOGBNAN from ilogb); with neither, finite operands inside the domain whose result is finite still give accurate results. "
         "Without DPM_INLINE_EXTENSIONS every operation gives the same results, the extensions being reached through dpm::ext and dpm::simd_abi::ext.",
         ["inputs", "configurations"], "the operand sets of C17 and C19-C22 under three combinations of options, those of all other properties (one element type) without inline extensions; SSE2 and AVX2+FMA",
         "All stable tests are built with all three options on; code guarded by #ifdef or #ifndef of an option is never compiled otherwise.",
         [X + "exp.hpp", X + "trig.hpp", X + "log.cpp", X + "sincos.cpp", X + "atan.cpp", X + "hypot.cpp", "dpm/detail/alias.hpp"], [("#ifdef DPM_HANDLE_ERRORS / DPM_PROPAGATE_NAN sections", X + "*.cpp"), ("DPM_DECLARE_EXT_NAMESPACE", "dpm/detail/alias.hpp")], [TAIL])
    prop("C25", "Types, ABI deduction and traits describe the vectors that exist",
         "For every element type, size 1 to 40 and alignment, simd and simd_mask have exactly the requested number of elements, element and ABI types, at least the requested alignment, trivially copyable storage of at least size()*sizeof(T) bytes inside the object and reachable through to_native_data with matching size and type; is_simd, is_simd_mask, is_abi_tag, simd_size and memory_alignment agree with them; "
         "deduce gives a tag of exactly the requested size (scalar for one element, an acceptable hint where one is given), rebind_simd and resize_simd give vectors of the requested element type or size, and ext::common gives the widest and most aligned of its tags.",
         ["inputs", "configurations"], "element types x sizes 1..40 x alignments default, 16, 32, 64, packed; " + SIMD,
         "The stable tests name four ABI tags; deduction, rebinding and over-aligned tags are never checked.",
         ["dpm/traits.hpp", G + "abi.hpp", X + "abi.hpp", G + "type.hpp", X + "type.hpp"], [("deduce, common, rebind and resize", G + "abi.hpp"), ("choice of native vector and array length", X + "abi.hpp")])
    prop("C26", "cpuid reports a feature exactly when processor and system provide it",
         "ext::cpuid::is_intel and is_amd recognise exactly the vendor strings GenuineIntel and AuthenticAMD. The has_ functions return the feature bit of the processor, false when its CPUID leaf does not exist (leaf 7: sub-leaf 0). SSE to SSE4.2 also need XCR0 bit 1; AVX, AVX2, FMA and F16C need bits 1 and 2; AVX-512 needs bits 1, 2, 5, 6 and 7. Where the system has not set OSXSAVE, XGETBV is never executed, the SSE family also needs to be listed in /proc/cpuinfo (Linux), and no AVX feature is reported.",
         ["inputs", "configurations"], "simulated processors: each feature bit alone and each missing, 25 XCR0 states, OSXSAVE on and off, 12 lists of extensions, 12 highest leaves, 10 vendor strings",
         "Tests run on one processor under one operating system; what start-up code does on others is never executed.",
         [X + "cpuid.cpp", X + "cpuid.hpp"], [("feature words masked by the XCR0 state", X + "cpuid.cpp")], observe=["dpm::ext::cpuid static functions"])
    prop("C27", "With DPM_USE_SVML each function gives the result of the SVML routine of its name",
         "Built with DPM_USE_SVML, exp, exp2, expm1, log, log2, log10, log1p, sin, cos, tan, asin, acos, atan, sinh, cosh, tanh, asinh, acosh, atanh, erf, erfc, cbrt, logb, pow and atan2 of vectors with an SSE or AVX implementation, ext::sincos and pow with a scalar exponent give in every lane the result of the SVML routine of that name for that lane's operands, whatever the lanes past size() hold. "
         "ceil, floor, trunc and round stay exact, and all functions without an SVML routine give the results they give without the option.",
         ["inputs", "configurations"], "every forwarded function x vector type x lane x operands of the alphabet, SSE2 to AVX2; SVML itself replaced by lane-wise stand-ins with the documented signatures",
         "The option is never switched on by a test, and the compiler has no SVML.",
         [X + "exp.hpp", X + "trig.hpp", X + "hypbl.hpp", X + "errfn.hpp", X + "pow.hpp", X + "fmanip.hpp", X + "round.hpp", X + "math.hpp"], [("one overload per routine and register, picked per chunk of the vector", X + "exp.hpp, trig.hpp, hypbl.hpp, errfn.hpp, pow.hpp")],
         observe=["return values through the public interface"])
