CONFIGS = {
    "sse2": {"flags": ["-msse2"], "need": ["sse2"]},
    "sse3": {"flags": ["-msse3"], "need": ["pni"]},
    "ssse3": {"flags": ["-mssse3"], "need": ["ssse3"]},
    "sse4.2": {"flags": ["-msse4.2"], "need": ["sse4_2"]},
    "sse4.1": {"flags": ["-msse4.1"], "need": ["sse4_1"]},
    "avx": {"flags": ["-mavx"], "need": ["avx"]},
    "avx2-fma": {"flags": ["-mavx2", "-mfma"], "need": ["avx2", "fma"]},
    "avx-fma": {"flags": ["-mavx", "-mfma"], "need": ["avx", "fma"]},
    "avx2": {"flags": ["-mavx2"], "need": ["avx2"]},
    "avx512": {"flags": ["-mavx512f", "-mavx512bw", "-mavx512dq", "-mavx512vl", "-mavx512cd", "-mfma"], "need": ["avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd", "fma"]},
    "sse2-clang": {"flags": ["-msse2"], "need": ["sse2"], "cxx": "clang++"},
    "avx2-fma-clang": {"flags": ["-mavx2", "-mfma"], "need": ["avx2", "fma"], "cxx": "clang++"},
    "sse2-debug": {"flags": ["-msse2"], "ndebug": [], "libopt": ["-O0"], "need": ["sse2"]},
    "sse2-sim": {"flags": ["-msse2"], "need": ["sse2"], "sim": True},
    "avx2-sim": {"flags": ["-mavx2", "-mfma"], "need": ["avx2", "fma"], "sim": True},
    "debug-sim": {"flags": ["-msse2"], "ndebug": [], "libopt": ["-O0"], "need": ["sse2"], "sim": True},
}
OPTIONS = {"he": ["-DDPM_HANDLE_ERRORS", "-DDPM_INLINE_EXTENSIONS"], "nan": ["-DDPM_PROPAGATE_NAN", "-DDPM_INLINE_EXTENSIONS"], "none": ["-DDPM_INLINE_EXTENSIONS"], "noext": ["-DDPM_HANDLE_ERRORS", "-DDPM_PROPAGATE_NAN"]}
for _c in ("sse2", "avx2-fma"):
    for _o, _d in OPTIONS.items():
        CONFIGS[_c + "-" + _o] = dict(CONFIGS[_c], defs=_d)
for _c in ("sse2", "sse4.2", "avx", "avx2-fma"):
    for _o, _d in {"svml": [], "svmltag": ["-DMC_SVML_TAG"]}.items():   # stand-ins of the SVML routines: std functions / uninterpreted functions
        CONFIGS[_c + "-" + _o] = dict(CONFIGS[_c], defs=["-DDPM_HANDLE_ERRORS", "-DDPM_INLINE_EXTENSIONS", "-DDPM_PROPAGATE_NAN", "-DDPM_USE_SVML", "-include", "svml.hpp"] + _d)
ISA = ["sse2", "sse4.2", "avx", "avx2-fma"]
EXTRA = ["sse3", "ssse3", "sse4.1", "avx-fma", "avx2", "avx512", "sse2-clang", "avx2-fma-clang"]    # added to ISA in the thorough tier
WIDE = ISA + ["ssse3", "avx512"]                                    # quick tier, where the code has branches of its own for them
ALL_T = {"f32": "float", "f64": "double", "i8": "std::int8_t", "u8": "std::uint8_t", "i16": "std::int16_t", "u16": "std::uint16_t",
         "i32": "std::int32_t", "u32": "std::uint32_t", "i64": "std::int64_t", "u64": "std::uint64_t"}
INT_T = [t for t in ALL_T if t[0] != "f"]
FP_T = ["f32", "f64"]


def d(types, parts=(None,), extra=()):
    r = []
    for t in types:
        for p in parts:
            r.append(["-DMC_T=" + (ALL_T.get(t) or t), "-DMC_FP=%d" % (t in FP_T or t == "long double")] + (["-DMC_PART=%s" % p] if p is not None else []) + list(extra))
    return r


PLANS = {}
TRUST = ["the compiler and CPU execute the drivers' scalar reference correctly", "values outside the printed alphabets and instruction sets outside the listed configurations are not covered"]


def plan(pid, jobs, rule="todo", note=None, assumptions=(), technique=None):
    PLANS[pid] = {"level": "model_checking", "rule": rule, "jobs": jobs, "assumptions": list(assumptions) + TRUST,
                  "note": note or "Exhaustive within the stated alphabets, lane counts and instruction sets, executed on the compiled library itself; trusts the compiler, the CPU and the scalar reference."}
    if technique:
        PLANS[pid]["technique"] = technique


def job(driver, types, parts=(None,), cfgs=ISA, extra=(), **kw):
    return dict(driver=driver, cfgs=cfgs, defs=d(types, parts, extra), **kw)


ROT = "every tuple of alphabet values is placed in every lane of every listed vector type (vector k holds tuples k, k+1, ...; storage pre-filled with 4 different byte patterns); "
plan("C01", [job("ops", ALL_T, (0,), cfgs_quick=WIDE)], ROT + "non-trivial = the expected element is not all-zero bits")
plan("C02", [job("ops", INT_T, (1,), cfgs_quick=WIDE)], ROT + "shift counts 0..bits-1 with every value; non-trivial = expected element not zero")
plan("C03", [job("ops", ALL_T, (2,), cfgs_quick=WIDE)], ROT + "all ordered pairs; non-trivial = the expected verdict is true")
plan("C06", [job("mem", ALL_T, (0, 1))], "every (element type, memory type, tag, ABI), at positions flush against inaccessible pages and at misaligned offsets, with every alphabet value in every lane; surroundings are painted and inspected; non-trivial = an element was compared")
plan("C07", [job("mem", ALL_T, (2,))], "every mask pattern (all up to 8 lanes, structured above) x memory type x tag x ABI x position flush against inaccessible pages; non-trivial = pattern neither empty nor full")
plan("C14", [job("ops", ALL_T, (3,), cfgs_quick=WIDE)], ROT + "all pairs, all ordered-bound triples for clamp; non-trivial = expected element not zero")
plan("C04", [job("mask", ALL_T, (0,), cfgs_quick=WIDE)], "breadth-first search over mask object states (all bytes, unused lanes included): to a fixpoint for masks of up to 4 elements, to depth 1 (2 in the thorough tier) above, every operation judged in every state; non-trivial = resulting mask neither empty nor full",
     technique="explicit-state breadth-first search of mask objects driven through the real operations, judged against a bool-array model in every state")
plan("C05", [job("mask", ALL_T, (1, 2, 3))], "all reductions evaluated in every mask object state reached by breadth-first search (fixpoint up to 4 elements); non-trivial = mask neither empty nor full",
     technique="explicit-state breadth-first search of mask objects, all reductions judged in every state")
plan("C08", [job("mem", ALL_T, (3,), cfgs_quick=ISA + ["ssse3"])], "every alphabet value broadcast (from every arithmetic type), generated and written into every lane of every vector type, read back from the lane, its neighbours, copies and the native data; non-trivial = a lane was compared")
plan("C09", [job("cast", ALL_T, (0, 1))], ROT + "every (source type, target type, source ABI, target ABI, way of converting); mask patterns exhaustively up to 8 lanes; non-trivial = expected element not zero / mask not empty")
plan("C12", [job("blend", ALL_T)], "mask patterns exhaustively up to 8 lanes (structured above) with three rotations of element values, all ordered pairs of small-alphabet values under both verdicts, native mask elements with 8 different non-zero bit patterns; non-trivial = some elements selected from each operand")
plan("C13", [job("red", ALL_T, (0, 1, 2), cfgs_quick=WIDE)], "for each reduction: all vectors over the value set (few lanes), every single lane and pair of lanes against a background, all-different vectors, with 4 fillings of the unused lanes; non-trivial = expected result is not the identity of the operation")
SHUF_T = ["f32", "f64", "i8", "i16", "u32", "i64"]
CX = dict(cfgs_thorough=ISA + [c for c in EXTRA if "clang" not in c])     # clang's standard mathematical functions are no constant expressions
plan("C10", [job("cexpr", ALL_T, (0, 1), cfgs_quick=["sse2", "avx2-fma"], **CX), job("cexpr", ALL_T, (2,), cfgs_quick=["avx2-fma"], **CX),
             job("cexprm", ALL_T, (0, 1), cfgs_quick=["sse2", "avx2-fma"], **CX)],
     "every operation x 144 operand vectors (pair k in lane 0, following pairs in the other lanes) evaluated by the compiler's constant evaluator and again at run time, both judged against the scalar model; non-trivial = expected element not zero",
     technique="exhaustive evaluation of bounded operand tuples by the compiler's constant evaluator and by the compiled code, both compared with a scalar model",
     note="Exhaustive over the listed operations, types and tuples; GCC's constant evaluator and standard library decide which scalar functions are constant expressions at all.")
plan("C11", [job("shuf", SHUF_T, (0, 1))], "for every (source size, result size) all index tuples when there are at most 260, else 35 structured families and 6 fixed scrambles, each on distinct element values and alphabet rotations (simd) or mask patterns (simd_mask); non-trivial = not a prefix copy")
FM = ["-O1", "-frounding-math"]
plan("C15", [job("round", FP_T, (0, 1), cfgs_quick=WIDE, opt=FM)],
     ROT + "values: alphabet, neighbourhoods of halfway cases of 2^-3..2^65, and every sign x exponent x declared significand packed into the widest vectors; four rounding modes; non-trivial = expected element not zero")
plan("C16", [job("class", FP_T, (0,)), job("class", ALL_T, (1,), cfgs_quick=["sse2", "avx2-fma"])],
     ROT + "every sign x exponent x declared significand packed densely, all pairs of alphabet values; the promoting overloads for every element type against double, float, int8 and uint64; non-trivial = expected verdict true or not 0")
plan("C17", [job("fmanip", FP_T, (0, 1)), job("fmanip", ALL_T, (2,), cfgs_quick=["sse2", "avx2-fma"])],
     ROT + "every sign x exponent x declared significand packed densely; all pairs; exponents -2^63..2^63 against every value; per exponent of x every exponent change crossing a boundary; the promoting overloads for every element type; non-trivial = expected element not zero")
plan("C18", [job("basic", FP_T, (0, 1)), job("basic", ALL_T, (2,), cfgs_quick=["sse2", "avx2-fma"]), job("basic", ["i8", "i16", "i32", "i64"], (3,))],
     ROT + "all pairs and their neighbours, quotients around halfway cases, triples of a small alphabet and cancelling addends; non-trivial = expected element not zero")
ACCURATE = "every operand of the list is placed in every lane among ordinary operands and next to its neighbours in the list; a denser grid (every sign x exponent x declared significand, neighbourhoods of branch points) is packed into the widest vectors; thorough: all 2^32 floats; compared with the C library in a wider type; non-trivial = result not zero"
plan("C19", [job("func", FP_T, (0, 5), cfgs_quick=ISA + ["avx512"], shards_thorough=4)], ACCURATE)
plan("C20", [job("func", FP_T, (1, 6, 8), cfgs_quick=ISA + ["avx512"], shards_thorough=4)], ACCURATE)
plan("C21", [job("func", FP_T, (2,), cfgs_quick=ISA + ["avx512"], shards_thorough=8)], ACCURATE)
plan("C22", [job("func", FP_T, (3, 4, 7), cfgs_quick=ISA + ["avx512"], shards_thorough=4)], ACCURATE)
plan("C23", [job("promo", INT_T, (0, 2)), job("promo", ALL_T, (1,), cfgs_quick=["sse2", "avx2-fma"])],
     "every element type, second operands of the same type, float or double, int8 and uint64; all pairs of alphabet values rotated through all lanes; non-trivial = result not zero")
OPT = [c + "-" + o for c in ("sse2", "avx2-fma") for o in ("he", "nan", "none")]
EXT = [c + "-noext" for c in ("sse2", "avx2-fma")]
plan("C24", [job("func", FP_T, range(9), cfgs=OPT), job("fmanip", FP_T, (0, 1), cfgs=OPT),
             job("ops", ["i16"], (0, 1, 2, 3), cfgs=EXT), job("mem", ["i16"], (0, 1, 2, 3), cfgs=EXT), job("mask", ["i16"], (0, 1, 2, 3), cfgs=EXT), job("cast", ["i16"], (0, 1), cfgs=EXT),
             job("blend", ["i16"], cfgs=EXT), job("red", ["i16"], (0, 1, 2), cfgs=EXT), job("shuf", ["i16"], (0, 1), cfgs=EXT), job("round", ["f32"], (0, 1), cfgs=EXT, opt=FM), job("class", ["f32"], (0, 1), cfgs=EXT),
             job("fmanip", ["f32"], (0, 1, 2), cfgs=EXT), job("basic", ["f32"], (0, 1, 2), cfgs=EXT), job("func", ["f32"], range(9), cfgs=EXT), job("promo", ["f32"], (1,), cfgs=EXT), job("traits", ["f32"], cfgs=EXT)],
     "the drivers of the other properties, compiled against a library built with each combination of options; operands an option leaves undefined are not judged; non-trivial = as in those drivers")
SV, SVT = [[c + "-" + o for c in ISA] for o in ("svml", "svmltag")]
plan("C27", [job("svml", FP_T, cfgs=SVT), job("func", FP_T, range(9), cfgs=["sse2-svml", "avx2-fma-svml"]), job("round", FP_T, (0, 1), cfgs=["sse2-svml", "sse4.2-svml", "avx-svml"], opt=FM),
             job("fmanip", FP_T, (0, 1), cfgs=["sse2-svml", "avx-svml"])],
     ROT + "with stand-ins that return a value unique to the routine and its operands (every routine the library forwards to must have been called with exactly this lane's operands), and the drivers of the other properties with stand-ins that return the std result; non-trivial = expected element not zero")
plan("C25", [job("traits", ALL_T)], "every size 1..40 x alignment {default, 16, 32, packed; 64 for some} x element type: all trait, deduction, rebinding, resizing and storage facts; non-trivial = every fact")
plan("C26", [job("cpuid", ["f32"], cfgs=["sse2-sim", "avx2-sim", "debug-sim"])],
     "every simulated processor: each feature bit alone and each missing (194 register sets, 6 as sold) x XCR0 states x OSXSAVE x operating-system lists x highest leaf; vendors x highest leaf; one process start per processor; non-trivial = processor with leaf 1",
     technique="explicit-state enumeration of simulated processors, the library's real start-up code executed on each with CPUID and XGETBV answered by the model",
     note="Exhaustive over the stated processors; CPUID and XGETBV instructions of the compiled library are replaced by calls to the model, and open/read/close of the list of extensions by stand-ins.",
     )
