from vf.base import *  # noqa

UB = "address,undefined"
EMU = ["-DMUU_HAS_FLOAT16=0", "-DMUU_HAS_FP16=0"]


def half_jobs(pid):
    return [Job("native_" + pid, "h/n_half.cpp", opt="-O2", shards=8, args=[pid]),
            Job("naive_" + pid, "h/n_half.cpp", opt="-O2", std="c++17", shards=8, args=[pid], flags=EMU, arch=False),
            Job("f16c_" + pid, "h/n_half.cpp", opt="-O2", shards=8, args=[pid], flags=EMU + ["-DNO_CT"]),
            Job("san_" + pid, "h/n_half.cpp", opt="-O1", shards=8, args=[pid], flags=EMU + ["-DSAN", "-DNO_CT"], san=UB,
                arch=False),
            Job("native17_" + pid, "h/n_half.cpp", opt="-O3", std="c++17", shards=8, args=[pid], flags=["-DNO_CT"],
                thorough_only=True)]


prop("N01", "half converts to and from every arithmetic type exactly or to nearest",
     "Every one of the 65536 muu::half values converts to float, double, long double, float128, bool and integers "
     "exactly, and every float converts to the nearest half (ties to even) with overflow to infinity, gradual underflow, "
     "signed zeros and NaN preserved; wider floats and every integer type convert likewise. The same holds at compile "
     "time, for literals, streams and numeric_limits, and whichever implementation (native, F16C or emulated) is used.",
     ["inputs", "configurations"],
     "all 2^16 halves, all 2^32 floats, all (sign, exponent, boundary significand) wider floats, integers around every "
     "representability boundary, in each of the three implementations",
     "rounding, subnormal and overflow boundaries are individual values out of 2^32; the tests sample a few dozen and "
     "build only the native implementation",
     ["include/muu/half.h", "include/muu/impl/core_constants.h"],
     [("conversion", "include/muu/half.h f32_to_u16/u16_to_f32"), ("limits", "include/muu/half.h std::numeric_limits")],
     half_jobs("N01"), "complete enumeration of the 16- and 32-bit domains against an integer-arithmetic reference",
     assumptions=["double to half in the emulated implementations goes through float; only single rounding is claimed "
                  "for the native one"])
prop("N02", "half operators and functions are correctly rounded and consistent",
     "For all operand pairs, the arithmetic and comparison operators of muu::half (and their compound, mixed-type and "
     "increment forms) give the correctly rounded or exact result of the real operation on the operands' values, with "
     "IEEE behaviour for NaN, infinity and signed zero. Unary and binary functions (abs, floor, ceil, sqrt, lerp, trig, "
     "approx_equal, infinity_or_nan) agree with the float function rounded to half, in every implementation.",
     ["inputs", "configurations"],
     "all 2^16 values for unary functions, all values x 1034 boundary values (and dense subranges) for binary ones",
     "carry, tie and subnormal cases arise for a tiny fraction of the 2^32 operand pairs",
     ["include/muu/half.h", "include/muu/math.h"], [("operators", "include/muu/half.h"), ("functions", "include/muu/half.h")],
     half_jobs("N02"), "bounded exhaustive against float/double arithmetic rounded by the reference")
prop("N08", "named constants and limits have the values their names say",
     "Every named constant in muu::constants<T>, for half, float, double, long double, _Float16 and float128, is the "
     "representable value nearest to the mathematical value of its name, and the special values (highest, lowest, "
     "infinities, NaNs, negative zero), digit counts and numeric_limits<half> members are exactly those of the type. "
     "Integer limits and character constants likewise have the value their name says, for every integer and character type.",
     ["inputs", "configurations"],
     "every constant of every arithmetic and character type (native and emulated half, C++17 and C++20)",
     "the tests use only a handful of the roughly 900 constants, and none for its accuracy",
     ["include/muu/impl/core_constants.h", "include/muu/half.h"], [("tables", "include/muu/impl/core_constants.h")],
     [Job("const", "h/n_const.cpp", opt="-O1", shards=1, san="undefined"),
      Job("const17", "h/n_const.cpp", opt="-O2", std="c++17", shards=1),
      Job("constemu", "h/n_const.cpp", opt="-O1", shards=1, flags=EMU, arch=False)],
     "complete enumeration against 50-digit reference values (mpmath)")
prop("N03", "bit and byte utilities match their bit-string definitions",
     "For every value of every unsigned integer, character and enum type, countl/countr_zero/one, popcount, "
     "has_single_bit, bit_width, bit_floor, bit_ceil, byte_reverse, byte_select and swizzle return what the value's bit "
     "string or bytes say; bit_fill_left/right do so for every count and bit_pack for every combination of operand "
     "types. Compile-time and run-time evaluation agree and no call has undefined behaviour (bit_ceil results that are "
     "not representable excluded).",
     ["inputs", "configurations"],
     "all 8-, 16- and 32-bit values, 64/128-bit values with up to three set bits, runs of ones and their combinations and "
     "complements, all counts 0-300, operand type pairs and triples with boundary values",
     "zero, full-width and single-byte edge cases of each width are individual values; the tests sample a few per width",
     ["include/muu/bit.h", "include/muu/bit_pack.h", "include/muu/countl.h", "include/muu/countr.h", "include/muu/popcount.h",
      "include/muu/byte_reverse.h", "include/muu/bit_ceil.h", "include/muu/bit_floor.h", "include/muu/bit_fill.h"],
     [("counting", "include/muu/countl.h, countr.h, popcount.h"), ("packing", "include/muu/bit_pack.h")],
     [Job("bits", "h/n_bits.cpp", opt="-O2", shards=8),
      Job("bitssan", "h/n_bits.cpp", opt="-O1", std="c++17", shards=8, flags=["-DSAN"], san=UB, arch=False)],
     "complete enumeration of the 8/16/32-bit domains against table-driven references",
     assumptions=["bit_ceil of values above the largest representable power of two is outside its contract, as for "
                  "std::bit_ceil"])
prop("N05", "min, max, clamp, between and pointer helpers match their standard meaning",
     "min, max (any number of arguments) and clamp return a reference to the argument std::min, std::max and std::clamp "
     "would. between(val, low, high) is the mathematical low <= val <= high for every mix of signed, unsigned, 128-bit, "
     "enum and floating-point types, and unwrap, apply_offset and to_address give the underlying value and exact address, "
     "at compile time and at run time.",
     ["inputs"],
     "between: all 8-bit triples of every signedness mix and boundary triples of all 144 type pairs; min/max: all "
     "argument lists of 2-9 values with ties; all byte offsets -300..300 in each integer type",
     "mixed-sign comparisons and ties are corner cases of a product space; the tests sample same-sign values",
     ["include/muu/impl/core_utils.h"], [("mixed-sign comparison", "include/muu/impl/core_utils.h between"),
                                         ("ties", "include/muu/impl/core_utils.h min/max")],
     [Job("utils", "h/n_utils.cpp", opt="-O1", shards=8, san="undefined"),
      Job("utils17", "h/n_utils.cpp", opt="-O2", std="c++17", shards=8)],
     "bounded exhaustive against exact wide-integer comparison and std::")
prop("N06", "accumulator reports the exact count, min, max and compensated sum",
     "After any sequence of adding samples, ranges and other accumulators (including itself), an accumulator's "
     "sample_count, empty, min and max are those of the multiset of samples; the sum of integers is exact and the sum of "
     "floating-point samples is within the error bound of compensated summation. It works in constant expressions and "
     "with user types.",
     ["histories"],
     "all sequences of 17 operations on two accumulators to depth 5 (6) over five sample values chosen to cancel "
     "catastrophically, for twelve arithmetic types; runs of 1-2000 samples lost by plain summation",
     "merging and cancellation errors depend on the order of operations; the tests only add samples one by one",
     ["include/muu/accumulator.h"], [("merge", "include/muu/accumulator.h add(const accumulator&)"),
                                     ("compensation", "include/muu/accumulator.h kahan_add")],
     [Job("acc", "h/n_acc.cpp", opt="-O1", shards=8, san="undefined"),
      Job("acc17", "h/n_acc.cpp", opt="-O2", std="c++17", shards=8),
      Job("accfast", "h/n_acc.cpp", opt="-O2", shards=8, flags=["-ffast-math"])],
     "all histories to the bound against an exact wide sum")

QM = ["-lquadmath"]
CT = ["-fconstexpr-ops-limit=2000000000", "-fconstexpr-loop-limit=10000000"]
FAST = ["-ffast-math", "-DNO_CT"]
prop("N04", "scalar maths functions agree with the exact functions at run and compile time",
     "sin, cos, tan, asin, acos, atan, atan2, sqrt, floor, ceil, abs, lerp, smooth-step, degree/radian conversion and angle "
     "normalisation of every arithmetic type agree with the exact function to a few units in the last place, whether "
     "evaluated at run time or in constant expressions; normalised angles lie in the documented half-open range. "
     "approx_equal, approx_zero and infinity_or_nan classify every value by its definition, also under -ffast-math.",
     ["inputs", "configurations"],
     "argument grids of 515 points per function (multiples of pi/64, every exponent, both neighbours of branch points) "
     "for half, float, double, long double, _Float16 and float128, at run time and as compile-time tables; all exponent x "
     "boundary-significand bit patterns for infinity_or_nan",
     "the constexpr implementations (series, Newton iterations) are separate code which run-time tests never reach and "
     "which fails only for particular magnitudes",
     ["include/muu/math.h"], [("constexpr series", "include/muu/math.h"), ("bit classification", "include/muu/math.h infinity_or_nan")],
     [Job("math", "h/n_math.cpp", opt="-O1", shards=8, flags=CT, link=QM),
      Job("math17", "h/n_math.cpp", opt="-O0", std="c++17", shards=8, flags=CT, link=QM, thorough_only=True),
      Job("mathsan", "h/n_math.cpp", opt="-O1", shards=8, san="undefined", flags=["-DNO_CT"], link=QM),
      Job("fast2", "h/n_math.cpp", opt="-O2", shards=8, args=["infnan"], flags=FAST, link=QM),
      Job("fast3", "h/n_math.cpp", opt="-O3", std="c++17", shards=8, args=["infnan"], flags=FAST, link=QM)],
     "bounded exhaustive against quad-precision references",
     assumptions=["compile-time atan2(0, 0), atan2 of negative zeros or infinities at compile time and the sign of a zero "
                  "from constexpr ceil are not claimed"])
prop("N07", "packed_unit_vector stores unit vectors within its quantisation error, stably",
     "Packing a unit vector and unpacking it gives each component within the quantisation step of the storage, keeps the "
     "sign of every non-zero component, and is exact for the axes. However often a vector is "
     "unpacked and packed again it stays within that error, and the named constants are the directions their names say, "
     "for every storage width and 2 or 3 dimensions, at compile time and at run time.",
     ["inputs"],
     "all integer directions with coordinates up to 16 (thorough 48; in 2D 150, 600) and directions with components "
     "down to 2^-40, every code of 8- and 16-bit storage, all axes and constants, all eight storage types with float, double and long double",
     "ties and overflow of the packed coordinates occur only on particular directions and widths; the tests check a few",
     ["include/muu/packed_unit_vector.h"], [("pack/unpack", "include/muu/packed_unit_vector.h")],
     [Job("puv", "h/n_puv.cpp", opt="-O2", shards=8, lib=["vector_types_common.cpp"]),
      Job("puvsan", "h/n_puv.cpp", opt="-O1", std="c++17", shards=8, san=UB,
          lib=["vector_types_common.cpp"])],
     "bounded exhaustive round trips")
