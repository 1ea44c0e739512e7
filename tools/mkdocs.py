#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from checks import CHECKS

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))


POSIT, UNP, BIT = "include/posit.h", "include/unpacked.h", "include/bithippop.hpp"
EX = "explicit-state model checking on the real code: exhaustive enumeration of operand states, every transition compared with an exact integer reference model"
ALLCFG = "for every storage type, total bits, exponent bits, exceptional-value flavour and every fraction type at least as wide as the posit"

prop("C01", "Every bit pattern denotes exactly its posit value",
     "For every posit configuration, each bit pattern decodes to the value given by the posit standard (two's complement sign, regime run, exponent, fraction), with zero, NaN and infinity patterns as the chosen flavour defines them. The unpacked value, the sign/regime/exponent/fraction decomposition, the diagnostic field report and the classification predicates (NaN, infinity, zero, one, negative) all agree with that value. The double obtained from a pattern is exact whenever a double can hold it.",
     ["inputs", "configurations"], "every bit pattern, " + ALLCFG,
     "The tests decode a few hand-picked numbers in one or two configurations; a wrong shift for one regime length, one fraction width or one flavour is invisible to them.",
     [POSIT, UNP, BIT], [("decode of sign, regime, exponent and fraction", POSIT + ": PositTrait::decode_posit_rs, unpack_low, unpacked_low2full, analyze, isNaN, isinfinity, isone")], EX,
     "all patterns of all 277 configurations up to 20 bits (24 for the NaN flavour), boundary alphabets (every regime x exponent shapes x fraction shapes) above")
prop("C02", "A posit survives leaving and re-entering the format",
     "Taking any posit to its unpacked form, to its regime/exponent decomposition, or to a float, double or int that holds its value exactly, and building a posit of the same type from the result, gives back the identical pattern. Conversion to float or double truncates towards zero, saturates at the largest finite number, and keeps sign and class (zero, number, infinity, NaN); a value below the smallest denormal becomes zero or the smallest number of that sign.",
     ["inputs", "configurations"], "every bit pattern, " + ALLCFG,
     "The round trips tested are for sampled values; a loss of one bit at one regime length does not show.",
     [POSIT, UNP, "include/floattraits.hpp"], [("pack/unpack and float packing", POSIT + ": pack_low, unpacked_full2low; " + UNP + ": pack_xfloati, unpack_xfloati, pack_xfixed")], EX,
     "all patterns up to 20/24 bits, boundary alphabets above; float, double, float bits, int, unpacked and decomposed paths")
prop("C03", "Converting any float or double to a posit truncates exactly",
     "The posit built from a float, a double or the raw bits of a float is the exact value truncated towards zero to the format; a non-zero magnitude below the smallest posit gives the smallest posit of that sign and one above the largest gives the largest of that sign. Zeros of either sign give zero, infinities give the infinity of the flavour (NaN if it has none), and every NaN encoding, whatever its payload, gives NaN (infinity if the flavour has no NaN).",
     ["inputs", "configurations"], "every float and double including denormals and every NaN payload, " + ALLCFG,
     "The tests convert a dozen constants; saturation, denormals and truncation at each regime boundary are not reached.",
     [POSIT, UNP, "include/floattraits.hpp"], [("float unpacking and posit packing", UNP + ": unpack_xfloati; " + POSIT + ": unpacked_full2low, pack_low, constructors")], EX,
     "all exponents x fraction shapes (about 36 k floats, 10-300 k doubles per configuration), +-2 ulp around posits and midpoints, 2^24 float prefixes x 3 for three formats; thorough: all 2^32 floats")
prop("C04", "Products and quotients are the exact result truncated towards zero",
     "For any two posits of a configuration, their product and their quotient are the exact real result truncated towards zero to the format, saturating at the smallest and largest magnitudes of the format, never turning a non-zero finite result into zero, infinity or NaN.",
     ["inputs", "configurations"], "every ordered pair of posits, " + ALLCFG,
     "The pair space is never enumerated by the tests; an error for one carry pattern or one regime combination passes them.",
     [POSIT, UNP, "include/typehelpers.hpp"], [("multiplication, division and repacking", UNP + ": operator*, operator/; include/typehelpers.hpp: nextintop; " + POSIT + ": operator*, operator/, unpacked_full2low, pack_low")], EX,
     "all pairs up to 10 bits (12 thorough, 16 for some), boundary alphabet pairs above, each alphabet value with value lattices and with relatives of itself (every 16 bit pattern with its relatives), all flavours")
prop("C05", "Sums and differences are exact when they can be, else truncated",
     "The sum or difference of two posits is exact whenever the exact result is a posit of the format, and otherwise the exact result truncated towards zero when the effective signs agree or the aligned operands fit the working fraction (two guard bits); in the remaining cases it is one of the two posits adjacent to the exact result. Addition commutes, x-x is zero, x+0 is x, and results saturate at the largest magnitude.",
     ["inputs", "configurations"], "every ordered pair of posits, " + ALLCFG,
     "Tests add a handful of numbers close in magnitude; cancellation, alignment beyond the fraction width and carries at each regime are not covered.",
     [POSIT, UNP], [("unpacked addition with alignment and normalization", UNP + ": operator+, normalized; " + POSIT + ": operator+, operator-")], EX,
     "all pairs up to 10 bits (12 thorough, 16 for some), boundary alphabet pairs above, value lattices, relatives of every 16 bit pattern (neighbours, negation, inverse, near cancellation), all flavours")
prop("C06", "Exceptional values follow one consistent algebra",
     "NaN in any operand position gives NaN; 0*inf, inf-inf of signed infinities (of opposite effective sign), 0/0 and inf/inf give NaN; x/0 is infinity, x/inf is zero, inf with a finite number stays infinite with the right sign, in the forms the flavour can express (a flavour without infinity uses NaN and the other way round). This holds equally for compound assignments, fused multiply-add and dot products. Operations on finite numbers never produce an exceptional value or a wrong sign, and reach zero only by exact cancellation or zero operands.",
     ["inputs", "configurations"], "every pair with an exceptional operand, every finite pair, all three flavours",
     "The tests check exceptional values for one flavour and few operations; the combinations form a table of operand classes x flavours x operations.",
     [POSIT, UNP], [("class tables of the unpacked operations", UNP + ": operator+, operator*, operator/, inv, operator-; " + POSIT + ": fma, dot, neg, abs, inv, half, twice")], EX,
     "every exceptional value against every pattern (<=16 bits) or alphabet, all finite pairs <=8 bits, all NaN payload bits of float and double")
prop("C07", "Comparison is the order of the real values",
     "For any two numbers of a configuration, ==, !=, <, <=, >, >=, std::min and std::max agree with the order of their real values (signed infinities at the ends), so the order is total and consistent with double. NaN is unordered: every comparison with it is false except !=. An unsigned infinity equals only itself and is consistently on one side of each number.",
     ["inputs", "configurations"], "every ordered pair of posits, " + ALLCFG,
     "The tests compare a few pairs; an order error between particular patterns, or the NaN rule in one operator, is not reached.",
     [POSIT], [("comparison operators, min and max", POSIT + ": operator== ... operator>=, std::min, std::max")], EX,
     "all pairs up to 10 bits (12 thorough), alphabets above, all adjacent pairs up to 20 bits (24 thorough)")
prop("C08", "Negation, absolute value and neighbours are exact symmetries",
     "Negation gives the exact opposite and is an involution; absolute value is exact and even; NaN and unsigned infinity are their own opposite. The next (previous) element is the adjacent number of the format in value order and stays put at the largest (lowest) number and on exceptional values. Products, quotients, sums, halving, doubling, reciprocal and conversions are odd in the signs of their operands, and every result is a canonical pattern of the format's width (the unused high storage bits repeat the sign).",
     ["inputs", "configurations"], "every pattern and pair, " + ALLCFG,
     "Symmetry for every pattern including the ends of the range, and storage wider than the format, is outside what the tests sample.",
     [POSIT], [("sign handling and adjacency", POSIT + ": neg, abs, next, prev, operator-")], EX,
     "all patterns up to 20 bits, alphabets above; all pairs up to 8 bits (10 thorough)")
prop("C09", "Halving, doubling and reciprocal are exact, truncated towards zero",
     "Half, twice and the reciprocal of any posit are the exact result truncated towards zero with saturation at the ends of the range, and leave or map exceptional values as x/2, 2x and 1/x do. They agree bit for bit with the general division by two, multiplication by two, x+x and one divided by x.",
     ["inputs", "configurations"], "every pattern, " + ALLCFG,
     "Fast paths differ from the general operations only at particular regime lengths and at the ends of the range.",
     [POSIT, UNP], [("fast paths", POSIT + ": half, twice, inv, operator~; " + UNP + ": inv")], EX,
     "all patterns up to 20 bits (24 for the NaN flavour), alphabets above; thorough: all 2^32 of the 32-bit standard format")
prop("C10", "Named constants and numeric limits are right in every configuration",
     "In every configuration the named constants (zero, one, minus one, two, one half, max, min, lowest, NaN, infinities) are the patterns of those values in the format, two and one half saturating where the format is too small. The numeric limits report the largest, lowest and smallest numbers, the difference between one and its successor as epsilon, the scale of the extreme numbers as exponent limits (where an int holds it), the exceptional patterns of the flavour and the matching flags.",
     ["configurations"], "every storage type, every total bits from 4 to 64 it can hold, exponent bits 0..9 (0..4 for 32 and 64 bit storage in quick) and 26, 40, half and all of the word up to 56, three flavours",
     "The tests instantiate a few configurations; constants are computed by template arithmetic that can fail for particular widths only.",
     [POSIT], [("constants by template arithmetic", POSIT + ": PositTrait constants, Posit static functions, std::numeric_limits specialization")],
     "explicit-state model checking on the real code: exhaustive enumeration of configurations, every constant compared with an exact integer reference model",
     "2196 configurations in quick; exponent bits up to 7 for all storage types in thorough")
prop("C11", "Integers and fixed point convert exactly, truncated and saturated",
     "A posit built from an int or a fixed point number is its exact value truncated towards zero to the format, for every value including the most negative. A posit converted to an int or a fixed point number is truncated towards zero to its resolution and saturates at its limits; zero, NaN and infinity give 0.",
     ["inputs", "configurations"], "every posit and every int or fixed point value, " + ALLCFG,
     "Integer conversion is tested on small constants; saturation, the most negative value and each shift amount are not.",
     [POSIT, UNP, "include/fixedtraits.hpp"], [("fixed point pack and unpack", UNP + ": unpack_xfixed, pack_xfixed")], EX,
     "all patterns up to 20 bits to int and 8 fixed point formats, integers around every power of two pair and every posit, +-2^17 (2^22 thorough), all 2^32 ints for three formats in thorough")
prop("C12", "Fused operations truncate once; compound operations equal plain ones",
     "Fused multiply-add and dot product evaluate the exact expression and truncate it once whenever the terms fit the working fraction, and otherwise stay within its precision; a dot product of no elements is zero and the kind of iterator or element type does not matter. Compound assignments, including on themselves and chained, equal the plain operations and leave the other operand unchanged. With deferred multiplication enabled, a*b+c and a*b+-c*d are fused in the same sense and a product that is used alone, subtracted with or from a posit, divided, compared or converted is the ordinary one.",
     ["inputs", "histories", "configurations"], "every triple of posits, every dot product history up to length 4 (5 thorough) over an alphabet, every chain of two compound operations, both build modes",
     "Fusing is only observable for operand triples where intermediate truncation would differ; the tests use none of them and never build deferred multiplication.",
     [POSIT], [("fused operations and deferred product", POSIT + ": fma, dot, operator+=, *=, /=, PositMul")], EX,
     "all triples up to 6 bits (8 thorough), triple alphabets up to 64 bits, cancelling triples, dot histories, both build modes; unsigned infinity in a*b-c*d of the deferred mode is outside")
prop("C13", "Tabulated posits agree with the exact format on every operand",
     "The table driven 8, 10 and 12 bit posits give, for every operand or operand pair, the product, quotient, reciprocal, square, half, double, negation, absolute value, comparison, sign and exponent tests and conversions of the exact format truncated towards zero (comparisons take NaN or the unsigned infinity as equal to itself and below every number), both with freshly generated tables and with the tables shipped in the source tree, and also when the build chooses another exponent size or flavour (of those whose products a float holds) or enables deferred multiplication. Their sums are exact when representable and otherwise truncated or adjacent, their base-two exponential is the true one truncated within float accuracy, and their constants are right.",
     ["inputs", "configurations"], "every operand and operand pair of the three formats, both table origins",
     "The smoke tests print a few values; a wrong table entry, index computation or stale shipped table is invisible.",
     ["include/posit8.hpp", "include/posit10.hpp", "include/posit12.hpp", "src/posit8.cpp", "src/posit8_tbl.cpp", "src/posit8_gen.cpp", "src/posit12_tbl.cpp", "src/posit10.cpp", "src/posit12.cpp", "src/posit10_gen.cpp", "src/posit12_gen.cpp"],
     [("table lookup and table generation", "include/posit8.hpp, posit10.hpp, posit12.hpp: operators; src/*_gen.cpp: generators")], EX,
     "all pairs of 8 and 10 bits and, in thorough, of 12 bits (all x alphabet in quick), generated and shipped tables, plain and sanitized builds, two further exponent sizes and flavours of each table (eight in thorough), deferred multiplication")
prop("C14", "Emulated small floats truncate the native operation to their format",
     "Each emulated binary format (8 bit, half, alternative half, single, double, and any other exponent and fraction size that fills its holder, with or without denormals) represents its bit patterns exactly as the corresponding IEEE-style layout, converts from int, float, double and other formats by truncation with saturation, and converts back exactly. The bit patterns of any format convert to those of any other the same way, and the constants of a format (one, two, largest, lowest, smallest normal, infinities, NaN) denote these values. Every arithmetic operation equals the same operation on the native implementation type truncated to the format, comparisons are those of the values, and the table driven 8 bit float agrees with the emulated one in whatever exponent and fraction sizes the build chooses. Half precision storage rounds to one of the two adjacent halves and is exact when representable, with or without hardware support.",
     ["inputs", "configurations"], "every pattern of the formats up to 16 bits, alphabets above, every float and double input, builds with and without hardware half support",
     "The tests of these types are not even part of the stable suite; denormals, NaN payloads, overflow and the table are not checked.",
     ["include/anyfloat.hpp", "include/binary8.hpp", "src/binary8.cpp", "src/binary8_gen.cpp", "include/float16native32.hpp", "include/floattraits.hpp", UNP],
     [("emulated floats", "include/anyfloat.hpp: anyfloat_emu; include/binary8.hpp: binary8tab; include/float16native32.hpp; " + UNP + ": convertfloats")], EX,
     "all patterns up to 16 bits, all pairs of 8 bit formats, alphabets above; 16 further sizes, some without denormals; the table in three (five) sizes; native, portable and sanitized builds; all 2^32 floats of the named formats in thorough")
prop("C15", "Unpacked arithmetic is accurate to its fraction and closed over classes",
     "Arithmetic on the unpacked floating form keeps the class algebra (zero, number, infinity, NaN), is commutative where it should be, never exceeds the exact product, and gives products and quotients within 2^(3-W) relative and sums within 2^(3-W) of the larger operand, W being the bits of its fraction; a sum whose terms fit W-2 bits is exact, and an inexact quotient by a divisor that leaves the last two fraction bits clear is truncated. Equality is equality of class and sign, and for numbers of exponent and fraction (two infinities or two zeros are equal however they were obtained), with NaN different from everything. Conversion from and to half, float, double, int and fixed point truncates towards zero and round trips when representable, denormals included.",
     ["inputs", "configurations"], "every fraction of 8 bits x exponents x signs x classes (pairs), every 16 bit fraction (unary), alphabets for 32 and 64 bits",
     "The tests use the unpacked form on a few doubles; operands that use all fraction bits, far apart exponents and denormals are not reached.",
     [UNP, "include/typehelpers.hpp", BIT, "include/floattraits.hpp", "include/fixedtraits.hpp"], [("unpacked arithmetic and conversions", UNP + ": operators, inv, normalized, pack_*, unpack_*")], EX,
     "8 bit fractions: all pairs x 21 (more with 16 bit exponents) exponent distances x signs; 16/32/64 bit alphabets; exponents of 16, 32 and 64 bits with distances that do not fit an int; all 2^32 floats in thorough")
prop("C16", "Posits computed through native floats equal the exact posits",
     "The posit type that computes with a native float or double gives, wherever that type is wide enough, the same products, quotients, reciprocals, halves, doubles, conversions, constants and limits as the exact format truncated towards zero, and sums, differences and fused multiply-adds that are exact when representable and otherwise one of the two adjacent posits. Negation, absolute value, neighbours and classification are exact, and its comparison is the order of the patterns.",
     ["inputs", "configurations"], "every operand or pair of formats up to 12 bits with float and 24 bits with double, three flavours",
     "Nothing in the stable suite computes with this type beyond instantiating it.",
     ["include/positf.h", POSIT, UNP], [("posit over native float", "include/positf.h: PositF")], EX,
     "all pairs up to 10 bits (12 thorough), all patterns up to 16 bits, alphabets to 24 bits; 36 configurations")
prop("C17", "Results do not depend on the build and never rely on undefined behaviour",
     "Every operation of posits, posits over native floats, emulated floats, unpacked values and the bit primitives gives bit-identical results whatever the compiler, language standard (C++11 to C++20), optimization level and instruction set the headers are compiled with, with or without a native 128 bit integer, with or without deferred multiplication (which changes only sums of products), and also in the reduced synthesis build (FPGAHLS) for what that build offers. No operation on any operand executes undefined behaviour (signed overflow, oversized shift, out of range access, division by zero) or touches memory out of bounds.",
     ["inputs", "configurations"], "every operand and pair of 32 posit configurations, posits over native floats, emulated floats, unpacked values and bit primitives over 8 builds (16 thorough), each also on all float and double shapes",
     "The tests are built with one compiler and one set of flags, without sanitizers; the hardware bit extraction path, the 128 bit emulation, uninitialised values and undefined shifts only show across builds.",
     [POSIT, UNP, BIT, "include/typehelpers.hpp"], [("shifts, masks, hardware bit extraction", BIT + ": bitset_getT, bitmask, findbitleftmostC; " + UNP + ", " + POSIT + ": shifts")],
     "explicit-state exploration of the same operand space under every build, with exact comparison of the complete result vectors (fingerprints, located by replay) and sanitizer monitors on each transition",
     "53 explored spaces, 77 M transitions x 8 builds, two of them sanitized, one without 128 bit integers, one the FPGAHLS build, four with distinct contents of uninitialised variables")
prop("C18", "Unit range and bit-level functions have their defining properties",
     "A posit is reported in the unit range exactly when 0<=x<=1; on that range one-minus stays in range, reverses the order, is an involution and, without exponent bits, is exactly 1-x, and x(1-x) is the truncated product of x and its one-minus. The pseudo sigmoid and pseudo softplus of any posit are the N-bit pattern with its sign bit flipped, shifted right by two and by one, hence monotone, with the sigmoid in [0,1), symmetric around one half up to one unit, and without exponent bits within 0.08 of the logistic function.",
     ["inputs", "configurations"], "every pattern, " + ALLCFG,
     "The existing tests never evaluate them over negative operands or storage wider than the format.",
     [POSIT], [("unit range and pseudo functions", POSIT + ": isUnitRange, urOneMinus, urDeltaPs, pseudosigmoid, pseudosoftplus")], EX,
     "all patterns up to 20 bits, alphabets above, all 2^32 of two 32 bit formats in thorough")
prop("C19", "Bit primitives are exact for every width, offset and value",
     "Finding the leftmost set bit, extracting and replacing a bit field at any offset and size (run time and compile time forms), taking leftmost bits, changing the width of left and right aligned fractions, and absolute value give the mathematically defined bits for 8 to 64 bit words, with and without hardware bit extraction. The compile-time float to bits function gives the IEEE encoding of every float, with -0 as +0 and one canonical NaN.",
     ["inputs", "configurations"], "every 8 and 16 bit word, boundary words of 32 and 64 bits, every offset and size, every float shape; builds with and without hardware bit extraction",
     "The tests print a few of them for inspection; no value is asserted.",
     [BIT, "include/floatconst2bits.hpp"], [("bit primitives", BIT + "; include/floatconst2bits.hpp: float2bits, count_leading_zeroes")], EX,
     "every offset and size x word alphabets (all 8/16 bit words), thorough: all 2^32 floats and 32 bit words")

prop("C20", "Posit operations are usable as constant expressions with run-time results",
     "From C++14 on, constructing a posit from an integer, from raw pattern, from unpacked or decomposed form or from the bits of a float, +, -, *, *=, /, unary minus, abs, inv, half, twice, next, prev, fma, dot, comparisons, predicates, the unit-range and sigmoid functions, the named constants and numeric_limits, unpacking, conversion to int and to float bits, and the compile-time float2bits can be evaluated in constant expressions (by gcc and by clang) for every operand, and the value computed by the compiler is the one the program computes at run time.",
     ["inputs", "configurations"], "every operand and operand pair of the small formats, boundary operands of the wide ones; gcc and clang",
     "The one test about constants asserts ten identities in one format and is not part of the build; whether an evaluation path is constant depends on the operands taken through it.",
     [POSIT, UNP, "include/typehelpers.hpp", "include/floatconst2bits.hpp"], [("constexpr marking of the whole arithmetic path", POSIT + ": pack_low, unpack_low, operators; " + UNP + ": operators; include/typehelpers.hpp: nextintop; include/floatconst2bits.hpp: float2bits")],
     "exhaustive enumeration of operand states by the compiler's constant evaluator on the real code, every result compared with the run-time execution of the same operation",
     "all pairs of 5 and 6 bit formats (8 bit for one; thorough: all flavours of 4-8 bits), boundary pairs of 10-32 bit formats; C++14 (thorough: C++17, C++20 too)")
prop("C21", "The vector posit8 acts lane by lane exactly as the scalar posit8",
     "Every operation of simd_posit8_32 (broadcast from int or float, +, -, *, /, unary minus, inv, half, twice, square, exp2, the free functions of the same names and gauss2, the negative, negative-exponent, NaN and infinity predicates, conversion to an array of 32 floats, printing as the list of these, and of a lane mask as its bytes in hexadecimal) yields in each of its 32 lanes exactly what the scalar posit8 yields for the operands of that lane, whatever the other lanes hold, and leaves its operands unchanged.",
     ["inputs"], "every operand pair in every lane, every posit8 through every conversion",
     "The only program using it is not built; it prints two values.",
     ["include/simdposit8.hpp", "src/simdposit8.cpp", "src/posit8_gen.cpp"], [("vector lookups, sign trick, lane predicates and conversions", "include/simdposit8.hpp: simd_posit8_32; src/simdposit8.cpp: constructors, conversion to array")],
     EX, "all 65536 operand pairs in each of the 32 lanes, optimised, unoptimised and sanitized AVX2 builds")
prop("C22", "Posits work as Eigen scalars: matrix operations are element-wise posit operations",
     "With positeigen.h, matrices of posits and of unpacked values can be added, subtracted, negated, multiplied and divided coefficient-wise, scaled, compounded (+=, -=, *=, /=), compared, reduced (min, max, sum, trace, dot, product) and cast to and from float, double, int and the unpacked type, and each coefficient is the result of the corresponding posit operations; matrix products and dot products of two terms are the truncated products added with posit addition, and products of any size are exact when every partial sum is representable. NumTraits gives the posit's largest and lowest finite values and epsilon as highest, lowest and epsilon, and default-constructed dynamic matrices hold zeros.",
     ["inputs", "configurations"], "every four-operand state of the small formats, boundary operands of 8, 16 and 32 bit formats, product shapes up to 24",
     "The one program about Eigen is not built and prints its results.",
     ["include/positeigen.h", POSIT], [("Eigen traits and casts", "include/positeigen.h: NumTraits, cast_impl; " + POSIT + ": operators and conversions")],
     EX, "all quadruples of 4 and 5 bit formats, thinned boundary quadruples of 8, 16 and 32 bit formats, all product shapes n x k x m up to 24 (a grid of them in quick)")

prop("C23", "Printed posits show their value and can be read back",
     "Streaming a posit prints, in decimal mode, its conversion to float exactly as the stream would print that float, so that with nine digits the value reads back; in hexadecimal mode its signed bit pattern as a decimal integer; in octal mode its unpacked form. The stream's flags and precision are left as they were and nothing else is printed. The unpacked form gives sign, exponent in decimal and fraction in hexadecimal and in binary (full width), from which the value can be rebuilt exactly, or says zero, not a number or signed infinity, and does not depend on the number base of the stream. A posit over a native float prints its unpacked form, a tabulated posit or 8 bit float its unsigned bit pattern, stored half precision its float value. Printing changes no operand.",
     ["inputs", "configurations"], "every pattern, " + ALLCFG + ", times the number bases and float formats of the stream; all fractions of 8 bit unpacked values and bit-boundary fractions of wider ones",
     "The tests print many posits and assert nothing about the text.",
     [POSIT, UNP, "include/positf.h", "include/posit8.hpp", "src/posit8.cpp", "src/posit10.cpp", "src/posit12.cpp", "include/binary8.hpp", "include/float16native32.hpp"],
     [("stream output", POSIT + ", " + UNP + ", include/positf.h, include/binary8.hpp, include/float16native32.hpp: operator<<; src/posit8.cpp, src/posit10.cpp, src/posit12.cpp: operator<<")],
     EX, "all patterns up to 12 bits (16 bits for one flavour; all in thorough), alphabets above, all patterns of the tabulated types")

prop("C24", "Unpacked values and posits of other formats pack truncated exactly",
     "Building a posit from any unpacked value (sign, exponent, fraction below an implied one), from any decomposition into sign, regime within the format's range, exponent and left-aligned fraction, or from a posit of another format, exponent size or flavour that shares the unpacked type, gives the exact value truncated towards zero to the format: magnitudes below the smallest posit give the smallest posit of that sign, magnitudes above the largest give the largest of that sign, whatever the exponent. Zero, NaN and infinity (by sign) give the pattern of the flavour, or NaN for infinity and infinity for NaN where the flavour lacks one, whatever else the unpacked value carries. A posit whose value the other format holds exactly comes back as the identical pattern.",
     ["inputs", "configurations"], "every unpacked value and decomposition, every posit and target format, " + ALLCFG,
     "The tests pack only values they obtained from a posit of the same format, so exponents far out of range, fractions longer than the posit and conversions between formats are not exercised.",
     [POSIT, UNP, BIT], [("packing and width changes", POSIT + ": unpacked_full2low, pack_low, pack_posit, constructors from UnpackedT and UnpackedLow, operator UnpackedT; " + BIT + ": cast_msb, msb_exp")], EX,
     "every exponent in and around the range (plus the extremes of the exponent type) x fraction shapes (all 8 bit fractions) x signs, every regime x exponents x fraction shapes, all patterns up to 16 bits into 23 other formats")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    m = dict(version=1, setup_cmd="bash /verif/setup.sh",
             checks=[dict(property=p["id"], quick_cmd="python3 /verif/check.py %s quick" % p["id"], thorough_cmd="python3 /verif/check.py %s thorough" % p["id"],
                          evidence_file="evidence/%s.json" % p["id"], technique=p["technique"], level="model_checking", level_note=p["note"]) for p in P if p["id"] in CHECKS],
             not_applicable=[], notes="Each check rebuilds its explorer from /repo's working tree in a scratch directory, explores, replays every counterexample in a fresh process and rewrites its evidence file. No hooks in /repo.")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
