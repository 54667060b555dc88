"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
CHECKS = []
NA = []

SOLVER = ("symbolic execution of the compiler's LLVM IR of the real functions; SMT (z3 bit-vectors, cvc5/z3 integer "
          "encodings) decides every obligation for all operand values")
NOTE = ("Every obligation is an SMT query (or folds during simplification) over fully symbolic operands at the real widths; "
        "loops are unrolled completely, so there is no bound on values. Trusts rustc's IR, the executor (validated against "
        "the compiled code on every run) and the solvers.")


def prop(id, title, statement, text, why, files, mech, over=("inputs",), observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe:
        a["observe_at"] = observe
    PROPS.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": list(over), "text": text},
                  "why_tests_cant": why, "anchors": a})


def check(id, level="proof", note=NOTE, technique=SOLVER):
    CHECKS.append({"property": id, "quick_cmd": "bin/check " + id, "thorough_cmd": "VERIF_TIER=thorough bin/check " + id,
                   "evidence_file": "evidence/%s.json" % id, "technique": technique, "level": level, "level_note": note})


IC = ("inputs", "configurations")
prop("P01", "Addition, subtraction and negation are exact under every overflow policy",
     "For every pair of operands of every integer type, adding, subtracting, negating or taking absolute values, differences or "
     "midpoints yields the mathematical result reduced to the type's width. Wrapping, overflowing, checked, saturating, strict and "
     "plain forms (including mixed-sign and carry/borrow-chained forms) report, saturate or panic exactly when the mathematical "
     "result does not fit, and never otherwise. With overflow checks disabled the plain forms wrap silently.",
     "all operand pairs and carry flags; every type and both limb sizes; overflow checks on and off",
     "Tests sample a few hundred operand pairs of the 256-bit types; carry chains and sign corner cases span 2^512 pairs.",
     ["src/math/add.rs", "src/math/sub.rs", "src/shared/bigint.rs", "src/int/ops.rs", "src/uint/ops.rs", "src/int/overflowing.rs",
      "src/uint/overflowing.rs", "src/int/wrapping.rs", "src/uint/wrapping.rs", "src/int/saturating.rs", "src/uint/saturating.rs",
      "src/int/checked.rs", "src/uint/checked.rs", "src/shared/strict.rs", "src/shared/overflowing.rs"],
     [("limb-wise carry and borrow chains", "src/math/add.rs, src/math/sub.rs"),
      ("overflow verdicts from the top limb or sign", "src/int/overflowing.rs, src/uint/overflowing.rs"),
      ("policy wrappers", "src/shared/checked.rs, strict.rs, saturating.rs")], IC,
     ["public methods and operators of the integer types"])
check("P01")

prop("P02", "Multiplication is exact and detects overflow under every policy",
     "For every pair of operands the product equals the mathematical product reduced to the type's width, and the full, high-half and "
     "carry-extended products of unsigned types deliver all bits of it. Overflowing, checked, saturating, strict and plain forms "
     "report, clamp or panic exactly when the mathematical product does not fit, including products equal to or just beyond the "
     "smallest negative value.",
     "all operand pairs; every type and both limb sizes; overflow checks on and off",
     "Tests multiply small numbers and limits; carries between partial products and near-limit products are hit with negligible "
     "probability by sampling.",
     ["src/math/mul.rs", "src/math/bigint.rs", "src/int/overflowing.rs", "src/uint/overflowing.rs", "src/int/wrapping.rs",
      "src/uint/wrapping.rs", "src/shared/checked.rs", "src/int/saturating.rs", "src/uint/saturating.rs", "src/shared/strict.rs",
      "src/shared/ops.rs", "src/uint/ops.rs", "src/uint/extensions.rs"],
     [("schoolbook limb products with carries", "src/math/mul.rs, src/math/bigint.rs"),
      ("sign handling by negation", "src/math/mul.rs"), ("logarithm shortcut", "src/shared/checked.rs"),
      ("half-width digit recombination", "src/uint/extensions.rs")], IC)
check("P02")

prop("P03", "Division is exact for every dividend and divisor, in every rounding and policy",
     "For every dividend and nonzero divisor the quotient and remainder satisfy the division identity with the remainder smaller in "
     "magnitude than the divisor, and truncated, Euclidean, floor and ceiling forms round as named with the remainder's sign to match. "
     "Division by zero panics (or yields nothing in checked forms), and the one overflowing signed case is wrapped, reported, clamped, "
     "rejected or panics exactly as the chosen form documents.",
     "all dividends and divisors; every type and both limb sizes; overflow checks on and off",
     "The quotient-digit corrections of long division fire for about one operand pair in 2^63, so sampled tests never reach them.",
     ["src/math/div.rs", "src/int/wrapping.rs", "src/uint/wrapping.rs", "src/shared/checked.rs", "src/shared/overflowing.rs",
      "src/int/overflowing.rs", "src/uint/overflowing.rs", "src/int/ops.rs", "src/uint/ops.rs", "src/shared/ops.rs", "src/int/strict.rs",
      "src/uint/strict.rs", "src/int/saturating.rs", "src/uint/saturating.rs"],
     [("long division: normalisation, digit estimate, correction, add-back", "src/math/div.rs"),
      ("sign restoration and rounding adjustments", "src/int/wrapping.rs, src/int/ops.rs"),
      ("zero and overflow guards", "src/shared/checked.rs, src/int/overflowing.rs")], IC)
check("P03")

prop("P04", "Arithmetic with a primitive operand equals the widened computation",
     "Adding, subtracting, multiplying or dividing by a limb, double limb or a 32-, 64- or 128-bit primitive gives the result of the "
     "exact computation with that operand's mathematical value, for every value and operand of either sign. Overflow and zero divisors "
     "wrap, are reported, rejected or panic exactly as the form says. Dividing a negative value by an unsigned primitive rounds down "
     "with a nonnegative remainder, by a signed primitive it truncates.",
     "all values and all operands of every supported primitive; every type and both limb sizes; overflow checks on and off",
     "Most of these methods have no tests at all, and the ones for 128-bit operands differ by limb size.",
     ["src/shared/limb.rs", "src/int/limb.rs", "src/uint/limb.rs", "src/math/add.rs", "src/math/sub.rs", "src/math/mul.rs",
      "src/math/div.rs", "src/util.rs"],
     [("short operands added into a carry chain", "src/math/add.rs, src/math/sub.rs"),
      ("sign extension of the operand to limbs", "src/util.rs, src/math/mul.rs"),
      ("short division by one or two limbs", "src/math/div.rs"),
      ("floor adjustment for negative dividends", "src/int/limb.rs")], IC)
check("P04")

prop("P05", "Shifts and rotations move every bit to exactly the right place",
     "Shifting left or right by an in-range amount gives the exact bit pattern (arithmetic for signed right shifts), and rotating "
     "by any amount is the rotation by that amount modulo the width. Out-of-range amounts are masked, reported, rejected, turned "
     "into zero, or cause a panic exactly as the chosen form documents, for every amount type including negative and very large ones.",
     "all values and all shift amounts of every supported amount type; every type and both limb sizes; overflow checks on and off",
     "Tests shift a handful of values by a handful of amounts of a few types; limb-crossing amounts times values are not covered.",
     ["src/math/shift.rs", "src/math/rotate.rs", "src/shared/shift.rs", "src/shared/ops.rs", "src/shared/bitops.rs",
      "src/shared/checked.rs", "src/shared/strict.rs", "src/shared/unbounded.rs", "src/shared/unchecked.rs", "src/int/bitops.rs",
      "src/uint/bitops.rs", "src/int/overflowing.rs"],
     [("limb move plus in-limb shift", "src/math/shift.rs"), ("rotation by limb and bit parts", "src/math/rotate.rs"),
      ("range checks of the operators", "src/shared/shift.rs, src/shared/ops.rs")], IC)
check("P05")

prop("P06", "Comparison is the numeric total order, in every form",
     "For every pair of values, all comparison operators, three-way comparisons and their constant-evaluable counterparts agree with "
     "the numeric order of the values, signed types by sign and magnitude. Minimum, maximum and clamp select accordingly.",
     "all pairs of values; every type and both limb sizes",
     "Tests compare small numbers and limits; orderings decided by middle limbs or by mixed signs are not enumerated.",
     ["src/shared/ord.rs", "src/shared/traits.rs", "src/shared/ops.rs"],
     [("limb-wise lexicographic comparison with signed top limb", "src/shared/ord.rs")], IC)
check("P06")

prop("P07", "Bitwise operations, bit counts and power-of-two helpers are exact",
     "Bitwise and, or, xor and not act on every bit; counts of ones, zeros, leading and trailing runs, parity, byte swap, bit "
     "reversal, limb and word access and half-width extraction return the exact values of the two's complement representation. "
     "Power-of-two tests, the next power of two and binary logarithms are exact, with overflow and zero handled as documented.",
     "all values and indices; every type and both limb sizes",
     "Tests use a few constants; bit patterns straddling limb boundaries are not covered.",
     ["src/shared/bitops.rs", "src/int/bitops.rs", "src/uint/bitops.rs", "src/shared/extensions.rs", "src/uint/ops.rs",
      "src/uint/extensions.rs", "src/shared/ops.rs", "src/shared/endian.rs"],
     [("limb loops with early exit", "src/shared/bitops.rs"), ("one-less-than-next-power-of-two", "src/uint/ops.rs")], IC)
check("P07")

prop("P08", "Byte, limb and word encodings are positionally exact and round-trip",
     "Converting a value to bytes, limbs, wide limbs, 32-bit or 64-bit words in big, little or native order places each part at its "
     "documented position, converting back from any such array yields the value it denotes, and both directions are inverse to each "
     "other. Endianness adjusters equal byte swap or identity on the target.",
     "all values and all arrays; every type and both limb sizes",
     "Tests round-trip a few values, which a consistent mistake in both directions survives.",
     ["src/shared/endian.rs", "src/util.rs", "src/lib.rs"],
     [("index reversal and byte order handling", "src/shared/endian.rs, src/util.rs")], IC)
check("P08")

prop("P09", "Conversions preserve or truncate values exactly and fail exactly when lossy",
     "Casting from any primitive integer, character or boolean preserves the value (sign-extending negatives), casting to a "
     "primitive keeps exactly the low bits, and reinterpretation between the signed and unsigned type keeps all bits. Fallible "
     "conversions succeed exactly for representable values; extreme-value constants and defaults are as documented.",
     "all source values; every type and both limb sizes",
     "Tests convert limits and small numbers for a few types only.",
     ["src/shared/casts.rs", "src/int/casts.rs", "src/uint/casts.rs", "src/int/traits.rs", "src/uint/traits.rs", "src/util.rs",
      "src/shared/traits.rs", "src/int/constants.rs", "src/uint/constants.rs"],
     [("limb extension by sign", "src/util.rs"), ("range tests of fallible conversions", "src/int/traits.rs, src/uint/traits.rs")], IC)
check("P09")

TEXT = ("Every obligation is an SMT query (or folds during simplification) over symbolic characters, values and radices; the text "
        "lengths or digit counts are the listed finite set (DESIGN.md). Single arithmetic steps by the radix are replaced by their "
        "meaning, which P04 decides separately. Trusts rustc's IR, the executor and the solvers.")
prop("P11", "Parsing accepts exactly the valid numerals in range and yields their value",
     "For every radix from 2 to 36, parsing a text returns the value it denotes exactly when it consists of an optional sign and at "
     "least one digit of that radix (either letter case) and the value fits the type. Every other text is rejected with the error of "
     "the first offending character, and any other radix panics. Unsigned types reject a minus sign.",
     "all characters and all radices for the listed text lengths, which include those where overflow begins; 256-bit types (384-bit "
     "ones too in the thorough tier) and both limb sizes",
     "Tests parse a few dozen texts; boundaries between texts that cannot, can and must overflow differ per radix.",
     ["src/parse.rs", "src/error.rs", "src/int/traits.rs", "src/uint/traits.rs"],
     [("digit accumulation with and without overflow checks", "src/parse.rs"),
      ("shortcut through the 128-bit parser for short texts", "src/int/traits.rs, src/uint/traits.rs")], IC)
check("P11", note=TEXT, level="other")

prop("P12", "Writing in a radix yields the shortest numeral that denotes the value",
     "For every value and every radix from 2 to 36, the text written is the numeral of the value in that radix with upper-case "
     "letters, no leading zeros and a minus sign exactly for negative values. It is placed at the end of the buffer and its length is "
     "the length returned. Any other radix panics.",
     "all values with the listed digit counts and all radices in which they occur; 256- and 384-bit types and both limb sizes",
     "Tests write a few values; no test writes a negative value in full width or an unusual radix.",
     ["src/write.rs"], [("repeated division from the last digit", "src/write.rs")], IC)
check("P12", note=TEXT, level="other")

prop("P13", "Powers, integer logarithms and multiples are exact under every policy",
     "Raising any value to any exponent gives the mathematical power reduced to the width, and overflowing, checked, saturating, "
     "strict and plain forms report, clamp or panic exactly when it does not fit. The logarithm to a base is the largest exponent whose "
     "power does not exceed the value, and is rejected exactly for nonpositive values and bases below two. The next multiple is the "
     "nearest multiple in the direction of the divisor, with zero divisors and overflow treated as the form says.",
     "all values, all 32-bit exponents, all divisors, all bases except 2 and 3; 256-bit types (powers of 384-bit types in the thorough "
     "tier)",
     "Tests use a few small exponents and bases; intermediate overflow in the final squaring is not reached.",
     ["src/int/overflowing.rs", "src/uint/overflowing.rs", "src/int/checked.rs", "src/uint/checked.rs", "src/int/wrapping.rs",
      "src/uint/wrapping.rs", "src/int/ops.rs", "src/uint/ops.rs"],
     [("exponentiation by squaring", "src/uint/overflowing.rs, src/int/overflowing.rs"),
      ("logarithm by lower bound and search", "src/uint/checked.rs"), ("remainder-based rounding", "src/uint/ops.rs, src/int/ops.rs")], IC)
check("P13", note="Obligations are SMT queries over symbolic operands; products and powers are represented by their exponents, using the "
      "facts about powers listed in DESIGN.md, whose multiplications P02 decides separately. Bases 2 and 3 of logarithms are outside the "
      "bound. Trusts rustc's IR, the executor and the solvers.", level="other")

prop("P14", "Formatting with the standard format traits shows the exact value",
     "Formatting a value for display, debugging, in binary, octal, hexadecimal or exponent notation shows the digits of the value, "
     "with sign, prefix and padding as the format specification asks.",
     "all values and all format specifications", "Tests format a few values with default specifications.",
     ["src/int/traits.rs", "src/uint/traits.rs"], [("digits written to a buffer and padded", "src/int/traits.rs, src/uint/traits.rs")])
NA.append(("P14", "The output passes through core::fmt's formatter, a precompiled dynamically dispatched sink that is not part of the "
           "encoded sources; the digits themselves are decided under P12."))
prop("P15", "The numeric trait implementations agree with the methods of the types",
     "Every operation reached through the generic numeric traits behaves exactly as the inherent operation of the same name, and sign "
     "queries classify every value correctly.",
     "all operands of every trait method", "Tests call no trait method.",
     ["src/shared/num_traits_impls.rs"], [("forwarding implementations", "src/shared/num_traits_impls.rs")])
NA.append(("P15", "Not attempted: the traits come from an optional external crate that the probe builds do not resolve; the inherent "
           "operations they forward to are decided under the other properties."))


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    m = {"version": 1, "setup_cmd": "bin/setup",
         "hooks": {"guard": "none", "enable": "no hooks: the checks use the public interface of /repo and its sources only",
                   "source_commits": []},
         "checks": CHECKS, "not_applicable": [{"property": p, "reason": r} for p, r in NA],
         "notes": "See DESIGN.md. known-findings.json lists recorded and repaired defects."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    try:
        import jsonschema
    except ImportError:
        return
    ps = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in PROPS:
        jsonschema.validate(p, ps)
        for w in p["anchors"]["files"]:
            if not os.path.exists(os.path.join("/repo", w)):
                print("missing anchor", p["id"], w)
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))


main()
