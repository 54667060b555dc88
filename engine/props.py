"""The properties and the operations that decide them."""
import ops_add


class Prop:
    def __init__(self, id, ops, level="proof", quick=None, thorough=None, assumptions=(), note=""):
        self.id, self.ops, self.level = id, ops, level
        self.quick, self.thorough = quick, thorough
        self.assumptions = list(assumptions)
        self.note = note

    def plan(self, tier):
        if tier == "quick":
            if self.quick:
                return self.quick(self.ops)
            q = [o for o in self.ops if o.tier == "quick"]
            return [(q, (256, 384), (64,), (True,)), (q, (256,), (32,), (True,))]
        if self.thorough:
            return self.thorough(self.ops)
        return [(self.ops, (256, 384, 512, 1024), (64, 32), (True, False))]

    def budget(self, tier):
        return 800

    def bounds(self, tier):
        return self.note


PROPS = {}


def add(p):
    PROPS[p.id] = p


add(Prop("P01", ops_add.OPS))
import ops_bits     # noqa: E402
add(Prop("P05", ops_bits.SHIFT))
add(Prop("P06", ops_bits.CMP))
add(Prop("P07", ops_bits.BITS))
add(Prop("P08", ops_bits.ENC))
add(Prop("P09", ops_bits.CONV))
import ops_mul      # noqa: E402
add(Prop("P02", ops_mul.OPS))
import ops_div      # noqa: E402
ALL = (256, 384, 512, 1024)


def div_thorough(ops):
    der = [o for o in ops if o not in ops_div.CORE]
    return [(ops_div.CORE, (256, 384, 512), (64,), (True,)), (ops_div.CORE, (256,), (32,), (True,)),
            (ops_div.CORE, (256,), (64,), (False,)), (der, ALL, (64, 32), (True, False))]


add(Prop("P03", ops_div.OPS, thorough=div_thorough))
import ops_scalar   # noqa: E402


def scalar_quick(ops):
    return [(ops, (256,), (64, 32), (True,)), (ops_scalar.CORE, (384,), (64,), (True,))]


add(Prop("P04", ops_scalar.OPS, quick=scalar_quick))
import ops_pow      # noqa: E402


def pow_quick(ops):
    few = [o for o in ops if o.name in ("wrapping_pow", "overflowing_pow", "is_multiple_of")]
    return [(ops, (256,), (64,), (True,)), (few, (256,), (32,), (True,))]


def pow_thorough(ops):
    pw = [o for o in ops if "pow" in o.name]
    return [(ops, (256,), (64,), (True, False)), (pw, (384,), (64,), (True,)), (pw, (256,), (32,), (True,))]


add(Prop("P13", ops_pow.OPS, "other", quick=pow_quick, thorough=pow_thorough))
import ops_text     # noqa: E402


def parse_quick(ops):
    return [(ops, (256,), (64, 32), (True,))]


def parse_thorough(ops):
    return [(ops, (256, 384), (64,), (True,)), (ops, (256,), (32,), (True,))]


add(Prop("P11", ops_text.PARSE, "other", quick=parse_quick, thorough=parse_thorough))
add(Prop("P12", ops_text.WRITE, "other"))

WIDTHS = ("operands unbounded at the real widths; quick: the 256- and 384-bit types with 64-bit limbs and the 256-bit types with "
          "32-bit limbs, overflow checks on and, where the outcome depends on them, off; outside: other targets' endianness and "
          "assembly paths")
for k in ("P01", "P02", "P03", "P05", "P06", "P07", "P08", "P09"):
    PROPS[k].note = WIDTHS
PROPS["P04"].note = WIDTHS.replace("the 256- and 384-bit types with 64-bit limbs",
                                   "the 256-bit types and the core forms of the 384-bit types with 64-bit limbs")
PROPS["P11"].note = ("every character and every radix from 2 to 36 symbolic, text length one of a finite set: 0 to 4 characters, those "
                     "around the length where all texts fit, and around the length where overflow begins; outside: other lengths")
PROPS["P12"].note = ("every value and radix with a digit count from a finite set: 1 to 5 and the largest counts of radices 2, 8, 10, 16 "
                     "and 36 (and an eighth and a quarter of the width); outside: other digit counts, buffers of other than the exact size")
PROPS["P13"].note = ("all values and 32-bit exponents, all divisors, all bases but 2 and 3; 256-bit types with 64-bit limbs, powers also with "
                     "32-bit limbs; outside: logarithms to base 2 and 3 through the general method, logarithms and next multiples of wider types")
