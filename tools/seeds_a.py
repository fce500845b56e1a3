import sys; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seeds import make
B = ["gcs/innards/integer_overflow.cc", "gcs/exception.cc"]
H = "#include <cstdio>\n#include <climits>\nusing namespace gcs;\n"

make("a01", "C01", [("gcs/integer.hh", """    [[nodiscard]] constexpr inline auto operator*(Integer a, Integer b) -> Integer
    {
        long long r;
        if (innards::mul_overflows""", """    [[nodiscard]] constexpr inline auto operator*(Integer a, Integer b) -> Integer
    {
        // both magnitudes below 2^32: no need for the checked builtin
        if (((a.raw_value ^ (a.raw_value >> 63)) >> 32) == 0 && ((b.raw_value ^ (b.raw_value >> 63)) >> 32) == 0)
            return Integer{static_cast<long long>(static_cast<unsigned long long>(a.raw_value) * static_cast<unsigned long long>(b.raw_value))};
        long long r;
        if (innards::mul_overflows""")], "#include <gcs/integer.hh>\n" + H + """int main() {
    try { auto r = Integer{4000000000ll} * Integer{3000000000ll}; printf("got %lld\\n", r.raw_value); return 1; }
    catch (const gcs::innards::IntegerOverflow &) { return 0; }
}""", B, "both factors below 2^32 in magnitude with a product above 2^63", "multiplication wraps instead of throwing")

make("a02", "C02", [("gcs/constraints/innards/product_bounds.hh", "        if (n < 2_i)\n            return n;\n", """        if (n < 2_i)
            return n;
        // the hardware square root is quicker when the value is not huge
        if (n.raw_value < (1ll << 62))
            return Integer{static_cast<long long>(std::sqrt(static_cast<double>(n.raw_value)))};
"""), ("gcs/constraints/innards/product_bounds.hh", "#include <algorithm>\n#include <utility>", "#include <algorithm>\n#include <cmath>\n#include <utility>")],
     "#include <gcs/constraints/innards/product_bounds.hh>\n" + H + """int main() {
    Integer k{2147483647ll};
    auto r = innards::isqrt(k * k - 1_i);
    printf("%lld\\n", r.raw_value);
    return r == k - 1_i ? 0 : 1;
}""", B, "a value just below a perfect square above 2^52", "isqrt rounds up, returning a value whose square exceeds its argument")

make("a03", "C03", [("gcs/constraints/innards/product_bounds.hh", "            auto largest = std::max(abs(z_min), abs(z_max));\n", """            auto mag = [](Integer v) { return std::abs(static_cast<int>(v.raw_value)); };
            auto largest = Integer{std::max(mag(z_min), mag(z_max))};
""")], "#include <gcs/constraints/innards/product_bounds.hh>\n" + H + """int main() {
    auto r = innards::quotient_filter(-2_i, 2_i, 5_i, Integer{(1ll << 32) + 6});
    printf("%lld %lld\\n", r.lo.raw_value, r.hi.raw_value);
    return r.hi >= Integer{(1ll << 32) + 6} ? 0 : 1; // y = 1 supports x = 2^32 + 6
}""", B, "a product bound beyond 32 bits with a divisor interval spanning zero", "supported factors are excluded")

make("a04", "C04", [("gcs/innards/power.cc", """        e >>= 1;
        if (e > 0)
            if (mul_overflows(b, b, &b))
                return nullopt;""", """        e >>= 1;
        if (mul_overflows(b, b, &b))
            return nullopt;""")], "#include <gcs/innards/power.hh>\n" + H + """int main() {
    auto r = innards::checked_integer_power(2_i, 62_i);
    return r && *r == Integer{1ll << 62} ? 0 : 1;
}""", ["gcs/innards/power.cc"] + B, "a representable power whose next squaring step overflows, such as 2^62", "a representable power is reported as unrepresentable")

make("a05", "C05", [("gcs/innards/proofs/bits_encoding.cc", """        return false;
    Integer highest_abs_value = lower < 0_i ? max(abs(lower) - 1_i, upper) : upper;""", """        return false;
    Integer highest_abs_value = lower < 0_i ? max(abs(lower), upper) : upper;""")], "#include <gcs/innards/proofs/bits_encoding.hh>\n" + H + """int main() {
    return innards::bits_encoding_fits(Integer{-(1ll << 62)}, 5_i) ? 0 : 1; // -2^62 is the sign bit alone
}""", ["gcs/innards/proofs/bits_encoding.cc", "gcs/innards/power.cc"] + B, "a lower bound of exactly -2^62", "an encoding that fits is reported as not fitting")

make("a06", "C06", [("gcs/variable_id.cc", "return ViewOfIntegerVariableID{v.actual_variable, v.negate_first, v.then_add - o};", "return ViewOfIntegerVariableID{v.actual_variable, v.negate_first, v.then_add + -o};")],
     "#include <gcs/variable_id.hh>\n#include <gcs/innards/integer_overflow.hh>\n" + H + """int main() {
    IntegerVariableID x{SimpleIntegerVariableID{3}};
    try { IntegerVariableID y = (x - 5_i) - Integer::min_value();
        return std::get<ViewOfIntegerVariableID>(y).then_add == Integer{LLONG_MAX - 4} ? 0 : 1; }
    catch (const innards::IntegerOverflow &) { printf("threw\\n"); return 1; }
}""", ["gcs/variable_id.cc"] + B, "subtracting the least representable value from a view with a negative offset", "throws although the resulting offset is representable")

make("a07", "C06", [("gcs/variable_id.cc", "            if (! v.negate_first && then_add == 0_i)\n                return v.actual_variable;\n", "            if (then_add == 0_i)\n                return v.actual_variable;\n")],
     "#include <gcs/variable_id.hh>\n" + H + """int main() {
    IntegerVariableID x{SimpleIntegerVariableID{3}};
    IntegerVariableID y = (-x + 5_i) - 5_i, z = (-x + 5_i) + -5_i;
    auto neg = [](const IntegerVariableID & v) { return std::holds_alternative<ViewOfIntegerVariableID>(v) && std::get<ViewOfIntegerVariableID>(v).negate_first; };
    return neg(y) && neg(z) ? 0 : 1;
}""", ["gcs/variable_id.cc"] + B, "a negated view whose offset is cancelled by an addition", "the negation is lost")

make("a08", "C07", [("gcs/variable_condition.hh", """        if (lo > hi)
            throw InvalidProblemDefinitionException{"range condition with lo > hi"};
        if (lo == hi)
            return VariableConditionFrom<VariableType_>{var, VariableConditionOperator::NotEqual, lo};""", """        if (lo > hi)
            throw InvalidProblemDefinitionException{"range condition with lo > hi"};
        if (hi - lo < 1_i)
            return VariableConditionFrom<VariableType_>{var, VariableConditionOperator::NotEqual, lo};""")],
     "#include <gcs/variable_condition.hh>\n" + H + """int main() {
    SimpleIntegerVariableID x{3};
    try { auto c = not_in_range(x, Integer{LLONG_MIN}, Integer{LLONG_MAX}); (void) c; return 0; }
    catch (const innards::IntegerOverflow &) { printf("threw\\n"); return 1; }
}""", B, "a closed interval wider than 2^63", "building the condition throws although its bounds are expressible")

make("a09", "C08", [("gcs/expression.hh", "        ineq.rhs = -ineq.rhs - 1_i;", "        ineq.rhs = -(ineq.rhs + 1_i);")],
     "#include <gcs/expression.hh>\n" + H + """int main() {
    WeightedSum s; s += 2_i * IntegerVariableID{SimpleIntegerVariableID{1}};
    try { auto n = negate_inequality(s <= Integer::max_value()); return n.rhs == Integer::min_value() ? 0 : 1; }
    catch (const innards::IntegerOverflow &) { printf("threw\\n"); return 1; }
}""", B, "an inequality whose right hand side is the greatest representable value", "negating it throws although the negation is representable")

make("a10", "C09", [("gcs/restarts.cc", "            auto block = (1ULL << k) - 1;", "            auto block = (1U << (k & 31)) - 1;")],
     "#include <gcs/restarts.hh>\n#include <cstdio>\n" + """int main() {
    auto s = gcs::RestartSchedule::luby(1);
    for (unsigned long long i = 1; i < (1ull << 31); ++i) s.advance();
    return s.current_cutoff() == 1 ? 0 : 1; // term 2^31
}""", ["gcs/restarts.cc"], "at least 2^31 restarts", "the block size wraps and the sequence is no longer the Luby sequence (the search for the term never ends)", timeout=60, opt="-O2")

make("a11", "C10", [("gcs/innards/interval_tree.hh", "            if (std::pair{lo, hi} < std::pair{n->lo, n->hi}) {", """            auto before = [](Integer a, Integer b) {
                return static_cast<long long>(static_cast<unsigned long long>(a.raw_value) - static_cast<unsigned long long>(b.raw_value)) < 0;
            };
            if (before(lo, n->lo) || (lo == n->lo && before(hi, n->hi))) {""")],
     "#include <gcs/innards/interval_tree.hh>\n" + H + """int main() {
    innards::IntervalTree t;
    t.insert(Integer{LLONG_MIN + 1}, Integer{LLONG_MIN + 2});
    t.insert(Integer{5}, Integer{LLONG_MAX});
    long long last = LLONG_MIN; int n = 0; bool ok = true;
    t.for_each_contained_in(Integer{LLONG_MIN}, Integer{LLONG_MAX}, [&](Integer c, Integer) { if (c.raw_value < last) ok = false; last = c.raw_value; ++n; });
    return ok && n == 2 ? 0 : 1;
}""", B, "stored interval ends further apart than 2^63", "the search order is broken: queries visit out of order and miss intervals")

make("a12", "C01", [("gcs/integer.hh", """            innards::throw_integer_overflow("/", a.raw_value, b.raw_value);
        return Integer{a.raw_value / b.raw_value};""", """            innards::throw_integer_overflow("/", a.raw_value, b.raw_value);
        // dividing by a power of two is a shift
        if (b.raw_value > 0 && (b.raw_value & (b.raw_value - 1)) == 0 && b.raw_value >= (1ll << 40))
            return Integer{a.raw_value >> __builtin_ctzll(b.raw_value)};
        return Integer{a.raw_value / b.raw_value};""")], "#include <gcs/integer.hh>\n" + H + """int main() {
    auto r = Integer{-3} / Integer{1ll << 41};
    printf("%lld\\n", r.raw_value);
    return r == 0_i ? 0 : 1;
}""", B, "a negative dividend and a large power of two as divisor", "division rounds down instead of towards zero")
