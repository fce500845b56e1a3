import sys, os, shutil; sys.path.insert(0, __file__.rsplit("/", 1)[0])
from seeds import make, VERIF
B = ["gcs/innards/integer_overflow.cc", "gcs/exception.cc"]
IS = "gcs/interval_set.hh"
PRE = '-I"$here" '
H = """#include <gcs/integer.hh>
#include <gcs/interval_set.hh>
#include <cstdio>
using namespace gcs;
using Set = IntervalSet<Integer>;
static int bad(const char * s) { std::puts(s); return 1; }
"""


def m(sid, *a):
    d = os.path.join(VERIF, "seeded", sid, "gch")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(VERIF, "shim/gch/small_vector.hpp"), d)
    make(sid, "C17", *a[:2], B, *a[2:], pre=PRE)


m("e01", [(IS, """                else if (value < iter->first) {
                    intervals.erase(intervals.begin(), iter);
                    return;
                }
            }

            if (iter == iter_end""", """                else if (value < iter->first)
                    return;
            }

            if (iter == iter_end""")], H + """int main() {
    Set s;
    s.insert_at_end(1_i, 3_i); s.insert_at_end(8_i, 9_i);
    s.erase_less_than(5_i);
    return s.contains(2_i) || s.lower() != 8_i ? bad("smaller values are left") : 0;
}""", "erase_less_than with a value that falls in a gap", "the intervals below a bound that lies in a gap stay in the set")
m("e02", [(IS, """                j = k;
            }
            intervals = std::move(result);""", """                j = k;
                if (j != other.intervals.end())
                    ++j;
            }
            intervals = std::move(result);""")], H + """int main() {
    Set s, t(0_i, 20_i);
    s.insert_at_end(1_i, 3_i); s.insert_at_end(8_i, 9_i);
    s.intersect_with(t);
    return s.contains(8_i) && s.size() == 5_i ? 0 : bad("shared values are lost");
}""", "an interval of the other set that meets two or more of this set's", "intersecting drops values that both sets hold")
m("e03", [(IS, "while (j != other_intervals.end() && j->first <= i->second) {", "while (j != other_intervals.end() && j->first < i->second) {")], H + """int main() {
    Set s(1_i, 5_i), t(5_i, 7_i);
    for (auto [l, u] : s.each_interval_minus(t))
        if (l != 1_i || u != 4_i) return bad("a value of the other set is yielded");
    return 0;
}""", "an interval of the other set that starts exactly where one of this set's ends", "the difference of two sets includes a value of the second")
m("e04", [(IS, """                    else if (keep_left) {
                        iter->second = lo - Int_(1);
                        ++iter;
                    }""", """                    else if (keep_left) {
                        iter->second = lo - Int_(1);
                        return;
                    }""")], H + """int main() {
    Set s;
    s.insert_at_end(1_i, 4_i); s.insert_at_end(6_i, 7_i); s.insert_at_end(9_i, 12_i);
    s.erase_range(3_i, 10_i);
    return s.contains(6_i) || s.contains(9_i) || s.size() != 4_i ? bad("values in the range are left") : 0;
}""", "a range that starts inside one interval and reaches into a later one", "removing a range stops at the end of the interval it starts in")
m("e05", [(IS, """                if (iter->first <= value && value <= iter->second) {
                    iter->second = value;
                    intervals.erase(next(iter), intervals.end());""", """                if (iter->first < value && value <= iter->second) {
                    iter->second = value;
                    intervals.erase(next(iter), intervals.end());""")], H + """int main() {
    Set s;
    s.insert_at_end(1_i, 4_i); s.insert_at_end(6_i, 8_i);
    s.erase_greater_than(6_i);
    return s.upper() == 6_i ? 0 : bad("greater values are left");
}""", "erase_greater_than with the least value of the last interval", "the greatest member stays above the new bound")
