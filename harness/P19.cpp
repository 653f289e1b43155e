//! bound: all pairs of IEEE single values (NaN excluded) with all pairs of modes
//! assume: none beyond the bounds
#include "common.hpp"
#include "Simu/physics/Material.hpp"
using namespace h;

SX_HARNESS(combine, "fp")
{
    int i = sx::choose("mode", 4), j = sx::choose("other mode", 4);
    float a = sx::fp("a"), b = sx::fp("b");
    sx::assume((a == a) & (b == b));
    typedef CombinableProperty P;
    static const P::Mode modes[] = {P::average, P::minimum, P::multiply, P::maximum};
    P r{P{a, modes[i]}, P{b, modes[j]}}, s{P{b, modes[j]}, P{a, modes[i]}};
    int m = i > j ? i : j;
    sx::check("the mode of the highest priority is taken", r.mode == modes[m]);
    float w = r.value;
    bool nan = !(w == w);
    switch (m)
    {
    case 0: sx::check("average", (w == (a + b) / 2) | nan); break;
    case 1: sx::check("minimum", ((w == a) | (w == b)) & (w <= a) & (w <= b)); break;
    case 2: sx::check("product", (w == a * b) | nan); break;
    case 3: sx::check("maximum", ((w == a) | (w == b)) & (w >= a) & (w >= b)); break;
    }
    sx::check("the order does not matter", (w == s.value) | nan & !(s.value == s.value));
    bool finite = (a <= 1e30f) & (a >= -1e30f) & (b <= 1e30f) & (b >= -1e30f);
    sx::check("finite values combine to a number", !finite | !nan);
    sx::check("an average is between its values", !finite | (m != 0) | ((w >= a) & (w <= b)) | ((w <= a) & (w >= b)));
}
SX_HARNESS(single, "fp")
{
    float a = sx::fp("a");
    sx::assume(a == a);
    CombinableProperty p{a}, q{a, CombinableProperty::maximum};
    sx::check("a property averages unless told otherwise", p.mode == CombinableProperty::average);
    sx::check("value and mode are kept", (p.value == a) & (q.value == a) & (q.mode == CombinableProperty::maximum));
}
