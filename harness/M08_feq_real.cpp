//B every pair of real numbers (exact arithmetic), every pair of ints in -1000..1000, complex pairs
#include "common.hpp"
#include <malg/feq.hpp>
using namespace malg::feq;
static double mag(double x) { return x < 0 ? -x : x; }
static double top(double x, double y) { return x > y ? x : y; }
ENTRY(definition)
{
    double a = vs_real(), b = vs_real();
    bool want = mag(a - b) <= 1e-6 * top(mag(a), mag(b));
    VS_IEQ(approximately_equal(a, b), want);
    VS_IEQ(approximately_equal(b, a), want);
    VS_IEQ(approximately_lesser_than_equal(a, b), want || a < b);
    VS_IEQ(approximately_greater_than_equal(a, b), want || a > b);
    VS_IEQ(approximately_equal_to_zero(a), a == 0);
}
ENTRY(any_tolerance)
{
    double a = vs_real(), b = vs_real(), t = vs_real();
    vs_assume(t >= 0 && t < 1);
    tolerance() = t;
    VS_IEQ(approximately_equal(a, b), mag(a - b) <= t * top(mag(a), mag(b)));
    VS_IEQ(approximately_equal_to_zero(a), a == 0);
}
ENTRY(mixed)
{
    int i = vs_int(-1000, 1000);
    double b = vs_real();
    bool want = mag(i - b) <= 1e-6 * top(mag(i), mag(b));
    VS_IEQ(approximately_equal(i, b), want);
    VS_IEQ(approximately_equal(b, i), want);
    VS_IEQ(approximately_lesser_than_equal(i, b), want || i < b);
}
ENTRY(complex_zero)
{
    cd z = vs_any<cd>();
    VS_IEQ(approximately_equal_to_zero(z), z.real() == 0 && z.imag() == 0);
    VS_ASSERT(approximately_equal(z, z));
}
