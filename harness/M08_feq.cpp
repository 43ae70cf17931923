// vs: mode=fp timeout_ms=60000
//B every pair of IEEE-754 doubles (NaN, infinities, zeros and subnormals included); default tolerance 1e-6 unless set
#include "common.hpp"
#include <malg/feq.hpp>
using namespace malg::feq;
static bool fin(double x) { return x - x == 0; }
ENTRY(reflexive)
{
    double a = vs_fp();
    VS_ASSERT(approximately_equal(a, a) == (a == a));
    VS_ASSERT(approximately_lesser_than_equal(a, a) == (a == a));
    VS_ASSERT(approximately_greater_than_equal(a, a) == (a == a));
}
// one value from a list, the other one arbitrary
static const double LIST[] = { 1.0, 3.0, 1e-5, -0.1, 7e200, 2.5e-308 };
ENTRY(symmetric)
{
    double a = LIST[vs_size(0, 5)], b = vs_fp();
    VS_ASSERT(approximately_equal(a, b) == approximately_equal(b, a));
}
ENTRY(exact)
{
    double a = vs_fp(), b = vs_fp();
    vs_assume(a == b);
    VS_ASSERT(approximately_equal(a, b));
}
ENTRY(nan)
{
    double a = vs_fp(), b = vs_fp();
    vs_assume(a != a || b != b);
    VS_ASSERT(!approximately_equal(a, b));
    VS_ASSERT(!approximately_lesser_than_equal(a, b));
    VS_ASSERT(!approximately_greater_than_equal(a, b));
}
ENTRY(infinite)
{
    double a = vs_fp(), b = vs_fp();
    vs_assume(!fin(a) && a == a && b == b && a != b);
    VS_ASSERT(!approximately_equal(a, b));
    VS_ASSERT(!approximately_equal(b, a));
    VS_ASSERT(!approximately_equal_to_zero(a));
}
ENTRY(zero)
{
    double a = vs_fp();
    VS_ASSERT(approximately_equal_to_zero(0.0));
    VS_ASSERT(approximately_equal_to_zero(-0.0));
    vs_assume(a != 0 && (a > 1e-300 || a < -1e-300 || a != a));
    VS_ASSERT(!approximately_equal_to_zero(a));
    VS_ASSERT(!approximately_equal(a, 0.0));
    VS_ASSERT(!approximately_equal(0.0, a));
}
ENTRY(opposite)
{
    double a = vs_fp(), b = vs_fp();
    vs_assume(a > 1e-300 && b < -1e-300);
    VS_ASSERT(!approximately_equal(a, b));
    VS_ASSERT(!approximately_lesser_than_equal(a, b));
    VS_ASSERT(approximately_greater_than_equal(a, b));
    VS_ASSERT(approximately_lesser_than_equal(b, a));
}
// the order relations are the strict order or the approximate equality
ENTRY(order)
{
    double a = vs_fp(), b = vs_fp();
    vs_assume(a == a && b == b);
    bool e = approximately_equal(a, b);
    VS_ASSERT(approximately_lesser_than_equal(a, b) == ((a < b) || e));
    VS_ASSERT(approximately_greater_than_equal(a, b) == ((a > b) || e));
    VS_ASSERT(approximately_lesser_than_equal(a, b) || approximately_greater_than_equal(a, b));
}
// relative distance below/above the tolerance, clear of rounding
ENTRY(close)
{
    double a = LIST[vs_size(0, 4)], b = vs_fp(), m = a < 0 ? -a : a;
    vs_assume(b >= a && b - a <= m * 9.9e-7);
    VS_ASSERT(approximately_equal(a, b));
    VS_ASSERT(approximately_equal(b, a));
    VS_ASSERT(approximately_equal(-a, -b));
}
ENTRY(apart)
{
    double a = LIST[vs_size(0, 4)], b = vs_fp(), m = a < 0 ? -a : a;
    vs_assume(b >= a + m * 1.01e-6 || b <= a - m * 1.01e-6);
    VS_ASSERT(!approximately_equal(a, b));
    VS_ASSERT(!approximately_equal(b, a));
    VS_ASSERT(!approximately_equal(-a, -b));
}
// the tolerance is the one which was set
ENTRY(tolerance)
{
    double a = LIST[vs_size(0, 4)], b = vs_fp(), m = a < 0 ? -a : a;
    vs_assume(b > a);
    tolerance() = 1e-3;
    if (b - a <= m * 0.99e-3) VS_ASSERT(approximately_equal(a, b));
    if (b - a >= m * 1.02e-3) VS_ASSERT(!approximately_equal(a, b));
    tolerance() = 0;
    VS_ASSERT(!approximately_equal(a, b));
}
