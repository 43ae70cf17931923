//B counts 0..6, 12 and 33 with arbitrary real end points; logspace counts 0..5, 12, 13, 21, 22; exact arithmetic; 10^x, b^x as an uninterpreted function of (b,x)
#include "common.hpp"
namespace u = malg::utility;
ENTRY(linspace)
{
    size_t n = sizes(0, 6, 12, 33);
    double a = vs_real(), b = vs_real();
    Vector<double> v = u::linspace(a, b, (unsigned)n);
    VS_IEQ(v.size(), n);
    if (n == 0) return;
    if (n == 1) {
        VS_EQ(v[0], b);
        return;
    }
    VS_EQ(v[n - 1], b);
    // evenly spaced, unless the end points are the same number up to the comparison tolerance
    bool close = malg::feq::approximately_equal(a, b);
    if (close) {
        for (size_t i = 0; i < n; ++i) VS_ASSERT(malg::feq::approximately_equal(v[i], b));
        return;
    }
    VS_EQ(v[0], a);
    for (size_t i = 0; i < n; ++i) VS_EQ(v[i], a + (b - a) * double(i) / double(n - 1));
}
ENTRY(linspace_same)
{
    size_t n = vs_size(1, 6);
    double a = vs_real();
    Vector<double> v = u::linspace(a, a, (unsigned)n);
    VS_IEQ(v.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(v[i], a);
}
ENTRY(linspace_default)
{
    double a = vs_real(), b = vs_real();
    vs_assume(b > a + 1 && a > 0 && a < 10 && b < 20);
    Vector<double> v = u::linspace(a, b);
    VS_IEQ(v.size(), 100);
    for (size_t i = 0; i < 100; ++i) VS_EQ(v[i], a + (b - a) * double(i) / 99.0);
}
// integer sequences with a whole step are exact in both directions
ENTRY(linspace_int)
{
    size_t n = vs_size(1, 6);
    int a = vs_int(-1000, 1000), s = vs_int(-50, 50);
    int b           = a + s * int(n - 1);
    Vector<int> v = u::linspace(a, b, (unsigned)n);
    VS_IEQ(v.size(), n);
    if (n == 1) {
        VS_IEQ(v[0], b);
        return;
    }
    for (size_t i = 0; i < n; ++i) VS_IEQ(v[i], a + s * int(i));
}
ENTRY(logspace)
{
    size_t n = sizes(0, 5, 13, 22);
    double a = vs_real(), b = vs_real();
    Vector<double> v = u::logspace(a, b, n);
    VS_IEQ(v.size(), n);
    if (n == 0) return;
    if (n == 1) {
        VS_EQ(v[0], std::pow(10.0, b));
        return;
    }
    if (malg::feq::approximately_equal(a, b)) {
        for (size_t i = 0; i < n; ++i) VS_EQ(v[i], std::pow(10.0, b));
        return;
    }
    for (size_t i = 0; i < n; ++i) VS_EQ(v[i], std::pow(10.0, a + (b - a) * double(i) / double(n - 1)));
}
ENTRY(logspace_base)
{
    size_t n = sizes(0, 5, 12, 21);
    double a = vs_real(), b = vs_real(), e = vs_real();
    vs_assume(e > 1);
    Vector<double> v = u::logspace(a, b, n, e);
    VS_IEQ(v.size(), n);
    if (n == 0) return;
    if (n == 1) {
        VS_EQ(v[0], std::pow(e, b));
        return;
    }
    if (malg::feq::approximately_equal(a, b)) return;
    for (size_t i = 0; i < n; ++i) VS_EQ(v[i], std::pow(e, a + (b - a) * double(i) / double(n - 1)));
}
ENTRY(logspace_default)
{
    double a = vs_real(), b = vs_real();
    vs_assume(b > a + 1 && a > 0 && a < 10 && b < 20);
    Vector<double> v = u::logspace(a, b), w = u::logspace(b, a);
    VS_IEQ(v.size(), 50);
    VS_IEQ(w.size(), 50);
    for (size_t i = 0; i < 50; ++i) {
        VS_EQ(v[i], std::pow(10.0, a + (b - a) * double(i) / 49.0));
        VS_EQ(w[i], std::pow(10.0, b - (b - a) * double(i) / 49.0));
    }
}
