//B also, far beyond the other bounds with a few arbitrary elements: linspace with 130 and 300 points, logspace with 70
#include "common.hpp"
namespace u = malg::utility;
ENTRY(huge_lin)
{
    size_t n = vs_bool() ? 300 : 130;
    double a = vs_real(), b = vs_real();
    vs_assume(b - a > 1 || a - b > 1);
    vs_assume(a > 0 && b > 0 && a < 10 && b < 10);
    Vector<double> v = u::linspace(a, b, (unsigned)n);
    VS_IEQ(v.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(v[i], a + (b - a) * double(i) / double(n - 1));
}
ENTRY(huge_log)
{
    size_t n = 70;
    double a = vs_real(), b = vs_real();
    vs_assume(b - a > 1 || a - b > 1);
    vs_assume(a > 0 && b > 0 && a < 10 && b < 10);
    Vector<double> v = u::logspace(a, b, n);
    VS_IEQ(v.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(v[i], std::pow(10.0, a + (b - a) * double(i) / double(n - 1)));
}
