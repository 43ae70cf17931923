// vs: path_s=100 timeout_ms=20000 steps=40000000
//B also: diagonal systems with 4 and 6 states and 5 inputs and outputs, B, C, D arbitrary
//A the state matrix is nonsingular
#include "common.hpp"
#include <malg/control/control.hpp>
using namespace malg::control;
ENTRY(huge)
{
    size_t n = vs_bool() ? 6 : 4, m = vs_bool() ? 5 : 1, q = 5;
    double h = 0.25;
    Arr<double> a(n, n, false), b(n, m), c(q, n), d(q, m);
    for (size_t i = 0; i < n; ++i) a(i, i) = i % 3 == 0 ? -1 : i % 3 == 1 ? 2 : -0.5;
    auto z = c2d(StateSpace<double>(mat(a), mat(b), mat(c), mat(d)), h);
    VS_EQ(z.sample_time, h);
    SAME_MAT(z.C, c);
    SAME_MAT(z.D, d);
    VS_IEQ(z.A.rows(), n);
    VS_IEQ(z.A.cols(), n);
    VS_IEQ(z.B.rows(), n);
    VS_IEQ(z.B.cols(), m);
    for (size_t i = 0; i < n; ++i) {
        double t = 1, p = 1;
        for (size_t k = 1; k <= 12; ++k) {
            p *= a(i, i) * h / double(k);
            t += p;
        }
        for (size_t j = 0; j < n; ++j) {
            double e = i == j ? t : 0;
            VS_ASSERT(z.A(i, j) - e <= 1e-3);
            VS_ASSERT(e - z.A(i, j) <= 1e-3);
        }
        for (size_t j = 0; j < m; ++j) {
            double r = 0;
            for (size_t k = 0; k < n; ++k) r += (z.A(i, k) - (i == k ? 1 : 0)) * b(k, j);
            VS_EQ(a(i, i) * z.B(i, j), r);
        }
    }
}
