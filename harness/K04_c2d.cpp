// vs: path_s=60 timeout_ms=20000
//B scalar systems with arbitrary entries and |a h| in (0, 1]; 2-state systems: nilpotent part arbitrary with h in (0, 2], diagonal with fixed a h and arbitrary B; B, C, D arbitrary with 1..2 inputs and outputs; exact arithmetic
//A the state matrix is nonsingular
#include "common.hpp"
#include <malg/control/control.hpp>
using namespace malg::control;
static void discretised(const Arr<double> &a, const Arr<double> &b, const Arr<double> &c, const Arr<double> &d, double h)
{
    size_t n = a.r;
    const StateSpace<double> s(mat(a), mat(b), mat(c), mat(d));
    auto z = c2d(s, h);
    VS_EQ(z.sample_time, h);
    SAME_MAT(z.C, c);
    SAME_MAT(z.D, d);
    SAME_MAT(s.A, a);
    SAME_MAT(s.B, b);
    SAME_MAT(s.C, c);
    SAME_MAT(s.D, d);
    VS_IEQ(z.A.rows(), n);
    VS_IEQ(z.A.cols(), n);
    VS_IEQ(z.B.rows(), n);
    VS_IEQ(z.B.cols(), b.c);
    // A Bd = (Ad - I) B
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            double l = 0, r = 0;
            for (size_t k = 0; k < n; ++k) {
                l += a(i, k) * z.B(k, j);
                r += (z.A(i, k) - (i == k ? 1 : 0)) * b(k, j);
            }
            VS_EQ(l, r);
        }
    // Ad = exp(A h), Taylor polynomial of degree 12
    Arr<double> t(n, n, false), p(n, n, false);
    for (size_t i = 0; i < n; ++i) t(i, i) = p(i, i) = 1;
    for (size_t k = 1; k <= 12; ++k) {
        Arr<double> q(n, n, false);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                for (size_t l = 0; l < n; ++l) q(i, j) += p(i, l) * a(l, j) * h / double(k);
                t(i, j) += q(i, j);
            }
        p = q;
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            VS_ASSERT(z.A(i, j) - t(i, j) <= 1e-3);
            VS_ASSERT(t(i, j) - z.A(i, j) <= 1e-3);
        }
}
ENTRY(scalar)
{
    // a arbitrary in [-1,1] but zero, h one of three
    size_t m = vs_size(1, 2), k = vs_size(0, 2), neg = vs_size(0, 1);
    Arr<double> a(1, 1, false), b(1, m), c(m, 1), d(m, m);
    a[0] = neg ? vs_real_in(-1, -0.001) : vs_real_in(0.001, 1);
    discretised(a, b, c, d, k == 0 ? 1 : k == 1 ? 0.5 : 0.125);
}
ENTRY(two)
{
    size_t m = vs_size(1, 2), q = vs_size(1, 2), k = vs_size(0, 3);
    Arr<double> a(2, 2, false), b(2, m), c(q, 2), d(q, m);
    double h = 0.25;
    if (k == 0) a[0] = -1, a[3] = -2;
    if (k == 1) a[1] = 1, a[2] = -1;
    if (k == 2) a[1] = 1, a[2] = -2, a[3] = -3, h = 0.1;
    if (k == 3) a[0] = 2, a[1] = 4, a[3] = 1, h = 1;
    discretised(a, b, c, d, h);
}
