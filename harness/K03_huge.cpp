// vs: path_s=200 timeout_ms=30000 steps=80000000
//B also, far beyond the other bounds with a few arbitrary elements: companion form with 10 and 12 states, an arbitrary coefficient and an arbitrary pole
#include "common.hpp"
#include <malg/control/control.hpp>
using malg::control::acker;
ENTRY(huge)
{
    size_t n = vs_bool() ? 12 : 10;
    Arr<double> a(n, n, false), b(n, 1, false), p(1, n, false), c(1, n + 1, false);
    for (size_t i = 0; i + 1 < n; ++i) a(i, i + 1) = 1;
    for (size_t j = 0; j < n; ++j) a(n - 1, j) = j % 4 ? 0.0 : double(j % 3) - 1.5;
    a(n - 1, 0) = vs_real();
    b[n - 1] = vs_bool() ? -1 : 2;
    for (size_t j = 0; j < n; ++j) p[j] = double(j % 3) - 1;
    p[n - 1] = vs_real();
    c[0] = 1;
    for (size_t j = 0; j < n; ++j)
        for (size_t i = j + 1; i > 0; --i) c[i] -= p[j] * c[i - 1];
    auto K = acker(mat(a), mat(b), mat(p));
    VS_IEQ(K.rows(), 1);
    VS_IEQ(K.cols(), n);
    for (size_t j = 0; j < n; ++j) VS_EQ(K(0, j) * b[n - 1], a(n - 1, j) + c[n - j]);
}
