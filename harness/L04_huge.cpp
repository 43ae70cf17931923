// vs: path_s=100 timeout_ms=60000 steps=20000000
//B also, far beyond the other bounds with a few arbitrary elements: banded and arrow-shaped matrices with 20 and 34 rows
#include "common.hpp"
using malg::linalg::lu_decomposition;
ENTRY(huge)
{
    size_t n = vs_bool() ? 34 : 20;
    bool band = vs_bool();
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i) {
        a(i, i) = 2;
        if (band) {
            if (i) a(i, i - 1) = 2;
            if (i > 1) a(i, i - 2) = i % 2 ? -1 : 1;
            if (i + 1 < n) a(i, i + 1) = i == 0 ? 1 : 0;
        } else {
            if (i) a(i, 0) = i % 2 ? 1 : -1;
            a(i, n - 1) = i + 1 < n ? double(i % 3) : vs_real();
        }
    }
    a(n - 1, 1) = vs_real();
    a(0, n - 1) = vs_real();
    const Matrix<double> A = mat(a);
    auto [l, u] = lu_decomposition(A);
    VS_IEQ(l.rows(), n);
    VS_IEQ(l.cols(), n);
    VS_IEQ(u.rows(), n);
    VS_IEQ(u.cols(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double s = 0;
            for (size_t k = 0; k < n; ++k) s += l(i, k) * u(k, j);
            VS_EQ(s, a(i, j));
            if (j > i) VS_EQ(l(i, j), 0.0);
            if (j < i) VS_EQ(u(i, j), 0.0);
            if (j == i) VS_EQ(u(i, j), 1.0);
        }
    SAME_MAT(A, a);
}
