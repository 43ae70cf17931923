// vs: path_s=100 timeout_ms=60000 steps=40000000
//B also, far beyond the other bounds with a few arbitrary elements: permuted scalings of 20x20, 34x3, 3x34 and 17x16 with some arbitrary elements
#include "common.hpp"
using malg::linalg::qr_decomposition;
ENTRY(huge)
{
    static const size_t S[][2] = { { 20, 20 }, { 34, 3 }, { 3, 34 }, { 17, 16 } };
    size_t w = vs_size(0, 3), m = S[w][0], n = S[w][1], s = vs_size(0, 1) * 3;
    Arr<double> a(m, n, false);
    for (size_t j = 0; j < n; ++j)
        for (size_t i = 0; i < m; ++i) a(i, j) = (i + s) % m == j ? (j % 2 ? -2.0 : 3.0) : i > j + m ? 1.0 : 0.0;
    size_t k = m < n ? m - 1 : n - 1;
    for (size_t i = 0; i < m; ++i)
        if (i % 7 == 0) a(i, k) = vs_real();
    if (n > m) a(1, n - 1) = vs_real();
    const Matrix<double> A = mat(a);
    auto [q, r] = qr_decomposition(A);
    VS_IEQ(q.rows(), m);
    VS_IEQ(q.cols(), m);
    VS_IEQ(r.rows(), m);
    VS_IEQ(r.cols(), n);
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < m; ++j) {
            double t = 0;
            for (size_t l = 0; l < m; ++l) t += q(l, i) * q(l, j);
            VS_EQ(t, i == j ? 1.0 : 0.0);
        }
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < n; ++j) {
            double t = 0;
            for (size_t l = 0; l < m; ++l) t += q(i, l) * r(l, j);
            VS_EQ(t, a(i, j));
            if (j < i) VS_EQ(r(i, j), 0.0);
        }
    SAME_MAT(A, a);
}
