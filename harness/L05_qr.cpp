// vs: path_s=100 timeout_ms=60000
//B 1x1..3x2, 2x3 with every entry arbitrary; larger shapes (up to 4x4, 5x3, 3x5) with structured columns; exact arithmetic with exact square roots
//B also: structured matrices up to 11 rows (see the entries named large, larger, long, many, tall)
#include "common.hpp"
using malg::linalg::qr_decomposition;
template <typename M> void factors(const Arr<double> &a, const M &q, const M &r)
{
    size_t m = a.r, n = a.c;
    VS_IEQ(q.rows(), m);
    VS_IEQ(q.cols(), m);
    VS_IEQ(r.rows(), m);
    VS_IEQ(r.cols(), n);
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < m; ++j) {
            double s = 0, t = 0;
            for (size_t k = 0; k < m; ++k) {
                s += q(i, k) * q(j, k);
                t += q(k, i) * q(k, j);
            }
            VS_EQ(s, i == j ? 1.0 : 0.0);
            VS_EQ(t, i == j ? 1.0 : 0.0);
        }
    for (size_t i = 0; i < m; ++i)
        for (size_t j = 0; j < n; ++j) {
            double s = 0;
            for (size_t k = 0; k < m; ++k) s += q(i, k) * r(k, j);
            VS_EQ(s, a(i, j));
            if (j < i) VS_EQ(r(i, j), 0.0);
        }
}
ENTRY(qr_two)
{
    size_t m = vs_size(1, 2), n = vs_size(1, 3);
    Arr<double> a(m, n);
    const Matrix<double> A = mat(a);
    auto [q, r] = qr_decomposition(A);
    factors(a, q, r);
    SAME_MAT(A, a);
}
ENTRY(qr_column)
{
    size_t m = vs_size(1, 4);
    Arr<double> a(m, 1);
    auto [q, r] = qr_decomposition(mat(a));
    factors(a, q, r);
}
// first columns with rational reflections, the next ones arbitrary
static const double PY[5][4] = { { 1, 2, 2, 0 }, { -3, 0, 4, 0 }, { 0, 0, 0, 0 }, { 0, 3, -4, 0 }, { 0, -5, 0, 0 } };
ENTRY(qr_next)
{
    size_t k = vs_size(0, 4), n = vs_size(2, 4);
    Arr<double> a(3, n);
    for (size_t i = 0; i < 3; ++i) a(i, 0) = PY[k][i];
    if (n == 4)
        for (size_t i = 0; i < 3; ++i) a(i, 1) = PY[(k + 2) % 5][i];
    auto [q, r] = qr_decomposition(mat(a));
    factors(a, q, r);
}
ENTRY(qr_tall)
{
    size_t m = vs_size(4, 5);
    Arr<double> a(m, 3, false);
    a(0, 0) = 3;
    a(m - 1, 0) = 4;
    a(1, 1) = vs_bool() ? 0 : -2;
    for (size_t i = 0; i < m; ++i) a(i, 2) = vs_real();
    auto [q, r] = qr_decomposition(mat(a));
    factors(a, q, r);
}
ENTRY(qr_wide)
{
    size_t n = vs_size(3, 5);
    Arr<double> a(2, n);
    auto [q, r] = qr_decomposition(mat(a));
    factors(a, q, r);
}
ENTRY(qr_int)
{
    Arr<int> a(2, 2, false);
    Arr<double> d(2, 2, false);
    for (size_t i = 0; i < 4; ++i) d[i] = a[i] = vs_int(-9, 9);
    auto [q, r] = qr_decomposition(mat(a));
    factors(d, q, r);
}
// larger: the columns of a permuted scaling, whose reflections are rational, then an arbitrary one
ENTRY(qr_larger)
{
    static const size_t S[][2] = { { 9, 3 }, { 9, 9 }, { 3, 10 }, { 11, 2 } };
    size_t w = vs_size(0, 3), m = S[w][0], n = S[w][1], s = vs_size(0, 2);
    Arr<double> a(m, n, false);
    for (size_t j = 0; j < n; ++j)
        for (size_t i = 0; i < m; ++i) a(i, j) = (i + s) % m == j ? (j % 2 ? -2.0 : 3.0) : i > j + m ? 1.0 : 0.0;
    size_t k = m < n ? m - 1 : n - 1;
    for (size_t i = 0; i < m; ++i)
        if (i % 4 == 0) a(i, k) = vs_real();
    if (n > m) a(1, n - 1) = vs_real();
    auto [q, r] = qr_decomposition(mat(a));
    factors(a, q, r);
}
