// vs: path_s=100 timeout_ms=60000
//B 1x1..3x3 (thorough 4x4) with every entry arbitrary and nonzero leading minors; int and complex up to 2x2; 4x4..6x6 with an arbitrary row; exact arithmetic
//B also: 8..14 rows with structured elements (see the entries named large, larger, long, many, tall)
//A the decomposition does not pivot: every leading principal minor (except the last) is nonzero
//B classes: symmetric, skew, triangular, tridiagonal, diagonal, circulant, arrow, block, companion, rank one, Hessenberg, equal rows, antidiagonal matrices of 3..6 rows with two arbitrary elements
#include "common.hpp"
using malg::linalg::lu_decomposition;
template <typename T, typename L> void factors(const Arr<T> &a, const L &l, const L &u)
{
    size_t n = a.r;
    using R = std::remove_cv_t<std::remove_reference_t<decltype(l(0, 0))>>;
    VS_IEQ(l.rows(), n);
    VS_IEQ(l.cols(), n);
    VS_IEQ(u.rows(), n);
    VS_IEQ(u.cols(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            R s = R(0);
            for (size_t k = 0; k < n; ++k) s += l(i, k) * u(k, j);
            VS_SAME(s, R(a(i, j)));
            if (j > i) VS_SAME(R(l(i, j)), R(0));
            if (j < i) VS_SAME(R(u(i, j)), R(0));
            if (j == i) VS_SAME(R(u(i, j)), R(1));
        }
}
ENTRY(lu_d)
{
    size_t n = vs_size(1, VS_TIER(3, 4));
    Arr<double> a(n, n);
    vs_assume(a(0, 0) != 0);
    if (n > 2) vs_assume(a(0, 0) * a(1, 1) != a(0, 1) * a(1, 0));
    if (n > 3)
        vs_assume(a(0, 0) * (a(1, 1) * a(2, 2) - a(1, 2) * a(2, 1)) - a(0, 1) * (a(1, 0) * a(2, 2) - a(1, 2) * a(2, 0)) +
                      a(0, 2) * (a(1, 0) * a(2, 1) - a(1, 1) * a(2, 0)) != 0);
    const Matrix<double> A = mat(a);
    auto [l, u] = lu_decomposition(A);
    factors(a, l, u);
    SAME_MAT(A, a);
}
ENTRY(lu_row)
{
    size_t n = vs_size(4, VS_TIER(5, 6));
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) a(i, j) = i == j ? 7.0 + double(i) : double((i * i + 2 * j) % 5) - 2;
    for (size_t j = 0; j < n; ++j) a(n - 1, j) = vs_real();
    for (size_t i = 0; i < n; ++i) a(i, n - 1) = vs_real();
    auto [l, u] = lu_decomposition(mat(a));
    factors(a, l, u);
}
ENTRY(lu_i)
{
    size_t n = vs_size(1, 2);
    Arr<int> a(n, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = vs_int(-9, 9);
    vs_assume(a[0] != 0);
    auto [l, u] = lu_decomposition(mat(a));
    factors(a, l, u);
}
ENTRY(lu_c)
{
    size_t n = vs_size(1, 2);
    Arr<cd> a(n, n);
    vs_assume(a[0].real() != 0);
    auto [l, u] = lu_decomposition(mat(a));
    factors(a, l, u);
}
ENTRY(lu_view)
{
    Arr<double> a(3, 3), b(2, 2, false);
    size_t r = vs_size(0, 1), c = vs_size(0, 1);
    for (size_t i = 0; i < 4; ++i) b[i] = a(r + i / 2, c + i % 2);
    vs_assume(b[0] != 0);
    Matrix<double> A = mat(a);
    const Matrix<double> &K = A;
    auto [l, u] = lu_decomposition(A({ r, r + 2 }, { c, c + 2 }));
    factors(b, l, u);
    auto [l2, u2] = lu_decomposition(K({ r, r + 2 }, { c, c + 2 }));
    factors(b, l2, u2);
}
ENTRY(not_square)
{
    size_t r = vs_size(1, 4), c = vs_size(1, 4);
    if (r == c) return;
    Arr<double> a(r, c);
    VS_THROWS(std::invalid_argument, lu_decomposition(mat(a)));
}
ENTRY(lu_larger)
{
    size_t n = vs_size(8, VS_TIER(11, 14));
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) a(i, j) = i == j ? 16.0 + double(i) : double((i * i + 2 * j) % 5) - 2;
    a(n - 1, 0) = vs_real();
    a(0, n - 1) = vs_real();
    a(n - 1, n - 2) = vs_real();
    a(n - 1, n - 1) = vs_real();
    auto [l, u] = lu_decomposition(mat(a));
    factors(a, l, u);
}
// the minor of the first n rows and columns, over the set of remaining columns
static double minor_of(const Arr<double> &a, size_t n, size_t row = 0, unsigned used = 0)
{
    if (row == n) return 1;
    double s = 0;
    int sign = 1;
    for (size_t j = 0; j < n; ++j) {
        if (used >> j & 1) continue;
        s += sign * a(row, j) * minor_of(a, n, row + 1, used | 1u << j);
        sign = -sign;
    }
    return s;
}
ENTRY(classes)
{
    size_t kind = vs_size(0, CLASSES - 1);
    Arr<double> a = of_class<double>(kind, vs_size(5, VS_TIER(5, 6)), true);
    for (size_t n = 1; n < a.r; ++n) vs_assume(minor_of(a, n) != 0);
    auto [l, u] = lu_decomposition(mat(a));
    factors(a, l, u);
}
