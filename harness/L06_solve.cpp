// vs: path_s=100 timeout_ms=60000
//B square 1..3 with every entry arbitrary; overdetermined 2x1, 3x1, 3x2, 4x2 (rational first column); underdetermined 1x2..2x4 arbitrary; full rank; exact arithmetic
//B classes: symmetric, skew, triangular, tridiagonal, diagonal, circulant, arrow, block, companion, rank one, Hessenberg, equal rows, antidiagonal matrices of 3..6 rows with two arbitrary elements
#include "common.hpp"
using malg::linalg::determinant;
using malg::linalg::solve;
static double row(const Arr<double> &a, size_t i, const Vector<double> &x)
{
    double s = 0;
    for (size_t j = 0; j < a.c; ++j) s += a(i, j) * x[j];
    return s;
}
ENTRY(square)
{
    size_t n = vs_size(1, 3);
    Arr<double> a(n, n), b(n, 1);
    const Matrix<double> A = mat(a);
    const Vector<double> v = vec(b);
    vs_assume(determinant(A) != 0);
    Vector<double> x = solve(A, v);
    VS_IEQ(x.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(row(a, i, x), b[i]);
    SAME_MAT(A, a);
    SAME_VEC(v, b);
}
// no solution is made up for a singular matrix
ENTRY(singular)
{
    size_t n = vs_size(1, 3);
    Arr<double> a(n, n), b(n, 1);
    for (size_t i = 0; i < n; ++i) a(n - 1, i) = n == 1 ? 0 : 2 * a(0, i);
    size_t got = 0;
    try {
        got = solve(mat(a), vec(b)).size();
    } catch (const std::exception &) {
    }
    VS_IEQ(got, 0);
}
// least squares: the residual is orthogonal to every column
static void least_squares(const Arr<double> &a, const Arr<double> &b)
{
    Vector<double> x = solve(mat(a), vec(b));
    VS_IEQ(x.size(), a.c);
    for (size_t j = 0; j < a.c; ++j) {
        double s = 0;
        for (size_t i = 0; i < a.r; ++i) s += a(i, j) * (row(a, i, x) - b[i]);
        VS_EQ(s, 0.0);
    }
}
ENTRY(over_one)
{
    size_t m = vs_size(2, 3);
    Arr<double> a(m, 1), b(m, 1);
    vs_assume(a[m - 1] != 0);
    least_squares(a, b);
}
ENTRY(over_two)
{
    size_t k = vs_size(0, 2), m = vs_size(3, VS_TIER(3, 4));
    Arr<double> a(m, 2), b(m, 1);
    for (size_t i = 0; i < m; ++i) a(i, 0) = i > 2 ? 0 : k == 0 ? (i ? 2 : 1) : k == 1 ? (i == 0 ? -3 : i == 1 ? 0 : 4) : (i == 2 ? -5 : 0);
    if (k == 2) vs_assume(a(0, 1) != 0);
    else vs_assume(a(0, 1) == 2 && a(1, 1) != (k == 0 ? 4 : 0)); // the columns are independent
    least_squares(a, b);
}
// underdetermined: the solution of least norm, A x = b with x in the row space
ENTRY(under)
{
    size_t m = vs_size(1, 2), n = vs_size(m + 1, VS_TIER(3, 4));
    Arr<double> a(m, n), b(m, 1);
    double g = 0;
    if (m == 1) {
        for (size_t j = 0; j < n; ++j) g += a[j] * a[j];
    } else {
        double p = 0, q = 0, r = 0;
        for (size_t j = 0; j < n; ++j) {
            p += a(0, j) * a(0, j);
            q += a(1, j) * a(1, j);
            r += a(0, j) * a(1, j);
        }
        g = p * q - r * r;
    }
    vs_assume(g != 0);
    Vector<double> x = solve(mat(a), vec(b));
    VS_IEQ(x.size(), n);
    for (size_t i = 0; i < m; ++i) VS_EQ(row(a, i, x), b[i]);
    // orthogonal to the kernel of A
    if (m == 1)
        for (size_t j = 0; j + 1 < n; ++j) VS_EQ(a[j] * x[j + 1], a[j + 1] * x[j]);
    else if (n == 3) {
        double k0 = a(0, 1) * a(1, 2) - a(0, 2) * a(1, 1), k1 = a(0, 2) * a(1, 0) - a(0, 0) * a(1, 2), k2 = a(0, 0) * a(1, 1) - a(0, 1) * a(1, 0);
        VS_EQ(k0 * x[0] + k1 * x[1] + k2 * x[2], 0.0);
    }
}
ENTRY(solve_int)
{
    Arr<int> a(2, 2, false), b(2, 1, false);
    for (size_t i = 0; i < 4; ++i) a[i] = vs_int(-9, 9);
    for (size_t i = 0; i < 2; ++i) b[i] = vs_int(-9, 9);
    vs_assume(a[0] * a[3] != a[1] * a[2]);
    Vector<double> x = solve(mat(a), vec(b));
    VS_EQ(a[0] * x[0] + a[1] * x[1], double(b[0]));
    VS_EQ(a[2] * x[0] + a[3] * x[1], double(b[1]));
}
ENTRY(classes)
{
    size_t kind = vs_size(0, CLASSES - 1), n = vs_size(4, 5);
    Arr<double> a = of_class<double>(kind, n, true), b(n, 1, false);
    for (size_t i = 0; i < n; ++i) b[i] = double(i) - 1;
    b[n - 1] = vs_real();
    const Matrix<double> A = mat(a);
    vs_assume(determinant(A) != 0);
    Vector<double> x = solve(A, vec(b));
    VS_IEQ(x.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(row(a, i, x), b[i]);
}
