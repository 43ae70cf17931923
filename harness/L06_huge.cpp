// vs: path_s=100 timeout_ms=60000 steps=40000000
//B also, far beyond the other bounds with a few arbitrary elements: square 8x8, 12x12 and 17x17 systems, 20x3 overdetermined and 3x20 underdetermined ones, structured, every element of the right-hand side arbitrary
#include "common.hpp"
using malg::linalg::solve;
static double row(const Arr<double> &a, size_t i, const Vector<double> &x)
{
    double s = 0;
    for (size_t j = 0; j < a.c; ++j) s += a(i, j) * x[j];
    return s;
}
ENTRY(huge_square)
{
    size_t w = vs_size(0, 2), n = w == 0 ? 8 : w == 1 ? 12 : 17, s = vs_bool() ? 5 : 0;
    Arr<double> a(n, n, false), b(n, 1);
    for (size_t i = 0; i < n; ++i) {
        a(i, (i + s) % n) = i % 2 ? 2.0 : -0.5;
        if (i + 1 < n) a(i, (i + 1 + s) % n) = double(i % 3);
    }
    a(0, (n - 1 + s) % n) = vs_real();
    const Matrix<double> A = mat(a);
    Vector<double> x = solve(A, vec(b));
    VS_IEQ(x.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(row(a, i, x), b[i]);
    SAME_MAT(A, a);
}
ENTRY(huge_over)
{
    size_t m = 20, n = 3;
    Arr<double> a(m, n, false), b(m, 1);
    a(2, 0) = 3;
    a(19, 0) = -4;
    a(7, 1) = -2;
    a(11, 2) = 5;
    a(12, 2) = 12;
    a(2, 1) = vs_bool() ? 0 : 3;
    a(19, 1) = a(2, 1) == 0 ? 0.0 : -4.0;
    Vector<double> x = solve(mat(a), vec(b));
    VS_IEQ(x.size(), n);
    for (size_t j = 0; j < n; ++j) {
        double s = 0;
        for (size_t i = 0; i < m; ++i) s += a(i, j) * (row(a, i, x) - b[i]);
        VS_EQ(s, 0.0);
    }
}
ENTRY(huge_under)
{
    size_t m = 3, n = 20;
    Arr<double> a(m, n, false), b(m, 1);
    a(0, 2) = 3;
    a(0, 19) = -4;
    a(1, 7) = -2;
    a(2, 11) = 5;
    a(2, 12) = 12;
    Vector<double> x = solve(mat(a), vec(b));
    VS_IEQ(x.size(), n);
    for (size_t i = 0; i < m; ++i) VS_EQ(row(a, i, x), b[i]);
    // in the row space of A
    for (size_t j = 0; j < n; ++j)
        if (j != 2 && j != 19 && j != 7 && j != 11 && j != 12) VS_EQ(x[j], 0.0);
    VS_EQ(x[2] * -4, x[19] * 3);
    VS_EQ(x[11] * 12, x[12] * 5);
}
