// vs: path_s=100 timeout_ms=60000
//B cofactor 1..5; adjoint and inverse 1x1..4x4 with every entry arbitrary; complex up to 2x2, int up to 3x3; exact arithmetic
//B also: cofactor of 2x10, 11x2, 11x10; inverse of 9x9 permutation-like matrices (see the entries named large, larger, long, many, tall)
//B classes: symmetric, skew, triangular, tridiagonal, diagonal, circulant, arrow, block, companion, rank one, Hessenberg, equal rows, antidiagonal matrices of 3..6 rows with two arbitrary elements
#include "common.hpp"
using namespace malg::linalg;
static void one_cofactor(size_t r, size_t c, size_t p, size_t q)
{
    Arr<double> a(r, c), e(r - 1, c - 1, false);
    for (size_t i = 0, x = 0; i < r; ++i) {
        if (i == p) continue;
        for (size_t j = 0, y = 0; j < c; ++j)
            if (j != q) e(x, y++) = a(i, j);
        ++x;
    }
    const Matrix<double> A = mat(a);
    SAME_MAT(malg::linalg::cofactor(A, p, q), e);
    SAME_MAT(A, a);
}
ENTRY(cofactor)
{
    size_t r = vs_size(1, 5), c = vs_size(1, 5), p = vs_size(0, r - 1), q = vs_size(0, c - 1);
    one_cofactor(r, c, p, q);
}
ENTRY(cofactor_larger)
{
    size_t k = vs_size(0, 2), r = k == 0 ? 2 : 11, c = k == 1 ? 2 : 10, p = vs_size(0, 2), q = vs_size(0, 2);
    one_cofactor(r, c, p == 0 ? 0 : p == 1 ? r / 2 : r - 1, q == 0 ? 0 : q == 1 ? c / 2 : c - 1);
}
// A adj(A) = adj(A) A = det(A) I
template <typename T> void check_adjoint(size_t n)
{
    Arr<T> a(n, n);
    const Matrix<T> A = mat(a);
    auto J = adjoint(A);
    T d = determinant(A);
    VS_IEQ(J.rows(), n);
    VS_IEQ(J.cols(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            T s = T(0), t = T(0);
            for (size_t k = 0; k < n; ++k) {
                s += a(i, k) * J(k, j);
                t += J(i, k) * a(k, j);
            }
            VS_SAME(s, (i == j ? d : T(0)));
            VS_SAME(t, (i == j ? d : T(0)));
        }
    SAME_MAT(A, a);
}
ENTRY(adjoint_d) { check_adjoint<double>(vs_size(1, 4)); }
ENTRY(adjoint_c) { check_adjoint<cd>(vs_size(1, 2)); }
ENTRY(adjoint_i) { check_adjoint<int>(vs_size(1, 2)); }
// A inverse(A) = inverse(A) A = I, and no inverse exactly when the determinant is zero
ENTRY(inverse_d)
{
    size_t n = vs_size(1, VS_TIER(3, 4));
    Arr<double> a(n, n);
    const Matrix<double> A = mat(a);
    double d = determinant(A);
    Matrix<double> X = inverse(A);
    if (d == 0) {
        VS_IEQ(X.size(), 0);
        return;
    }
    VS_IEQ(X.rows(), n);
    VS_IEQ(X.cols(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double s = 0, t = 0;
            for (size_t k = 0; k < n; ++k) {
                s += a(i, k) * X(k, j);
                t += X(i, k) * a(k, j);
            }
            VS_EQ(s, i == j ? 1.0 : 0.0);
            VS_EQ(t, i == j ? 1.0 : 0.0);
        }
    SAME_MAT(A, a);
}
ENTRY(inverse_i)
{
    size_t n = vs_size(1, 2);
    Arr<int> a(n, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = vs_int(-9, 9);
    const Matrix<int> A = mat(a);
    int d = determinant(A);
    Matrix<double> X = inverse(A);
    if (d == 0) {
        VS_IEQ(X.size(), 0);
        return;
    }
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double s = 0;
            for (size_t k = 0; k < n; ++k) s += a(i, k) * X(k, j);
            VS_EQ(s, i == j ? 1.0 : 0.0);
        }
}
ENTRY(inverse_c)
{
    size_t n = vs_size(1, 2);
    Arr<cd> a(n, n);
    cd d = n == 1 ? a[0] : a[0] * a[3] - a[1] * a[2];
    Matrix<cd> X = inverse(mat(a));
    if (d.real() == 0 && d.imag() == 0) {
        VS_IEQ(X.size(), 0);
        return;
    }
    VS_IEQ(X.size(), n * n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            cd s = 0;
            for (size_t k = 0; k < n; ++k) s += a(i, k) * X(k, j);
            VS_CEQ(s, cd(i == j ? 1.0 : 0.0));
        }
}
// 5x5 and 6x6: an arbitrary triangular/permuted pattern
ENTRY(inverse_permuted)
{
    size_t n = vs_size(0, 1) ? 9 : 5, s = vs_size(0, n - 1);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i) {
        a(i, (i + s) % n) = vs_real();
        vs_assume(a(i, (i + s) % n) != 0);
    }
    a(0, (1 + s) % n) = vs_real();
    Matrix<double> X = inverse(mat(a));
    VS_IEQ(X.rows(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double t = 0;
            for (size_t k = 0; k < n; ++k) t += a(i, k) * X(k, j);
            VS_EQ(t, i == j ? 1.0 : 0.0);
        }
}
// division by a matrix: div(A, B) B = A
ENTRY(div)
{
    size_t r = vs_size(1, 3), n = vs_size(1, VS_TIER(2, 3));
    Arr<double> a(r, n), b(n, n);
    const Matrix<double> A = mat(a), B = mat(b);
    vs_assume(determinant(B) != 0);
    Matrix<double> Q = malg::linalg::div(A, B);
    VS_IEQ(Q.rows(), r);
    VS_IEQ(Q.cols(), n);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < n; ++j) {
            double s = 0;
            for (size_t k = 0; k < n; ++k) s += Q(i, k) * b(k, j);
            VS_EQ(s, a(i, j));
        }
    SAME_MAT(A, a);
    SAME_MAT(B, b);
}
ENTRY(not_square)
{
    size_t r = vs_size(1, 4), c = vs_size(1, 4);
    if (r == c) return;
    Arr<double> a(r, c);
    VS_THROWS(std::invalid_argument, inverse(mat(a)));
    VS_THROWS(std::invalid_argument, adjoint(mat(a)));
    VS_THROWS(std::invalid_argument, determinant(mat(a)));
}
template <typename T> static void inverse_of(const Arr<T> &a)
{
    size_t n = a.r;
    const Matrix<T> A = mat(a);
    auto X = inverse(A);
    if (determinant(A) == T(0)) {
        VS_IEQ(X.size(), 0);
        return;
    }
    VS_IEQ(X.rows(), n);
    VS_IEQ(X.cols(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            T s = T(0), t = T(0);
            for (size_t k = 0; k < n; ++k) {
                s += a(i, k) * X(k, j);
                t += X(i, k) * a(k, j);
            }
            VS_SAME(s, T(i == j ? 1 : 0));
            VS_SAME(t, T(i == j ? 1 : 0));
        }
}
ENTRY(classes)
{
    size_t kind = vs_size(0, CLASSES - 1);
    inverse_of(of_class<double>(kind, vs_size(4, 5), false));
}
ENTRY(classes_c)
{
    size_t kind = vs_size(0, CLASSES - 1);
    inverse_of(of_class<cd>(kind, 3, false));
}
