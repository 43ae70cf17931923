//B 1x1..3x3 with every entry arbitrary, exponents 0..4 (1x1 and 2x2 to 6); complex, int and views; factorial 0..12; exact arithmetic
//B classes: symmetric, skew, triangular, tridiagonal, diagonal, circulant, arrow, block, companion, rank one, Hessenberg, equal rows, antidiagonal matrices of 3..6 rows with two arbitrary elements
#include "common.hpp"
using malg::linalg::powm;
template <typename T> Arr<T> power(const Arr<T> &a, size_t k)
{
    Arr<T> p(a.r, a.r, false);
    for (size_t i = 0; i < a.r; ++i) p(i, i) = T(1);
    for (; k; --k) {
        Arr<T> q(a.r, a.r, false);
        for (size_t i = 0; i < a.r; ++i)
            for (size_t j = 0; j < a.r; ++j)
                for (size_t l = 0; l < a.r; ++l) q(i, j) += a(i, l) * p(l, j);
        p = q;
    }
    return p;
}
#define POW(NAME, T, N, K)                                   \
    ENTRY(NAME)                                              \
    {                                                        \
        size_t n = vs_size(1, N), k = vs_size(0, K);         \
        Arr<T> a(n, n);                                      \
        const Matrix<T> A = mat(a);                          \
        Arr<T> p = power(a, k);                              \
        SAME_MAT(powm(A, k), p);                             \
        SAME_MAT(A, a);                                      \
    }
POW(pow_d, double, 3, VS_TIER(4, 5))
POW(pow_small, double, 2, VS_TIER(6, 8))
POW(pow_c, cd, 2, 3)
ENTRY(pow_i)
{
    size_t n = vs_size(1, 3), k = vs_size(0, 4);
    Arr<int> a(n, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = vs_int(-5, 5);
    Arr<int> p = power(a, k);
    SAME_MAT(powm(mat(a), k), p);
}
ENTRY(pow_view)
{
    Arr<double> a(3, 3), b(2, 2, false);
    size_t r = vs_size(0, 1), c = vs_size(0, 1), k = vs_size(0, 3);
    for (size_t i = 0; i < 4; ++i) b[i] = a(r + i / 2, c + i % 2);
    Matrix<double> A = mat(a);
    const Matrix<double> &K = A;
    Arr<double> p = power(b, k);
    SAME_MAT(powm(A({ r, r + 2 }, { c, c + 2 }), k), p);
    SAME_MAT(powm(K({ r, r + 2 }, { c, c + 2 }), k), p);
    SAME_MAT(A, a);
}
ENTRY(pow_large)
{
    // diagonal and nilpotent shapes up to 5x5, exponents up to 9
    size_t n = vs_size(4, 5), k = vs_size(0, 9);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i + 1 < n; ++i) a(i, i + 1) = vs_real();
    a(n - 1, 0) = vs_bool() ? 1 : 0;
    Arr<double> p = power(a, k);
    SAME_MAT(powm(mat(a), k), p);
}
ENTRY(not_square)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3), k = vs_size(1, 2);
    if (r == c) return;
    Arr<double> a(r, c);
    VS_THROWS(std::invalid_argument, powm(mat(a), k));
}
ENTRY(factorial)
{
    int n = int(vs_size(0, 12));
    int e = 1;
    for (int i = 2; i <= n; ++i) e *= i;
    VS_IEQ(malg::linalg::factorial(n), e);
    VS_EQ(malg::linalg::factorial(double(n)), double(e));
}
ENTRY(classes)
{
    size_t kind = vs_size(0, CLASSES - 1), k = vs_size(0, 4);
    Arr<double> a = of_class<double>(kind, vs_size(3, 5), false);
    SAME_MAT(malg::linalg::powm(mat(a), k), power(a, k));
}
