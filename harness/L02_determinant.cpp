// vs: path_s=100 timeout_ms=60000
//B 1x1..4x4 with every entry arbitrary (real, complex, int up to 4x4); 5x5 with every entry arbitrary and nonzero pivots, with each pivot position zero, singular 5x5; 5x5 and 6x6 permutation-like and block patterns with arbitrary entries; exact arithmetic
//B also: structured 7x7..9x9 (thorough 12x12) with some arbitrary entries (see the entries named large, larger, long, many, tall)
//B classes: symmetric, skew, triangular, tridiagonal, diagonal, circulant, arrow, block, companion, rank one, Hessenberg, equal rows, antidiagonal matrices of 3..6 rows with two arbitrary elements
#include "common.hpp"
using malg::linalg::determinant;
// Laplace expansion along the rows, over the set of remaining columns
template <typename T> T laplace(const Arr<T> &a, size_t row, unsigned used)
{
    if (row == a.r) return T(1);
    T s = T(0);
    int sign = 1;
    for (size_t j = 0; j < a.c; ++j) {
        if (used >> j & 1) continue;
        T m = a(row, j) * laplace(a, row + 1, used | 1u << j);
        s = sign > 0 ? s + m : s - m;
        sign = -sign;
    }
    return s;
}
template <typename T> T det(const Arr<T> &a) { return laplace(a, 0, 0); }
ENTRY(small_d)
{
    size_t n = vs_size(1, 4);
    Arr<double> a(n, n);
    const Matrix<double> A = mat(a);
    VS_EQ(determinant(A), det(a));
    SAME_MAT(A, a);
}
ENTRY(small_i)
{
    size_t n = vs_size(1, 4);
    Arr<int> a(n, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = vs_int(-20, 20);
    VS_IEQ(determinant(mat(a)), det(a));
}
ENTRY(small_c)
{
    size_t n = vs_size(1, 3);
    Arr<cd> a(n, n);
    VS_CEQ(determinant(mat(a)), det(a));
}
ENTRY(views)
{
    Arr<double> a(3, 4);
    Matrix<double> A = mat(a);
    size_t n = vs_size(1, 3), r = vs_size(0, 3 - n), c = vs_size(0, 4 - n);
    Arr<double> b(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) b(i, j) = a(r + i, c + j);
    VS_EQ(determinant(View<Matrix<double>>(&A, r, r + n, c, c + n)), det(b));
    VS_EQ(determinant(View<const Matrix<double>>(&A, r, r + n, c, c + n)), det(b));
}
// one arbitrary row, the other entries from matrices with and without zero pivots
ENTRY(row5)
{
    size_t n = vs_size(5, VS_TIER(5, 6)), kind = vs_size(0, 4), k = vs_size(0, n - 1);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            a(i, j) = kind == 0 ? double((i * i + 3 * j + i * j * j) % 7) - 2       // dense
                      : kind == 1 ? double((i + j == n - 1) ? 2 + i : 0)           // antidiagonal
                      : kind == 2 ? double(i > j + 1 ? 0 : (i + 2 * j) % 5)        // Hessenberg
                      : kind == 3 ? double((i % 2 == 0) ? j + 1 : (i * j) % 3)     // repeated rows
                                  : double((i + 1) % n == j ? 1 : 0);              // cyclic
    for (size_t j = 0; j < n; ++j) a(k, j) = vs_real();
    VS_EQ(determinant(mat(a)), det(a));
}
// one arbitrary column, and an arbitrary 2x2 block
ENTRY(column5)
{
    size_t n = 5, k = vs_size(0, 4);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = double((i * i + 2 * i) % 7) - 2;
    for (size_t i = 0; i < n; ++i) a(i, k) = vs_real();
    VS_EQ(determinant(mat(a)), det(a));
}
ENTRY(block5)
{
    size_t n = 5, k = vs_size(0, 3);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i) a(i, i) = double(i) + 1;
    for (size_t i = k; i < k + 2; ++i)
        for (size_t j = k; j < k + 2; ++j) a(i, j) = vs_real();
    a(4, 0) = vs_real();
    VS_EQ(determinant(mat(a)), det(a));
}
ENTRY(complex5)
{
    size_t kind = vs_size(0, 1);
    Arr<cd> a(5, 5, false);
    for (size_t i = 0; i < 25; ++i) a[i] = cd(double((i * i + 2 * i) % 7) - 2, double(i % 3) - 1);
    if (kind)
        for (size_t i = 0; i < 4; ++i) a(i, i) = a(i, 0) = 0;
    for (size_t i = 0; i < 5; ++i) a(4, i) = vs_any<cd>();
    if (kind) a(4, 0) = cd(2, 1);
    cd x = determinant(mat(a)), y = det(a);
    VS_CEQ(x, y);
}
// integers: triangular up to row swaps, every division is exact
ENTRY(int5_exact)
{
    Arr<int> a(5, 5, false);
    size_t s = vs_size(0, 4), low = vs_size(0, 1);
    for (size_t i = 0; i < 5; ++i)
        for (size_t j = 0; j < 5; ++j)
            if (low ? j <= i : j >= i) a(i, (j + s) % 5) = i == j ? int(i % 3) - 3 + int(i == 3) : 0;
    a(0, s) = vs_int(-5, 5);
    a(2, (2 + s) % 5) = vs_int(-5, 5);
    a(low ? 4 : 0, (low ? 0 : 4 + s) % 5) = 0;
    VS_IEQ(determinant(mat(a)), det(a));
}
// integers in general
ENTRY(int5)
{
    Arr<int> a(5, 5, false);
    for (size_t i = 0; i < 25; ++i) a[i] = int((i * i + 2 * i) % 7) - 2;
    a(4, 4) = vs_int(-5, 5);
    VS_IEQ(determinant(mat(a)), det(a));
}
#ifdef VS_THOROUGH
// all 25 entries arbitrary
ENTRY(full5)
{
    Arr<double> a(5, 5);
    VS_EQ(determinant(mat(a)), det(a));
}
#endif
// one scaled row per column: the zero pattern forces row swaps
ENTRY(permuted)
{
    size_t n = vs_size(5, VS_TIER(5, 6));
    Arr<double> a(n, n, false);
    unsigned used = 0;
    for (size_t i = 0; i < n; ++i) {
        size_t j = vs_size(0, n - 1);
        if (used >> j & 1) return;
        used |= 1u << j;
        a(i, j) = vs_real();
    }
    VS_EQ(determinant(mat(a)), det(a));
}
// larger: triangular up to a cyclic shift of the rows, disturbed in the last column
template <typename T>
static void larger()
{
    size_t n = vs_size(7, VS_TIER(9, 12)), s = vs_size(0, 3), low = vs_size(0, 1);
    Arr<T> a(n, n, false);
    T d = T(1);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (low ? j <= i : j >= i) {
                size_t row = (i + s) % n;
                a(row, j) = T(double((i * 3 + j * 5) % 7) - 3);
                if (i == j) {
                    a(row, j) = T(i % 3 == 0 ? -1.0 : i % 3 == 1 ? 2.0 : 0.5);
                    d *= a(row, j);
                }
            }
    // replace two diagonal elements by arbitrary ones
    size_t p = (n - 1 + s) % n, q = s % n;
    d = d / a(p, n - 1) / a(q, 0);
    a(p, n - 1) = vs_any<T>();
    a(q, 0) = vs_any<T>();
    d = d * a(p, n - 1) * a(q, 0);
    if (s % 2 && n % 2 == 0) d = -d; // a cyclic shift of n rows: n - 1 swaps, s times
    VS_SAME(determinant(mat(a)), d);
}
ENTRY(larger_d) { larger<double>(); }
ENTRY(larger_c) { larger<cd>(); }
ENTRY(classes)
{
    size_t kind = vs_size(0, CLASSES - 1);
    Arr<double> a = of_class<double>(kind, vs_size(5, VS_TIER(5, 6)), false);
    VS_EQ(determinant(mat(a)), det(a));
}
