// vs: steps=20000000 path_s=60 timeout_ms=20000
//B 0..5 arbitrary real roots, 0..3 complex; row and column matrices of 1..5; square matrices 2x2..3x3 (thorough 4x4) with every entry arbitrary, 4x4..5x5 triangular; coefficient lists of 0..6; exact arithmetic
//B also: 8 or 9 roots, 8x8 and 9x9 triangular matrices, coefficient lists of 9 and 12, with some arbitrary entries (see the entries named large, larger, long, many, tall)
//B classes: symmetric, skew, triangular, tridiagonal, diagonal, circulant, arrow, block, companion, rank one, Hessenberg, equal rows, antidiagonal matrices of 3..6 rows with two arbitrary elements
#include "common.hpp"
#include <malg/control/control.hpp>
using malg::control::poly;
using malg::control::polyreduce;
// coefficients of prod (s - r_i): c[k] = (-1)^k e_k, by summing over the subsets of the roots
template <typename T> Arr<T> viete(const Arr<T> &r, size_t n)
{
    Arr<T> c(n + 1, 1, false);
    for (size_t m = 0; m < (size_t(1) << n); ++m) {
        size_t k = 0;
        T p = T(1);
        for (size_t i = 0; i < n; ++i)
            if (m >> i & 1) p *= -r[i], ++k;
        c[k] += p;
    }
    return c;
}
template <typename T> void roots(size_t n)
{
    Arr<T> r(n, 1);
    const Vector<T> v = vec(r);
    SAME_VEC(poly(v), viete(r, n));
    SAME_VEC(v, r);
}
ENTRY(roots_d) { roots<double>(vs_size(0, 5)); }
ENTRY(roots_c) { roots<cd>(vs_size(0, 3)); }
ENTRY(roots_i)
{
    size_t n = vs_size(0, 4);
    Arr<int> r(n, 1, false);
    for (size_t i = 0; i < n; ++i) r[i] = vs_int(-9, 9);
    SAME_VEC(poly(vec(r)), viete(r, n));
}
ENTRY(root_matrix)
{
    size_t n = vs_size(1, 5);
    bool row = vs_size(0, 1);
    Arr<double> r(row ? 1 : n, row ? n : 1);
    const Matrix<double> A = mat(r);
    SAME_VEC(poly(A), viete(r, n));
    SAME_MAT(A, r);
}
ENTRY(root_view)
{
    Arr<double> w(3, 4), r(4, 1, false);
    Matrix<double> W = mat(w);
    size_t k = vs_size(0, 2);
    for (size_t i = 0; i < 4; ++i) r[i] = w(k, i);
    SAME_VEC(poly(W({ k, k + 1 }, { 0, 4 })), viete(r, 4));
    for (size_t i = 0; i < 3; ++i) r[i] = w(i, k);
    SAME_VEC(poly(W({ 0, 3 }, { k, k + 1 })), viete(r, 3));
}
ENTRY(empty)
{
    Matrix<double> A;
    auto c = poly(A);
    VS_IEQ(c.size(), 1);
    VS_EQ(c[0], 1.0);
}
// sum of the principal minors of size k, by permutations
static double det(const Arr<double> &a, const size_t *ix, size_t k, size_t used = 0, size_t row = 0)
{
    if (row == k) return 1;
    double s = 0;
    for (size_t j = 0; j < k; ++j) {
        if (used >> j & 1) continue;
        size_t inv = 0;
        for (size_t l = j + 1; l < k; ++l) inv += used >> l & 1;
        s += (inv & 1 ? -1.0 : 1.0) * a(ix[row], ix[j]) * det(a, ix, k, used | size_t(1) << j, row + 1);
    }
    return s;
}
static void characteristic(const Arr<double> &a)
{
    size_t n = a.r;
    Arr<double> c(n + 1, 1, false);
    for (size_t m = 0; m < (size_t(1) << n); ++m) {
        size_t k = 0, ix[8];
        for (size_t i = 0; i < n; ++i)
            if (m >> i & 1) ix[k++] = i;
        c[k] += (k & 1 ? -1.0 : 1.0) * det(a, ix, k);
    }
    const Matrix<double> A = mat(a);
    SAME_VEC(poly(A), c);
    SAME_MAT(A, a);
}
ENTRY(square)
{
    size_t n = vs_size(2, VS_TIER(3, 4));
    characteristic(Arr<double>(n, n));
}
ENTRY(triangular)
{
    size_t n = vs_size(4, 5);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i) {
        a(i, i) = vs_real();
        for (size_t j = 0; j < i; ++j) a(i, j) = double(i + 2 * j) - 3;
    }
    a(0, n - 1) = vs_real();
    characteristic(a);
}
ENTRY(not_square)
{
    size_t r = vs_size(2, 4), c = vs_size(2, 4);
    if (r == c) return;
    VS_THROWS(std::runtime_error, poly(mat(Arr<double>(r, c))));
}
template <typename T> void reduce(size_t lo, size_t hi)
{
    size_t n = vs_size(lo, hi), z = 0;
    Arr<T> a(n, 1);
    for (; z < n && a[z] == T(0); ++z) {}
    const Vector<T> v = vec(a);
    auto p = polyreduce(v);
    SAME_VEC(v, a);
    if (z == n) {
        VS_IEQ(p.size(), 1);
        VS_SAME(p[0], T(0));
    } else {
        VS_IEQ(p.size(), n - z);
        for (size_t i = z; i < n; ++i) VS_SAME(p[i - z], a[i]);
    }
}
ENTRY(reduce_d) { reduce<double>(0, 6); }
ENTRY(reduce_i) { reduce<int>(0, 5); }
ENTRY(reduce_c) { reduce<cd>(0, 3); }
ENTRY(roots_many)
{
    size_t n = vs_size(8, 9);
    Arr<double> r(n, 1, false);
    for (size_t i = 0; i < n; ++i) r[i] = double((i * 3) % 5) - 2.5;
    r[0] = vs_real();
    r[n - 1] = vs_real();
    r[n / 2] = vs_real();
    SAME_VEC(poly(vec(r)), viete(r, n));
    Arr<double> q(r);
    q.r = 1;
    q.c = n;
    SAME_VEC(poly(mat(q)), viete(r, n));
    SAME_VEC(poly(mat(r)), viete(r, n));
}
// the eigenvalues of a triangular matrix are its diagonal
ENTRY(triangular_many)
{
    size_t n = vs_size(8, 9);
    bool up = vs_bool();
    Arr<double> a(n, n, false), r(n, 1, false);
    for (size_t i = 0; i < n; ++i) {
        r[i] = i == 0 || i == n - 1 ? vs_real() : double((i * 3) % 5) - 2.5;
        a(i, i) = r[i];
        for (size_t j = i + 1; j < n; ++j) (up ? a(i, j) : a(j, i)) = (i + j) % 4 == 0 ? 1.0 : 0.0;
    }
    SAME_VEC(poly(mat(a)), viete(r, n));
}
ENTRY(reduce_long)
{
    size_t n = vs_size(0, 1) ? 12 : 9, z = vs_size(0, n);
    Arr<double> a(n, 1, false);
    for (size_t i = z; i < n; ++i) a[i] = vs_real();
    if (z < n) vs_assume(a[z] != 0);
    auto p = polyreduce(vec(a));
    if (z == n) {
        VS_IEQ(p.size(), 1);
        VS_EQ(p[0], 0.0);
        return;
    }
    VS_IEQ(p.size(), n - z);
    for (size_t i = z; i < n; ++i) VS_EQ(p[i - z], a[i]);
}
ENTRY(classes)
{
    size_t kind = vs_size(0, CLASSES - 1);
    characteristic(of_class<double>(kind, vs_size(4, VS_TIER(5, 6)), false));
}
