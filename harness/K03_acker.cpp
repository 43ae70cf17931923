// vs: path_s=100 timeout_ms=30000 steps=20000000
//B one input; 1 and 2 states with every entry of A, B and every pole arbitrary; 3 and 4 states in controllable companion form with arbitrary coefficients, arbitrary diagonal A with B of ones, and an arbitrary row of A; exact arithmetic
//B also: companion form with 4..8 states, two arbitrary coefficients (see the entries named large, larger, long, many, tall)
#include "common.hpp"
#include <malg/control/control.hpp>
using malg::control::acker;
static double det(const Arr<double> &a, const size_t *ix, size_t k, size_t used = 0, size_t row = 0)
{
    if (row == k) return 1;
    double s = 0;
    for (size_t j = 0; j < k; ++j) {
        if (used >> j & 1) continue;
        size_t inv = 0;
        for (size_t l = j + 1; l < k; ++l) inv += used >> l & 1;
        s += (inv & 1 ? -1.0 : 1.0) * a(ix[row], ix[j]) * det(a, ix, k, used | size_t(1) << j, row + 1);
    }
    return s;
}
// the characteristic polynomial of A - B K is the product of (s - p_i)
static void placed(const Arr<double> &a, const Arr<double> &b, const Arr<double> &p)
{
    size_t n = a.r;
    const Matrix<double> A = mat(a), B = mat(b), Q = mat(p);
    auto K = acker(A, B, Q);
    VS_IEQ(K.rows(), 1);
    VS_IEQ(K.cols(), n);
    SAME_MAT(A, a);
    SAME_MAT(B, b);
    SAME_MAT(Q, p);
    Arr<double> f(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) f(i, j) = a(i, j) - b[i] * K(0, j);
    Arr<double> c(n + 1, 1, false), e(n + 1, 1, false);
    for (size_t m = 0; m < (size_t(1) << n); ++m) {
        size_t k = 0, ix[8];
        double q = 1;
        for (size_t i = 0; i < n; ++i)
            if (m >> i & 1) ix[k++] = i, q *= -p[i];
        c[k] += (k & 1 ? -1.0 : 1.0) * det(f, ix, k);
        e[k] += q;
    }
    for (size_t k = 0; k <= n; ++k) VS_EQ(c[k], e[k]);
}
ENTRY(one)
{
    Arr<double> a(1, 1), b(1, 1), p(1, 1);
    vs_assume(b[0] != 0);
    placed(a, b, p);
}
ENTRY(two)
{
    Arr<double> a(2, 2), b(2, 1), p(1, 2);
    vs_assume(b[0] * (a[2] * b[0] + a[3] * b[1]) - b[1] * (a[0] * b[0] + a[1] * b[1]) != 0);
    placed(a, b, p);
}
ENTRY(companion)
{
    size_t n = vs_size(3, VS_TIER(3, 4));
    Arr<double> a(n, n, false), b(n, 1, false), p(1, n);
    for (size_t i = 0; i + 1 < n; ++i) a(i, i + 1) = 1;
    for (size_t j = 0; j < n; ++j) a(n - 1, j) = vs_real();
    b[n - 1] = vs_real();
    vs_assume(b[n - 1] != 0);
    placed(a, b, p);
}
ENTRY(diagonal)
{
    Arr<double> a(3, 3, false), b(3, 1, false), p(1, 3);
    for (size_t i = 0; i < 3; ++i) a(i, i) = vs_real(), b[i] = 1;
    vs_assume(a[0] != a[4] && a[0] != a[8] && a[4] != a[8]);
    placed(a, b, p);
}
ENTRY(row)
{
    Arr<double> a(3, 3, false), b(3, 1, false), p(1, 3);
    for (size_t i = 0; i < 9; ++i) a[i] = double((i * 5) % 7) - 3;
    size_t r = vs_size(0, 2);
    for (size_t j = 0; j < 3; ++j) a(r, j) = vs_real();
    b[0] = 1;
    b[1] = -2;
    b[2] = 1;
    // controllable
    Arr<double> m(3, 3, false);
    for (size_t k = 0; k < 3; ++k)
        for (size_t i = 0; i < 3; ++i) {
            if (!k) m(i, 0) = b[i];
            else
                for (size_t j = 0; j < 3; ++j) m(i, k) += a(i, j) * m(j, k - 1);
        }
    size_t ix[3] = { 0, 1, 2 };
    vs_assume(det(m, ix, 3) != 0);
    placed(a, b, p);
}
// refused: the program stops, no gain is returned
ENTRY(unreachable)
{
    size_t n = vs_size(1, 3), k = vs_size(0, 2);
    Arr<double> a(n, n), b(n, 1), p(1, n);
    for (size_t i = 0; i < n; ++i) {
        if (k == 0) b[i] = 0;
        if (k == 1) { // B an eigenvector
            if (n == 1) return;
            b[i] = i ? 0 : 1;
            if (i) a(i, 0) = 0;
        }
        if (k == 2) { // a state that nothing reaches
            if (n == 1) return;
            b[n - 1] = 0;
            if (i + 1 < n) a(n - 1, i) = 0;
        }
    }
    const Matrix<double> A = mat(a), B = mat(b), Q = mat(p);
    vs_expect_end(true);
    acker(A, B, Q);
}
ENTRY(conformal)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3), br = vs_size(1, 3), bc = vs_size(1, 3), pr = vs_size(0, 2), pc = vs_size(0, 4);
    if (r == c && bc == 1 && br == r && pr == 1 && pc == r) return;
    Arr<double> a(r, c), b(br, bc), p(pr, pc);
    const Matrix<double> A = mat(a), B = mat(b), Q = mat(p);
    vs_expect_end(true);
    acker(A, B, Q);
}
// companion form: the gain is the difference of the coefficients
ENTRY(companion_large)
{
    size_t n = vs_size(4, 8);
    Arr<double> a(n, n, false), b(n, 1, false), p(1, n, false), c(1, n + 1, false);
    for (size_t i = 0; i + 1 < n; ++i) a(i, i + 1) = 1;
    for (size_t j = 0; j < n; ++j) a(n - 1, j) = j % 3 ? double(j % 4) - 1.5 : 0;
    a(n - 1, 0) = vs_real();
    b[n - 1] = vs_bool() ? -1 : 2;
    for (size_t j = 0; j < n; ++j) p[j] = double(j % 4) - 1.5;
    p[n - 1] = vs_real();
    c[0] = 1;
    for (size_t j = 0; j < n; ++j)
        for (size_t i = j + 1; i > 0; --i) c[i] -= p[j] * c[i - 1];
    auto K = acker(mat(a), mat(b), mat(p));
    VS_IEQ(K.rows(), 1);
    VS_IEQ(K.cols(), n);
    for (size_t j = 0; j < n; ++j) VS_EQ(K(0, j) * b[n - 1], a(n - 1, j) + c[n - j]);
}
