// vs: path_s=100 timeout_ms=60000 steps=40000000
//B also, far beyond the other bounds with a few arbitrary elements: exponents 12..17, 31, 33 and 64 of a scalar, 2x2 and 3x3 matrices with an arbitrary element, and the shift of 20 elements
#include "common.hpp"
using malg::linalg::powm;
static Arr<double> power(const Arr<double> &a, size_t k)
{
    Arr<double> p(a.r, a.r, false);
    for (size_t i = 0; i < a.r; ++i) p(i, i) = 1;
    for (; k; --k) {
        Arr<double> q(a.r, a.r, false);
        for (size_t i = 0; i < a.r; ++i)
            for (size_t j = 0; j < a.r; ++j)
                for (size_t l = 0; l < a.r; ++l) q(i, j) += a(i, l) * p(l, j);
        p = q;
    }
    return p;
}
ENTRY(huge_exponent)
{
    static const size_t K[] = { 12, 13, 14, 15, 16, 17, 31, 33, 64 };
    size_t n = vs_size(1, 3), k = K[vs_size(0, 8)];
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) a(i, j) = double(i) - double(j) * 0.5;
    for (size_t i = 0; i + 1 < n; ++i) a(i, i) = i ? -1 : 1;
    a(n - 1, n - 1) = n > 1 && k > 20 ? 1 : vs_real();
    if (n == 2) a(0, 1) = vs_real();
    const Matrix<double> A = mat(a);
    SAME_MAT(powm(A, k), power(a, k));
    SAME_MAT(A, a);
}
ENTRY(huge_shift)
{
    size_t n = 20, k = vs_size(0, 2);
    k = k == 0 ? 7 : k == 1 ? 20 : 33;
    Arr<double> a(n, n, false), e(n, n, false);
    for (size_t i = 0; i < n; ++i) {
        a(i, (i + 1) % n) = 1;
        e(i, (i + k) % n) = 1;
    }
    // one arbitrary weight on the way round
    double x = vs_real();
    a(4, 5) = x;
    for (size_t i = 0; i < n; ++i)
        for (size_t s = 0; s < k; ++s)
            if ((i + s) % n == 4) e(i, (i + k) % n) *= x;
    SAME_MAT(powm(mat(a), k), e);
}
