// vs: steps=200000000 path_s=100 timeout_ms=20000
//B also, far beyond the other bounds with a few arbitrary elements: 12 (thorough 17) states with 1, 2 and 5 inputs or outputs, shift structures with arbitrary weights
#include "common.hpp"
#include <malg/control/control.hpp>
ENTRY(huge)
{
    size_t n = VS_TIER(12, 17), w = vs_size(0, 2), q = w == 2 ? 5 : w + 1;
    Arr<double> a(n, n, false), b(n, q, false), c(q, n, false), e(n, n * q, false), o(n * q, n, false);
    double x = vs_real();
    // a cyclic shift: (A v)_i = w_i v_(i+1)
    for (size_t i = 0; i < n; ++i) a(i, (i + 1) % n) = i == 3 ? x : i % 2 ? -1.0 : 2.0;
    for (size_t i = 0; i < n * q; ++i) {
        b[i] = double((i * 5) % 7) - 3;
        c[i] = double((i * 3) % 5) - 2;
    }
    b[n * q - 1] = vs_real();
    c[n * q - 1] = vs_real();
    Arr<double> p(b), r(c);
    for (size_t k = 0; k < n; ++k) {
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < q; ++j) {
                e(i, k * q + j) = p(i, j);
                o(k * q + j, i) = r(j, i);
            }
        Arr<double> p2(n, q, false), r2(q, n, false);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < q; ++j) {
                p2(i, j) = a(i, (i + 1) % n) * p((i + 1) % n, j);
                r2(j, (i + 1) % n) = r(j, i) * a(i, (i + 1) % n);
            }
        p = p2;
        r = r2;
    }
    const Matrix<double> A = mat(a), B = mat(b), C = mat(c);
    SAME_MAT(malg::control::ctrb(A, B), e);
    SAME_MAT(malg::control::obsv(A, C), o);
    SAME_MAT(A, a);
}
