//B also, far beyond the other bounds with a few arbitrary elements: matrices of 34x5, 3x70 and 12x12
#include "common.hpp"
template <typename TA, typename TB, typename TR>
static void huge()
{
    static const size_t S[][2] = { { 34, 5 }, { 3, 70 }, { 12, 12 } };
    size_t w = vs_size(0, 2), r = S[w][0], c = S[w][1], n = r * c;
    Arr<TA> a = filled<TA>(r, c, 2, 3);
    Arr<TB> b = filled<TB>(r, c, 5, 3);
    TB k = vs_any<TB>();
    Matrix<TA> A = mat(a);
    const Matrix<TB> B = mat(b);
    Arr<TR> s(r, c, false), d(r, c, false), p(r, c, false), q(r, c, false), m(r, c, false), t(r, c, false);
    for (size_t i = 0; i < n; ++i) {
        s[i] = TR(a[i]) + TR(b[i]);
        d[i] = TR(a[i]) - TR(b[i]);
        p[i] = TR(a[i]) + TR(k);
        q[i] = TR(a[i]) - TR(k);
        m[i] = TR(a[i]) * TR(k);
        t[i] = TR(a[i]) * TR(b[i]);
    }
    SAME_MAT(A + B, s);
    SAME_MAT(A - B, d);
    SAME_MAT(A + k, p);
    SAME_MAT(A - k, q);
    SAME_MAT(A * k, m);
    SAME_MAT(malg::element_wise_product(A, B), t);
    SAME_MAT(A, a);
    if constexpr (std::is_same_v<TA, TR>) {
        A += B;
        SAME_MAT(A, s);
        A -= B;
        SAME_MAT(A, a);
        A *= k;
        SAME_MAT(A, m);
    }
    SAME_MAT(B, b);
}
ENTRY(huge_d) { huge<double, double, double>(); }
ENTRY(huge_dc) { huge<double, cd, cd>(); }
