//B also, far beyond the other bounds with a few arbitrary elements: vectors of 67 and 300
#include "common.hpp"
template <typename TA, typename TB, typename TR>
static void huge()
{
    size_t n = vs_bool() ? 300 : 67;
    Arr<TA> a = filled<TA>(1, n, 2, 3);
    Arr<TB> b = filled<TB>(1, n, 5, 3);
    TB k = vs_any<TB>();
    Vector<TA> A = vec(a);
    const Vector<TB> B = vec(b);
    Arr<TR> s(1, n, false), d(1, n, false), p(1, n, false), q(1, n, false), m(1, n, false), t(1, n, false);
    for (size_t i = 0; i < n; ++i) {
        s[i] = TR(a[i]) + TR(b[i]);
        d[i] = TR(a[i]) - TR(b[i]);
        p[i] = TR(a[i]) + TR(k);
        q[i] = TR(a[i]) - TR(k);
        m[i] = TR(a[i]) * TR(k);
        t[i] = TR(a[i]) * TR(b[i]);
    }
    SAME_VEC(A + B, s);
    SAME_VEC(A - B, d);
    SAME_VEC(A * B, t);
    SAME_VEC(A + k, p);
    SAME_VEC(A - k, q);
    SAME_VEC(A * k, m);
    SAME_VEC(A, a);
    if constexpr (std::is_same_v<TA, TR>) {
        A += B;
        SAME_VEC(A, s);
        A -= B;
        SAME_VEC(A, a);
        A += k;
        SAME_VEC(A, p);
        A -= k;
        A *= k;
        SAME_VEC(A, m);
    }
    SAME_VEC(B, b);
}
ENTRY(huge_d) { huge<double, double, double>(); }
ENTRY(huge_dc) { huge<double, cd, cd>(); }
ENTRY(huge_div)
{
    size_t n = vs_bool() ? 300 : 67;
    Arr<double> a = filled<double>(1, n, 2, 3);
    double k = vs_real();
    vs_assume(k != 0);
    Vector<double> A = vec(a), D = A / k;
    A /= k;
    VS_IEQ(D.size(), n);
    for (size_t i = 0; i < n; ++i) {
        VS_EQ(D[i] * k, a[i]);
        VS_EQ(A[i], D[i]);
    }
}
