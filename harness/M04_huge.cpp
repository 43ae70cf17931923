//B also, far beyond the other bounds with a few arbitrary elements: matrices of 34x4 and 3x40, vectors of 130, with one arbitrary element
#include "common.hpp"
static bool nearly(double a, double b)
{
    double d = a > b ? a - b : b - a;
    double x = a < 0 ? -a : a, y = b < 0 ? -b : b;
    return d <= 1e-06 * (x > y ? x : y);
}
ENTRY(huge)
{
    size_t w = vs_size(0, 2), r = w == 0 ? 34 : w == 1 ? 3 : 1, c = w == 0 ? 4 : w == 1 ? 40 : 130, n = r * c;
    Arr<double> a = filled<double>(r, c, 1, 1), b = filled<double>(r, c, 2, 0);
    for (size_t i = 0; i < n; i += 3) b[i] = a[i];
    double s = a[n / 2];
#define ALL(X, Y, RHS)                                                        \
    do {                                                                      \
        auto p1 = (X) < (Y);                                                  \
        auto p2 = (X) <= (Y);                                                 \
        auto p3 = (X) > (Y);                                                  \
        auto p4 = (X) >= (Y);                                                 \
        auto p5 = (X) == (Y);                                                 \
        auto p6 = (X) != (Y);                                                 \
        VS_IEQ(p1.size(), n);                                                 \
        VS_IEQ(p5.size(), n);                                                 \
        for (size_t i = 0; i < n; ++i) {                                      \
            double x_ = a[i], y_ = RHS;                                       \
            VS_IEQ(p1[i], x_ < y_);                                           \
            VS_IEQ(p2[i], x_ <= y_);                                          \
            VS_IEQ(p3[i], x_ > y_);                                           \
            VS_IEQ(p4[i], x_ >= y_);                                          \
            VS_IEQ(p5[i], nearly(x_, y_));                                    \
            VS_IEQ(p6[i], !nearly(x_, y_));                                   \
        }                                                                     \
    } while (0)
    bool scalar = vs_bool();
    if (w == 2) {
        Vector<double> A = vec(a), B = vec(b);
        VS_ASSERT(A.size() == n && B.size() == n);
        auto e = scalar ? A == s : A == B;
        auto f = scalar ? A != s : A != B;
        VS_IEQ(e.size(), n);
        VS_IEQ(f.size(), n);
        for (size_t i = 0; i < n; ++i) {
            bool x = nearly(a[i], scalar ? s : b[i]);
            VS_IEQ(e[i], x);
            VS_IEQ(f[i], !x);
        }
    } else {
        Matrix<double> A = mat(a), B = mat(b);
        if (scalar)
            ALL(A, s, s);
        else
            ALL(A, B, b[i]);
    }
}
ENTRY(huge_any)
{
    size_t n = 130;
    Matrix<bool> m(10, 13, false), k(10, 13, true);
    size_t i = vs_size(0, 3);
    i = i == 0 ? 0 : i == 1 ? 64 : i == 2 ? 128 : n - 1;
    bool b = vs_bool();
    m[i] = b;
    k[i] = b;
    VS_ASSERT(malg::any(m) == b);
    VS_ASSERT(malg::all(k) == b);
    Vector<bool> v(n, false), x(n, true);
    v[i] = b;
    x[i] = b;
    VS_ASSERT(malg::any(v) == b);
    VS_ASSERT(malg::all(x) == b);
}
