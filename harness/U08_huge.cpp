//B also, far beyond the other bounds with a few arbitrary elements: vectors of 130 (thorough: 300), matrices of 34x5, 5x34, 17x17 and 34x34
#include "common.hpp"
ENTRY(huge_v)
{
    size_t n = VS_TIER(130, 300);
    Arr<double> a = filled<double>(1, n, 4);
    Vector<double> v = vec(a);
    auto lo = malg::min(v), hi = malg::max(v);
    double s = 0;
    VS_ASSERT(lo.second < n && hi.second < n);
    VS_EQ(lo.first, a[lo.second]);
    VS_EQ(hi.first, a[hi.second]);
    for (size_t k = 0; k < n; ++k) {
        VS_ASSERT(lo.first <= a[k] && hi.first >= a[k]);
        s += a[k];
    }
    VS_EQ(malg::sum(v), s);
}
ENTRY(huge_m)
{
    bool t = vs_bool();
    size_t r = t ? 34 : 5, c = t ? 5 : 34;
    Arr<double> a = filled<double>(r, c, 9);
    Matrix<double> m = mat(a);
    Vector<double> lo = malg::min(m), hi = malg::max(m);
    VS_IEQ(lo.size(), c);
    VS_IEQ(hi.size(), c);
    for (size_t j = 0; j < c; ++j) {
        double l = a(0, j), h = a(0, j);
        for (size_t i = 1; i < r; ++i) {
            l = a(i, j) < l ? a(i, j) : l;
            h = a(i, j) > h ? a(i, j) : h;
        }
        VS_EQ(lo[j], l);
        VS_EQ(hi[j], h);
    }
}
ENTRY(huge_norm)
{
    size_t n = vs_bool() ? 34 : 17;
    Arr<double> a = filled<double>(n, n, 5, 1);
    Matrix<double> m = mat(a);
    double l = 0, s = 0, t = 0, big = 0, top = 0;
    for (size_t i = 0; i < n; ++i) {
        double row = 0;
        for (size_t j = 0; j < n; ++j) {
            double x = a(i, j) < 0 ? -a(i, j) : a(i, j);
            s += a(i, j) * a(i, j);
            if (j < i) l += a(i, j) * a(i, j);
            row += x;
            big = x > big ? x : big;
        }
        t += a(i, i);
        top = row > top ? row : top;
    }
    double g = malg::sub_norm(m), q = malg::square_norm(m), w = malg::square_norm(vec(a));
    VS_ASSERT(g >= 0 && q >= 0 && w >= 0);
    VS_EQ(g * g, l);
    VS_EQ(q * q, s);
    VS_EQ(w * w, s);
    VS_EQ(malg::infinity_norm(m), top);
    VS_EQ(malg::infinity_norm(vec(a)), big);
    VS_EQ(malg::trace(m), t);
}
