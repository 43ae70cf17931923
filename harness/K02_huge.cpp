// vs: steps=40000000 path_s=100 timeout_ms=20000
//B also, far beyond the other bounds with a few arbitrary elements: 17, 20 and 33 roots, triangular 12x12 matrices, coefficient lists of 40 and 130
#include "common.hpp"
#include <malg/control/control.hpp>
using malg::control::poly;
using malg::control::polyreduce;
static Arr<double> expand(const Arr<double> &r)
{
    size_t n = r.r * r.c;
    Arr<double> c(n + 1, 1, false);
    c[0] = 1;
    for (size_t j = 0; j < n; ++j)
        for (size_t i = j + 1; i > 0; --i) c[i] -= r[j] * c[i - 1];
    return c;
}
ENTRY(huge_roots)
{
    size_t w = vs_size(0, 2), n = w == 0 ? 17 : w == 1 ? 20 : 33;
    Arr<double> r(n, 1, false);
    for (size_t i = 0; i < n; ++i) r[i] = double((i * 3) % 5) - 2;
    r[0] = vs_real();
    r[n - 1] = vs_real();
    Arr<double> c = expand(r), q(r);
    SAME_VEC(poly(vec(r)), c);
    SAME_VEC(poly(mat(r)), c);
    q.r = 1;
    q.c = n;
    SAME_VEC(poly(mat(q)), c);
}
ENTRY(huge_triangular)
{
    size_t n = 12;
    bool up = vs_bool();
    Arr<double> a(n, n, false), r(n, 1, false);
    for (size_t i = 0; i < n; ++i) {
        r[i] = i == 0 || i == n - 1 ? vs_real() : double((i * 3) % 5) - 2.5;
        a(i, i) = r[i];
        for (size_t j = i + 1; j < n; ++j) (up ? a(i, j) : a(j, i)) = (i + j) % 4 == 0 ? 1.0 : 0.0;
    }
    SAME_VEC(poly(mat(a)), expand(r));
}
ENTRY(huge_reduce)
{
    size_t n = vs_bool() ? 130 : 40, w = vs_size(0, 4), z = w == 0 ? 0 : w == 1 ? 1 : w == 2 ? n / 2 : w == 3 ? n - 1 : n;
    Arr<double> a(n, 1, false);
    for (size_t i = z; i < n; ++i) a[i] = i % 5 ? double(i % 7) - 3 : 0.0;
    if (z < n) {
        a[z] = vs_real();
        vs_assume(a[z] != 0);
    }
    auto p = polyreduce(vec(a));
    if (z == n) {
        VS_IEQ(p.size(), 1);
        VS_EQ(p[0], 0.0);
        return;
    }
    VS_IEQ(p.size(), n - z);
    for (size_t i = z; i < n; ++i) VS_EQ(p[i - z], a[i]);
}
