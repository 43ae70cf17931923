//B also, far beyond the other bounds with a few arbitrary elements: vectors of 130 and 300, matrices of 40x6, that differ at two arbitrary elements
#include "common.hpp"
namespace u = malg::utility;
template <typename X>
static void differ(const X &x, const X &y, const Arr<double> &a, const Arr<double> &b)
{
    size_t n = a.r * a.c, i = 0;
    while (i < n && a[i] == b[i]) ++i;
    int64_t g = u::compare(x, y), h = u::compare(y, x), p = int64_t(i) + 1;
    VS_ASSERT(g == (i == n ? 0 : a[i] < b[i] ? -p : p));
    VS_ASSERT(h == -g);
    bool e = true;
    for (size_t k = 0; k < n; ++k) e = e & (a[k] - b[k] <= 0.5) & (b[k] - a[k] <= 0.5);
    VS_ASSERT(u::all_close(x, y, 0.5) == e);
}
ENTRY(huge)
{
    size_t w = vs_size(0, 2), n = w == 0 ? 130 : w == 1 ? 300 : 240, r = w == 2 ? 40 : 1;
    Arr<double> a = filled<double>(r, n / r, 4), b(a);
    b[n - 1]     = vs_real();
    b[n * 2 / 3] = vs_real();
    if (r == 1)
        differ(vec(a), vec(b), a, b);
    else
        differ(mat(a), mat(b), a, b);
}
