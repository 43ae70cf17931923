//B also, far beyond the other bounds with a few arbitrary elements: vectors of 33..1030 elements
#include "common.hpp"
template <typename T>
static void huge()
{
    static const size_t N[5] = { 33, 67, 130, 300, 1030 };
    size_t n = N[vs_size(0, 4)], m = N[vs_size(0, 4)];
    Arr<T> a = filled<T>(1, n, 1), b = filled<T>(1, m, 2);
    Vector<T> v = vec(a), w = vec(b);
    SAME_VEC(v, a);
    Vector<T> c(v);
    SAME_VEC(c, a);
    c = w;
    SAME_VEC(c, b);
    c.resize(n);
    for (size_t i = 0; i < n; ++i) VS_SAME(c[i], (i < m ? b[i] : T(0)));
    Vector<T> d(std::move(c));
    VS_IEQ(d.size(), n);
    d = std::move(w);
    SAME_VEC(d, b);
    Vector<T> e(n, a[n - 1]);
    for (size_t i = 0; i < n; ++i) VS_SAME(e[i], a[n - 1]);
    SAME_VEC(v, a);
}
ENTRY(huge_d) { huge<double>(); }
ENTRY(huge_i) { huge<int>(); }
