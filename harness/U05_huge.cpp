//B also, far beyond the other bounds with a few arbitrary elements: shapes 1x130, 130x1, 12x12 and 3x40 with two arbitrary elements
#include "common.hpp"
namespace u = malg::utility;
ENTRY(huge)
{
    static const size_t S[][2] = { { 1, 130 }, { 130, 1 }, { 12, 12 }, { 3, 40 } };
    size_t w = vs_size(0, 3), r = S[w][0], c = S[w][1];
    Arr<double> a(r, c, false);
    for (size_t i = 0; i < r * c; ++i) a[i] = i % 3 ? double((i * 5) % 7) - 3 : 0;
    a[r * c - 1] = vs_real();
    a[r * c / 2] = vs_real();
    Matrix<double> m = mat(a);
    static size_t idx[160];
    size_t k = 0;
    for (size_t i = 0; i < r * c; ++i)
        if (!(a[i] == 0)) idx[k++] = i;
    std::vector<size_t> f = u::flatnonzero(m);
    VS_IEQ(f.size(), k);
    for (size_t i = 0; i < k; ++i) VS_IEQ(f[i], idx[i]);
    size_t lim = vs_size(0, 3);
    size_t n   = lim == 0 ? 1 : lim == 1 ? 50 : lim == 2 ? r * c : r * c + 4;
    bool first = vs_bool();
    Matrix<size_t> g = u::find(m, n, first);
    size_t t = n < k ? n : k;
    VS_IEQ(g.size(), t);
    VS_IEQ(g.rows(), r == 1 ? 1 : t);
    for (size_t i = 0; i < t; ++i) VS_IEQ(g[i], idx[first ? i : k - t + i]);
}
