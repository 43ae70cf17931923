//B shapes 1..3 x 1..3 (and 1x7, 7x1, 2x5) with arbitrary entries, every count 0..size+1 and no limit, first or last
//B also: shapes 1x12, 12x1, 3x5, 10x2 with one arbitrary entry (see the entries named large, larger, long, many, tall)
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
namespace u = malg::utility;
template <typename T>
static void run(size_t r, size_t c)
{
    Arr<T> a(r, c);
    Matrix<T> m = mat(a);
    size_t idx[16], k = 0;
    for (size_t i = 0; i < r * c; ++i)
        if (!(a[i] == T(0))) idx[k++] = i;
    std::vector<size_t> f = u::flatnonzero(m);
    VS_IEQ(f.size(), k);
    for (size_t i = 0; i < k; ++i) VS_IEQ(f[i], idx[i]);
    size_t n = vs_size(0, r * c + 2);
    bool first = n == r * c + 2 ? true : vs_bool();
    Matrix<size_t> g = n == r * c + 2 ? u::find(m) : u::find(m, n, first);
    size_t w = n < k ? n : k;
    if (n == 0) {
        VS_IEQ(g.size(), 0);
        return;
    }
    VS_IEQ(g.size(), w);
    if (r == 1) {
        VS_IEQ(g.rows(), 1);
        VS_IEQ(g.cols(), w);
    } else {
        VS_IEQ(g.rows(), w);
        VS_IEQ(g.cols(), 1);
    }
    for (size_t i = 0; i < w; ++i) VS_IEQ(g[i], idx[first ? i : k - w + i]);
}
ENTRY(find_d)
{
    static const size_t S[][2] = { { 1, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 }, { 2, 3 }, { 3, 2 }, { 1, 6 }, { 6, 1 } };
    size_t k                   = vs_size(0, 7);
    run<double>(S[k][0], S[k][1]);
}
ENTRY(find_i)
{
    static const size_t S[][2] = { { 1, 4 }, { 2, 2 }, { 3, 2 } };
    size_t k                   = vs_size(0, 2);
    run<int>(S[k][0], S[k][1]);
}
ENTRY(find_l)
{
    size_t k = vs_size(0, 1);
    run<long>(k ? 2 : 1, 3);
}
ENTRY(find_f)
{
    size_t k = vs_size(0, 1);
    run<float>(k ? 2 : 1, 3);
}
ENTRY(find_sc)
{
    size_t k = vs_size(0, 1);
    run<sc>(k ? 2 : 1, 3);
}
ENTRY(find_b)
{
    static const size_t S[][2] = { { 1, 4 }, { 2, 2 }, { 3, 2 } };
    size_t k                   = vs_size(0, 2);
    run<bool>(S[k][0], S[k][1]);
}
// longer: a pattern of zeros with two arbitrary elements
ENTRY(find_long)
{
    static const size_t S[][2] = { { 1, 12 }, { 12, 1 }, { 3, 5 }, { 10, 2 } };
    size_t w = vs_size(0, 3), r = S[w][0], c = S[w][1], i0 = vs_size(0, r * c - 1);
    Arr<double> a(r, c, false);
    for (size_t i = 0; i < r * c; ++i) a[i] = i % 3 ? double((i * 5) % 7) - 3 : 0;
    a[i0]             = vs_real();
    a[(i0 + 5) % (r * c)] = vs_real();
    Matrix<double> m  = mat(a);
    size_t idx[32], k = 0;
    for (size_t i = 0; i < r * c; ++i)
        if (!(a[i] == 0)) idx[k++] = i;
    std::vector<size_t> f = u::flatnonzero(m);
    VS_IEQ(f.size(), k);
    for (size_t i = 0; i < k; ++i) VS_IEQ(f[i], idx[i]);
    size_t lim = vs_size(0, 3);
    size_t n   = lim == 0 ? 1 : lim == 1 ? 7 : lim == 2 ? r * c : r * c + 4;
    bool first = vs_bool();
    Matrix<size_t> g = u::find(m, n, first);
    size_t t = n < k ? n : k;
    VS_IEQ(g.size(), t);
    for (size_t i = 0; i < t; ++i) VS_IEQ(g[i], idx[first ? i : k - t + i]);
}
