//B also: 64-bit integers, single precision, characters
#include "common.hpp"
namespace u = malg::utility;
template <typename T>
static void types()
{
    size_t r = vs_size(2, 3), c = vs_size(2, 3), k = vs_size(0, 1), l = vs_size(0, 1);
    Arr<T> a(r, c);
    Matrix<T> m = mat(a);
    auto x = typed<T>(u::extract(m, k, r, l, c));
    VS_IEQ(x.rows(), r - k);
    VS_IEQ(x.cols(), c - l);
    for (size_t i = k; i < r; ++i)
        for (size_t j = l; j < c; ++j) VS_SAME(x(i - k, j - l), a(i, j));
    auto v = typed<T>(u::extract_row(m, k)), w = typed<T>(u::extract_column(m, l));
    for (size_t j = 0; j < c; ++j) VS_SAME(v[j], a(k, j));
    for (size_t i = 0; i < r; ++i) VS_SAME(w[i], a(i, l));
    Matrix<T> s = m, t = m, d = m, e = m;
    u::swap_rows(s, k, r - 1);
    u::swap_cols(t, l, c - 1);
    u::remove_row(d, k);
    u::remove_column(e, l);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            VS_SAME(s(i, j), a(i == k ? r - 1 : i == r - 1 ? k : i, j));
            VS_SAME(t(i, j), a(i, j == l ? c - 1 : j == c - 1 ? l : j));
            if (i != k) VS_SAME(d(i - (i > k), j), a(i, j));
            if (j != l) VS_SAME(e(i, j - (j > l)), a(i, j));
        }
    SAME_MAT(m, a);
}
ENTRY(types_l) { types<long>(); }
ENTRY(types_f) { types<float>(); }
ENTRY(types_sc) { types<sc>(); }
