//B also: 64-bit integers, single precision, characters
#include "common.hpp"
template <typename T>
static void types()
{
    size_t r = vs_size(2, 3), c = vs_size(2, 3), p = vs_size(0, 1), q = vs_size(0, 1);
    Arr<T> a(r, c), b(r - 1, c - 1);
    Matrix<T> m = mat(a);
    CofactorView<Matrix<T>> v(&m, p, q);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_SAME(v(i, j), a(i + (i >= p), j + (j >= q)));
            VS_SAME(v[i * b.c + j], a(i + (i >= p), j + (j >= q)));
            v(i, j) = b(i, j);
        }
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) VS_SAME(m(i, j), i != p && j != q ? b(i - (i > p), j - (j > q)) : a(i, j));
}
ENTRY(types_l) { types<long>(); }
ENTRY(types_f) { types<float>(); }
ENTRY(types_sc) { types<sc>(); }
