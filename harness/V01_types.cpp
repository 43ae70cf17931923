//B also: 64-bit integers, single precision, characters
#include "common.hpp"
template <typename T>
static void types()
{
    size_t r0 = vs_size(0, 1), c0 = vs_size(0, 1), r1 = vs_size(2, 3), c1 = vs_size(2, 3);
    Arr<T> a(3, 3), b(r1 - r0, c1 - c0);
    Matrix<T> m = mat(a);
    const Matrix<T> k = mat(a);
    auto v = m(Range{ r0, r1 }, Range{ c0, c1 });
    auto w = k(Range{ r0, r1 }, Range{ c0, c1 });
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_SAME(v(i, j), a(r0 + i, c0 + j));
            VS_SAME(w(i, j), a(r0 + i, c0 + j));
            VS_SAME(v[i * b.c + j], a(r0 + i, c0 + j));
        }
    v = mat(b);
    for (size_t i = 0; i < 3; ++i)
        for (size_t j = 0; j < 3; ++j) VS_SAME(m(i, j), i >= r0 && i < r1 && j >= c0 && j < c1 ? b(i - r0, j - c0) : a(i, j));
}
ENTRY(types_l) { types<long>(); }
ENTRY(types_f) { types<float>(); }
ENTRY(types_sc) { types<sc>(); }
