//B also: 64-bit integers, single precision, characters and truth values
#include "common.hpp"
template <typename T>
static void types()
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3), p = vs_size(0, 3), q = vs_size(0, 3);
    Arr<T> a(r, c);
    Matrix<T> m = mat(a);
    m.resize(p, q);
    VS_IEQ(m.rows(), p);
    VS_IEQ(m.cols(), q);
    for (size_t i = 0; i < p; ++i)
        for (size_t j = 0; j < q; ++j) VS_SAME(m(i, j), i < r && j < c ? a(i, j) : T(0));
    Matrix<T> n = mat(a);
    n.reshape(c, r);
    VS_IEQ(n.rows(), c);
    VS_IEQ(n.cols(), r);
    for (size_t i = 0; i < r * c; ++i) VS_SAME(n[i], a[i]);
}
ENTRY(types_l) { types<long>(); }
ENTRY(types_f) { types<float>(); }
ENTRY(types_sc) { types<sc>(); }
ENTRY(types_b) { types<bool>(); }
