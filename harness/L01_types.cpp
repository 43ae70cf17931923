//B also: 64-bit integers, single precision, characters and truth values
#include "common.hpp"
template <typename T>
static void types()
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3);
    Arr<T> a(r, c), t(c, r, false);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) t(j, i) = a(i, j);
    const Matrix<T> m = mat(a);
    SAME_MAT(typed<T>(malg::linalg::transpose(m)), t);
    SAME_MAT(m, a);
}
ENTRY(types_l) { types<long>(); }
ENTRY(types_f) { types<float>(); }
ENTRY(types_cf) { types<cf>(); }
ENTRY(types_sc) { types<sc>(); }
ENTRY(types_b) { types<bool>(); }
