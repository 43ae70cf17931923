//B also: single precision and its complex numbers up to 3x3, extended precision up to 4x4
#include "common.hpp"
template <typename T>
static T laplace(const Arr<T> &a)
{
    if (a.r == 1) return a[0];
    T s = T(0);
    for (size_t j = 0; j < a.c; ++j) {
        Arr<T> m(a.r - 1, a.c - 1, false);
        for (size_t i = 1; i < a.r; ++i)
            for (size_t k = 0, l = 0; k < a.c; ++k)
                if (k != j) m(i - 1, l++) = a(i, k);
        T t = a(0, j) * laplace(m);
        if (j % 2)
            s -= t;
        else
            s += t;
    }
    return s;
}
template <typename T>
static void types(size_t hi)
{
    size_t n = vs_size(1, hi);
    Arr<T> a(n, n);
    const Matrix<T> m = mat(a);
    auto d = malg::linalg::determinant(m);
    VS_ASSERT(std::is_same_v<decltype(d), T>);
    VS_SAME(d, laplace(a));
    SAME_MAT(m, a);
}
ENTRY(types_f) { types<float>(3); }
ENTRY(types_cf) { types<cf>(2); }
ENTRY(types_ld) { types<ld>(4); }
