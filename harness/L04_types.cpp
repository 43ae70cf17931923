//B also: single and extended precision up to 2x2
#include "common.hpp"
template <typename T>
static void types()
{
    size_t n = vs_size(1, 2);
    Arr<T> a(n, n);
    const Matrix<T> A = mat(a);
    vs_assume(!(a[0] == T(0)));
    auto f = malg::linalg::lu_decomposition(A);
    auto L = typed<T>(f.first), U = typed<T>(f.second);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            T s = T(0);
            for (size_t k = 0; k < n; ++k) s += L(i, k) * U(k, j);
            VS_SAME(s, a(i, j));
            if (i < j) VS_SAME(L(i, j), T(0));
            if (i > j) VS_SAME(U(i, j), T(0));
        }
}
ENTRY(types_f) { types<float>(); }
ENTRY(types_ld) { types<ld>(); }
