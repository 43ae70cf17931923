//B also: single precision and its complex numbers up to 2x2, extended precision up to 3x3
#include "common.hpp"
using namespace malg::linalg;
template <typename T>
static void types(size_t hi)
{
    size_t n = vs_size(1, hi);
    Arr<T> a(n, n);
    const Matrix<T> A = mat(a);
    auto J = typed<T>(adjoint(A));
    T d = determinant(A);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            T s = T(0);
            for (size_t k = 0; k < n; ++k) s += a(i, k) * J(k, j);
            VS_SAME(s, i == j ? d : T(0));
        }
    vs_assume(!(d == T(0)));
    auto I = inverse(A);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) VS_SAME(T(I(i, j) * d), J(i, j));
    SAME_MAT(A, a);
}
ENTRY(types_f) { types<float>(2); }
ENTRY(types_ld) { types<ld>(3); }
