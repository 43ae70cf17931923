//B matrices 0..4 x 0..4, 1x17, 9x2; real, int and complex; views and constant views
#include "common.hpp"
template <typename T> Arr<T> flip(const Arr<T> &a)
{
    Arr<T> t(a.c, a.r, false);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < a.c; ++j) t(j, i) = a(i, j);
    return t;
}
#define TR(NAME, T)                                          \
    ENTRY(NAME)                                              \
    {                                                        \
        size_t r = sizes(0, 4, 9, 1), c = sizes(0, 4, 2, 17); \
        Arr<T> a(r, c);                                      \
        const Matrix<T> A = mat(a);                          \
        auto B = malg::linalg::transpose(A);                 \
        VS_ASSERT(std::is_same_v<decltype(B), Matrix<T>>); \
        Arr<T> t = flip(a);                                  \
        SAME_MAT(B, t);                                      \
        SAME_MAT(malg::linalg::transpose(B), a);             \
        SAME_MAT(A, a);                                      \
    }
TR(transpose_d, double)
TR(transpose_i, int)
TR(transpose_c, cd)
ENTRY(conjugate)
{
    size_t r = sizes(0, 3, 9, 1), c = sizes(0, 3, 2, 17);
    Arr<cd> a(r, c);
    const Matrix<cd> A = mat(a);
    Arr<cd> t = flip(a);
    for (size_t i = 0; i < r * c; ++i) t[i] = cd(t[i].real(), -t[i].imag());
    auto B = malg::linalg::conjugate_transpose(A);
    auto C = malg::linalg::hermitian_transpose(A);
    SAME_MAT(B, t);
    SAME_MAT(C, t);
    SAME_MAT(malg::linalg::conjugate_transpose(B), a);
    SAME_MAT(A, a);
}
ENTRY(view)
{
    Arr<double> a(4, 4);
    Matrix<double> A = mat(a);
    const Matrix<double> &K = A;
    size_t r0 = vs_size(0, 3), r1 = vs_size(r0 + 1, 4), c0 = vs_size(0, 3), c1 = vs_size(c0 + 1, 4);
    Arr<double> t(c1 - c0, r1 - r0, false);
    for (size_t i = r0; i < r1; ++i)
        for (size_t j = c0; j < c1; ++j) t(j - c0, i - r0) = a(i, j);
    SAME_MAT(malg::linalg::transpose(A({ r0, r1 }, { c0, c1 })), t);
    SAME_MAT(malg::linalg::transpose(K({ r0, r1 }, { c0, c1 })), t);
}
