//B also, far beyond the other bounds with a few arbitrary elements: shapes 40x3, 1x130, 34x33 and 17x64
#include "common.hpp"
template <typename T>
static void huge(bool conj)
{
    static const size_t S[][2] = { { 40, 3 }, { 1, 130 }, { 34, 33 }, { 17, 64 } };
    size_t w = vs_size(0, 3), r = S[w][0], c = S[w][1];
    Arr<T> a = filled<T>(r, c, 1, 3), t(c, r, false);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) t(j, i) = a(i, j);
    const Matrix<T> A = mat(a);
    auto B = malg::linalg::transpose(A);
    SAME_MAT(B, t);
    SAME_MAT(malg::linalg::transpose(B), a);
    if constexpr (std::is_same_v<T, cd>) {
        for (size_t i = 0; i < r * c; ++i) t[i] = cd(t[i].real(), -t[i].imag());
        SAME_MAT(malg::linalg::conjugate_transpose(A), t);
        SAME_MAT(malg::linalg::hermitian_transpose(A), t);
    }
    SAME_MAT(A, a);
}
ENTRY(huge_d) { huge<double>(false); }
ENTRY(huge_c) { huge<cd>(true); }
