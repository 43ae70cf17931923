//B also, far beyond the other bounds with a few arbitrary elements: inner dimensions of 70 and 130, outer dimensions of 40, 20x20 by 20x20
#include "common.hpp"
template <typename T>
static Arr<T> prod(const Arr<T> &a, const Arr<T> &b)
{
    Arr<T> p(a.r, b.c, false);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < b.c; ++j)
            for (size_t l = 0; l < a.c; ++l) p(i, j) += a(i, l) * b(l, j);
    return p;
}
template <typename T>
static void huge()
{
    static const size_t S[][3] = { { 2, 130, 2 }, { 40, 3, 2 }, { 2, 3, 40 }, { 20, 20, 20 }, { 34, 1, 33 }, { 1, 70, 1 } };
    size_t w = vs_size(0, 5);
    Arr<T> a = filled<T>(S[w][0], S[w][1], 2), b = filled<T>(S[w][1], S[w][2], 5);
    const Matrix<T> A = mat(a), B = mat(b);
    Arr<T> p = prod(a, b);
    SAME_MAT(A * B, p);
    SAME_MAT(A, a);
    SAME_MAT(B, b);
    Arr<T> x = filled<T>(S[w][1], 1, 7), y = filled<T>(1, S[w][0], 8);
    Arr<T> q = prod(a, x);
    SAME_VEC(A * vec(x), q);
    SAME_VEC(malg::dot(A, vec(x)), q);
}
ENTRY(huge_d) { huge<double>(); }
ENTRY(huge_c) { huge<cd>(); }
ENTRY(huge_dot)
{
    size_t n = vs_bool() ? 300 : 130;
    Arr<double> a = filled<double>(1, n, 2, 3), b = filled<double>(1, n, 5, 3);
    double s = 0;
    for (size_t i = 0; i < n; ++i) s += a[i] * b[i];
    VS_EQ(malg::dot(vec(a), vec(b)), s);
}
