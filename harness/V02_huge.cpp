//B also, far beyond the other bounds with a few arbitrary elements: 40x35, 3x130, 130x3, excluding rows and columns at the ends and in the middle
#include "common.hpp"
ENTRY(huge)
{
    static const size_t S[3][2] = { { 40, 35 }, { 3, 130 }, { 130, 3 } };
    size_t k = vs_size(0, 2), how = vs_size(0, 1), pp = vs_size(0, 2), R = S[k][0], C = S[k][1], p = pp == 0 ? 0 : pp == 1 ? R / 2 + 1 : R - 1, q = pp == 0 ? C - 1 : pp == 1 ? C / 2 + 1 : 0;
    Arr<double> a = filled<double>(R, C, 6, 3), b = filled<double>(R - 1, C - 1, 7, 3);
    Matrix<double> m = mat(a);
    CofactorView<Matrix<double>> v(&m, p, q);
    const auto &w = v;
    for (size_t i = 0; i < R - 1; ++i)
        for (size_t j = 0; j < C - 1; ++j) {
            VS_EQ(v(i, j), a(i + (i >= p), j + (j >= q)));
            VS_EQ(w[i * (C - 1) + j], a(i + (i >= p), j + (j >= q)));
        }
    if (how == 0) v = mat(b);
    if (how == 1)
        for (size_t i = 0; i < b.r * b.c; ++i) v[i] = b[i];
    for (size_t i = 0; i < R - 1; ++i)
        for (size_t j = 0; j < C - 1; ++j) a(i + (i >= p), j + (j >= q)) = b(i, j);
    SAME_MAT(m, a);
}
