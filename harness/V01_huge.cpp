//B also, far beyond the other bounds with a few arbitrary elements: windows of 40x35, 3x130, 130x3 and of windows of them
#include "common.hpp"
ENTRY(huge)
{
    static const size_t S[3][6] = { { 40, 35, 1, 39, 2, 35 }, { 3, 130, 1, 3, 5, 129 }, { 130, 3, 7, 130, 0, 2 } };
    size_t k = vs_size(0, 2), how = vs_size(0, 3), R = S[k][0], C = S[k][1], r0 = S[k][2], r1 = S[k][3], c0 = S[k][4], c1 = S[k][5];
    Arr<double> a = filled<double>(R, C, 6, 3), b = filled<double>(r1 - r0, c1 - c0, 7, 3);
    Matrix<double> m = mat(a), n = mat(b);
    const Matrix<double> &q = m;
    auto v = m(Range{ r0, r1 }, Range{ c0, c1 });
    auto w = q(Range{ r0, r1 }, Range{ c0, c1 });
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_EQ(v(i, j), a(r0 + i, c0 + j));
            VS_EQ(w[i * b.c + j], a(r0 + i, c0 + j));
        }
    if (how == 0) v = n;
    if (how == 1) v = n(Range::all(), Range::all());
    if (how == 2)
        for (size_t i = 0; i < b.r * b.c; ++i) v[i] = b[i];
    if (how == 3) {
        // a window one row and one column into the window
        View<View<Matrix<double>>> x(&v, Range{ 1, b.r }, Range{ 1, b.c });
        for (size_t i = 0; i < x.rows(); ++i)
            for (size_t j = 0; j < x.cols(); ++j) x(i, j) = b(i + 1, j + 1);
        for (size_t i = 0; i < b.r; ++i) b(i, 0) = a(r0 + i, c0);
        for (size_t j = 0; j < b.c; ++j) b(0, j) = a(r0, c0 + j);
    }
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) a(r0 + i, c0 + j) = b(i, j);
    SAME_MAT(m, a);
    VS_EQ(malg::utility::row(m, R - 1)(0, C - 1), a(R - 1, C - 1));
    VS_EQ(malg::utility::col(m, C - 1)(R - 1, 0), a(R - 1, C - 1));
}
