//B also, far beyond the other bounds with a few arbitrary elements: 3x130, 130x3, 34x35
#include "common.hpp"
ENTRY(huge)
{
    static const size_t S[3][2] = { { 3, 130 }, { 130, 3 }, { 34, 35 } };
    size_t k = vs_size(0, 2), r = S[k][0], c = S[k][1];
    Arr<double> a = filled<double>(r, c, 3);
    std::vector<double> d(a.d, a.d + r * c);
    Matrix<double> m(r, c, d), z(r, c), f(r, c, a[r * c - 1]);
    const Matrix<double> &q = m;
    SAME_MAT(m, a);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            VS_EQ(q(i, j), a(i, j));
            VS_EQ(m[i * c + j], a(i, j));
            VS_EQ(q.at(i, j), a(i, j));
            VS_EQ(z(i, j), 0.0);
            VS_EQ(f(i, j), a[r * c - 1]);
        }
    double y = vs_real();
    m(r - 1, c / 2) = y;
    a(r - 1, c / 2) = y;
    SAME_MAT(m, a);
}
