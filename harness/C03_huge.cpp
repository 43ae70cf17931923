//B also, far beyond the other bounds with a few arbitrary elements: 3x130, 130x3, 34x35 into each other, as matrices, views, cofactor views
#include "common.hpp"
ENTRY(huge)
{
    static const size_t S[4][2] = { { 3, 130 }, { 130, 3 }, { 34, 35 }, { 1, 1 } };
    size_t k = vs_size(0, 2), t = vs_size(0, 3), how = vs_size(0, 5), r = S[k][0], c = S[k][1];
    Arr<double> a = filled<double>(r, c, 3);
    Matrix<double> m = mat(a), n = mat(filled<double>(S[t][0], S[t][1], 4, 0));
    if (how == 0) n = m;
    if (how == 1) n = Matrix<double>(m);
    if (how == 2) n = m(Range::all(), Range::all());
    if (how == 3) {
        Arr<double> p(r + 1, c + 1, false);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < c; ++j) p(i + (i >= r / 2), j + (j >= c / 2)) = a(i, j);
        Matrix<double> P = mat(p);
        n = CofactorView<Matrix<double>>(&P, r / 2, c / 2);
    }
    if (how == 4) n = static_cast<const MatrixBase<double> &>(m);
    if (how == 5) {
        // a part of itself
        n = m;
        n = n(Range{ 1, r }, Range{ 1, c });
        for (size_t i = 1; i < r; ++i)
            for (size_t j = 1; j < c; ++j) VS_EQ(n(i - 1, j - 1), a(i, j));
        VS_IEQ(n.rows(), r - 1);
        VS_IEQ(n.cols(), c - 1);
        return;
    }
    SAME_MAT(n, a);
    n(0, 0) = 1;
    n(r - 1, c - 1) = 2;
    SAME_MAT(m, a);
}
