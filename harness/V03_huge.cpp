//B also, far beyond the other bounds with a few arbitrary elements: windows of 40x6 and 5x70 as operands
#include "common.hpp"
namespace u = malg::utility;
ENTRY(huge)
{
    bool t = vs_bool();
    size_t R = t ? 40 : 5, C = t ? 6 : 70;
    Arr<double> a = filled<double>(R, C, 8);
    Matrix<double> m = mat(a), c(R - 2, C - 2);
    for (size_t i = 0; i < c.rows(); ++i)
        for (size_t j = 0; j < c.cols(); ++j) c(i, j) = a(i + 1, j + 1);
    auto v = m(Range{ 1, R - 1 }, Range{ 1, C - 1 });
    auto s = v + c, d = c - v, p = v * 2.0, x = malg::linalg::transpose(v);
    auto r = u::ravel(v), g = u::diag(v);
    auto vs = u::vstack(v, c), hs = u::hstack(c, v);
    auto q = x * v, qc = malg::linalg::transpose(c) * c;
    for (size_t i = 0; i < c.rows(); ++i)
        for (size_t j = 0; j < c.cols(); ++j) {
            double e = c(i, j);
            VS_EQ(s(i, j), e + e);
            VS_EQ(d(i, j), 0.0);
            VS_EQ(p(i, j), e * 2);
            VS_EQ(x(j, i), e);
            VS_EQ(r[i * c.cols() + j], e);
            VS_EQ(vs(i, j), e);
            VS_EQ(vs(i + c.rows(), j), e);
            VS_EQ(hs(i, j), e);
            VS_EQ(hs(i, j + c.cols()), e);
            if (i == j) VS_EQ(g[i], e);
        }
    if (t)
        for (size_t i = 0; i < q.size(); ++i) VS_EQ(q[i], qc[i]);
    static_cast<MatrixBase<double> &>(v) += c;
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C; ++j) VS_EQ(m(i, j), (i && j && i < R - 1 && j < C - 1 ? a(i, j) + a(i, j) : a(i, j)));
}
