//B rectangles of matrices up to 3x3 and cofactor views of matrices up to 4x4 in every operation listed; element values unbounded
#include "common.hpp"
#include <malg/io.hpp>
namespace u = malg::utility;
template <typename V>
static void same_as_copy(const V &v, const Matrix<double> &c)
{
    using malg::operator<<;
    VS_ASSERT(v.empty() == c.empty());
    VS_IEQ(v.size(), c.size());
    VS_EQ(malg::infinity_norm(v), malg::infinity_norm(c));
    VS_EQ(malg::square_norm(v), malg::square_norm(c));
    VS_ASSERT(malg::all(v) == malg::all(c));
    VS_ASSERT(malg::any(v) == malg::any(c));
    auto s = v + c, d = v - c, p = v * 3.0;
    auto t = malg::linalg::transpose(v), tc = malg::linalg::transpose(c);
    auto g = u::diag(v), gc = u::diag(c);
    auto r = u::ravel(v), rc = u::ravel(c);
    for (size_t i = 0; i < c.size(); ++i) {
        VS_EQ(s[i], c[i] + c[i]);
        VS_EQ(d[i], 0.0);
        VS_EQ(p[i], c[i] * 3.0);
        VS_EQ(t[i], tc[i]);
        VS_EQ(r[i], rc[i]);
    }
    for (size_t i = 0; i < gc.size(); ++i) VS_EQ(g[i], gc[i]);
    VS_ASSERT(malg::all(v == c));
    auto m = t * v, mc = tc * c;
    for (size_t i = 0; i < mc.size(); ++i) VS_EQ(m[i], mc[i]);
    if (v.rows() == v.cols()) {
        VS_EQ(malg::trace(v), malg::trace(c));
        VS_EQ(malg::linalg::determinant(v), malg::linalg::determinant(c));
        VS_EQ(malg::sub_norm(v), malg::sub_norm(c));
    }
}
ENTRY(view)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 3), r0 = vs_size(0, R - 1), r1 = vs_size(r0 + 1, R), c0 = vs_size(0, C - 1), c1 = vs_size(c0 + 1, C);
    Matrix<double> m = mat(Arr<double>(R, C));
    Matrix<double> c(r1 - r0, c1 - c0);
    for (size_t i = 0; i < c.rows(); ++i)
        for (size_t j = 0; j < c.cols(); ++j) c(i, j) = m(i + r0, j + c0);
    // keep the case split on signs small
    for (size_t i = 0; i < c.size(); ++i) vs_assume(i % 2 ? c[i] > 0 : c[i] < 0);
    same_as_copy(m(Range{ r0, r1 }, Range{ c0, c1 }), c);
}
ENTRY(cofactor)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 4), p = vs_size(0, R - 1), q = vs_size(0, C - 1);
    Matrix<double> m = mat(Arr<double>(R, C));
    Matrix<double> c(R - 1, C - 1);
    for (size_t i = 0; i < c.rows(); ++i)
        for (size_t j = 0; j < c.cols(); ++j) c(i, j) = m(i + (i >= p), j + (j >= q));
    for (size_t i = 0; i < c.size(); ++i) vs_assume(i % 2 ? c[i] > 0 : c[i] < 0);
    CofactorView<Matrix<double>> v(&m, p, q);
    if (c.size())
        same_as_copy(v, c);
    else
        VS_ASSERT(v.empty());
}
ENTRY(compound)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 3), r0 = vs_size(0, R - 1), r1 = vs_size(r0 + 1, R), c0 = vs_size(0, C - 1), c1 = vs_size(c0 + 1, C), how = vs_size(0, 4);
    Arr<double> a(R, C), b(r1 - r0, c1 - c0);
    Matrix<double> m = mat(a), k = mat(b);
    auto v   = m(Range{ r0, r1 }, Range{ c0, c1 });
    double s = vs_real();
    vs_assume(s != 0);
    MatrixBase<double> &vb = v;
    if (how == 0) vb += k;
    if (how == 1) vb -= k;
    if (how == 2) vb *= s;
    if (how == 3) vb /= s;
    if (how == 4 && b.r == b.c) vb *= k;
    Arr<double> o(a);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            double &x = o(r0 + i, c0 + j);
            if (how == 0) x = x + b(i, j);
            if (how == 1) x = x - b(i, j);
            if (how == 2) x = x * s;
            if (how == 3) x = x / s;
            if (how == 4 && b.r == b.c) {
                x = 0;
                for (size_t l = 0; l < b.c; ++l) x += a(r0 + i, c0 + l) * b(l, j);
            }
        }
    SAME_MAT(m, o);
}
// both operands windows of the same matrix, overlapping or not
ENTRY(compound_overlap)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 3), h = vs_size(1, R), w = vs_size(1, C), how = vs_size(0, 3);
    size_t r0 = vs_size(0, R - h), c0 = vs_size(0, C - w), s0 = vs_size(0, R - h), t0 = vs_size(0, C - w);
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    auto v = m(Range{ r0, r0 + h }, Range{ c0, c0 + w });
    auto z = m(Range{ s0, s0 + h }, Range{ t0, t0 + w });
    MatrixBase<double> &vb = v;
    if (how == 0) vb += z;
    if (how == 1) vb -= z;
    if (how == 2 && h == w) vb *= z;
    if (how == 3) v = v + z;
    Arr<double> o(a);
    for (size_t i = 0; i < h; ++i)
        for (size_t j = 0; j < w; ++j) {
            double &x = o(r0 + i, c0 + j);
            if (how == 0 || how == 3) x = x + a(s0 + i, t0 + j);
            if (how == 1) x = x - a(s0 + i, t0 + j);
            if (how == 2 && h == w) {
                x = 0;
                for (size_t l = 0; l < w; ++l) x += a(r0 + i, c0 + l) * a(s0 + l, t0 + j);
            }
        }
    SAME_MAT(m, o);
}
ENTRY(compound_overlap_cofactor)
{
    size_t R = vs_size(2, 4), C = vs_size(2, 4), p = vs_size(0, R - 1), q = vs_size(0, C - 1), s = vs_size(0, R - 1), t = vs_size(0, C - 1), how = vs_size(0, 2);
    Arr<double> a(R, C), o(a);
    Matrix<double> m = mat(a);
    CofactorView<Matrix<double>> v(&m, p, q), w(&m, s, t);
    MatrixBase<double> &vb = v;
    if (how == 0) vb += w;
    if (how == 1) vb -= w;
    if (how == 2 && R == C && R < 4) vb *= w;
    for (size_t i = 0; i < R - 1; ++i)
        for (size_t j = 0; j < C - 1; ++j) {
            double &x = o(i + (i >= p), j + (j >= q));
            if (how == 0) x = x + a(i + (i >= s), j + (j >= t));
            if (how == 1) x = x - a(i + (i >= s), j + (j >= t));
            if (how == 2 && R == C && R < 4) {
                x = 0;
                for (size_t l = 0; l < C - 1; ++l) x += a(i + (i >= p), l + (l >= q)) * a(l + (l >= s), j + (j >= t));
            }
        }
    SAME_MAT(m, o);
}
