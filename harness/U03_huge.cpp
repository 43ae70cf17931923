//B also, far beyond the other bounds with a few arbitrary elements: 40x3, 3x40 and 33x33 matrices, vectors of 300
#include "common.hpp"
namespace u = malg::utility;
ENTRY(huge)
{
    size_t w = vs_size(0, 2), R = w == 0 ? 40 : w == 1 ? 3 : 33, C = w == 0 ? 3 : w == 1 ? 40 : 33;
    double x = vs_real();
    Matrix<double> e = u::eye<double>(R, C, x), z = u::zeros<double>(R, C), o = u::ones<double>(R, C), d = u::identity<double>(R, x);
    VS_IEQ(e.rows(), R);
    VS_IEQ(e.cols(), C);
    VS_IEQ(d.rows(), R);
    VS_IEQ(d.cols(), R);
    for (size_t i = 0; i < R; ++i) {
        for (size_t j = 0; j < C; ++j) {
            VS_EQ(e(i, j), i == j ? x : 0.0);
            VS_EQ(z(i, j), 0.0);
            VS_EQ(o(i, j), 1.0);
        }
        for (size_t j = 0; j < R; ++j) VS_EQ(d(i, j), i == j ? x : 0.0);
    }
}
ENTRY(huge_vec)
{
    size_t n = vs_bool() ? 300 : 34;
    Vector<double> z = u::zeros<double>(n), o = u::ones<double>(n);
    VS_IEQ(z.size(), n);
    VS_IEQ(o.size(), n);
    for (size_t i = 0; i < n; ++i) {
        VS_EQ(z[i], 0.0);
        VS_EQ(o[i], 1.0);
    }
    Arr<double> a = filled<double>(1, n, 4, 3);
    Vector<double> v = vec(a);
    bool row = vs_bool();
    Matrix<double> t = u::to_matrix(v, row);
    VS_IEQ(t.rows(), row ? 1 : n);
    VS_IEQ(t.cols(), row ? n : 1);
    for (size_t i = 0; i < n; ++i) VS_EQ(row ? t(0, i) : t(i, 0), a[i]);
    SAME_VEC(u::to_vector(t), a);
    SAME_VEC(u::ravel(t), a);
    if (n == 34) {
        Matrix<double> D = u::diag(v);
        VS_IEQ(D.rows(), n);
        VS_IEQ(D.cols(), n);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) VS_EQ(D(i, j), i == j ? a[i] : 0.0);
        SAME_VEC(u::diag(D), a);
    }
}
