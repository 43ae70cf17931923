//B shapes 0..4 x 0..4 to 0..4 x 0..4 (every pair), plus 6x11 -> 9x11, 6x11 -> 6x5, 8x3 -> 2x31; two successive resizes 0..3
#include "common.hpp"
template <typename T>
static void check(const Matrix<T> &m, const Arr<T> &a, size_t p, size_t q)
{
    VS_IEQ(m.rows(), p);
    VS_IEQ(m.cols(), q);
    VS_IEQ(m.size(), p * q);
    for (size_t i = 0; i < p; ++i)
        for (size_t j = 0; j < q; ++j) {
            if (i < a.r && j < a.c)
                VS_SAME(m(i, j), a(i, j));
            else
                VS_SAME(m(i, j), T(0));
        }
}
template <typename T>
static void resize()
{
    size_t r = vs_size(0, 5), c, p, q;
    if (r == 5) {
        static const size_t S[][4] = { { 6, 11, 9, 11 }, { 6, 11, 6, 5 }, { 8, 3, 2, 31 }, { 12, 7, 5, 7 }, { 3, 40, 3, 41 } };
        size_t k                   = vs_size(0, 4);
        r = S[k][0], c = S[k][1], p = S[k][2], q = S[k][3];
    } else {
        c = vs_size(0, 4), p = vs_size(0, 4), q = vs_size(0, 4);
    }
    Arr<T> a(r, c);
    Matrix<T> m = mat(a);
    bool f      = vs_bool();
    if (f)
        m.resize(p, q);
    else
        malg::utility::resize(m, p, q);
    check(m, a, p, q);
    if (p * q) {
        // the new storage is fully usable
        Arr<T> b(p, q);
        for (size_t i = 0; i < p; ++i)
            for (size_t j = 0; j < q; ++j) m(i, j) = b(i, j);
        SAME_MAT(m, b);
    }
}
ENTRY(resize_d) { resize<double>(); }
ENTRY(resize_i) { resize<int>(); }
ENTRY(resize_c) { resize<cd>(); }
ENTRY(twice)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3), p = vs_size(0, 3), q = vs_size(0, 3), s = vs_size(1, 3), t = vs_size(1, 3);
    Arr<double> a(r, c), b(p, q, false);
    Matrix<double> m = mat(a);
    m.resize(p, q);
    for (size_t i = 0; i < p && i < r; ++i)
        for (size_t j = 0; j < q && j < c; ++j) b(i, j) = a(i, j);
    m.resize(s, t);
    check(m, b, s, t);
}
ENTRY(reshape)
{
    size_t r = vs_size(0, 5), c = vs_size(0, 5), p = vs_size(0, 8), q = vs_size(0, 8);
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    bool f           = vs_bool();
    if (p * q != r * c) {
        if (f)
            VS_THROWS(std::invalid_argument, m.reshape(p, q));
        else
            VS_THROWS(std::invalid_argument, malg::utility::reshape(m, p, q));
        SAME_MAT(m, a);
        return;
    }
    if (f)
        m.reshape(p, q);
    else
        malg::utility::reshape(m, p, q);
    VS_IEQ(m.rows(), p);
    VS_IEQ(m.cols(), q);
    for (size_t i = 0; i < p; ++i)
        for (size_t j = 0; j < q; ++j) VS_EQ(m(i, j), a[i * q + j]);
}
