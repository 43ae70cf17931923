//B matrices 0..4 x 0..4 stacked with 0..4 x 0..4 (every pair of shapes), plus 9x5 and 5x9 blocks; double, int, complex and mixed element types
//B also: blocks up to 12 rows or columns (see the entries named large, larger, long, many, tall)
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
namespace u = malg::utility;
template <typename A, typename B, typename C>
static void both(size_t lo, size_t hi)
{
    size_t r = vs_size(lo, hi + 1), c = vs_size(lo, hi), p = vs_size(lo, hi), q = vs_size(lo, hi);
    if (r == hi + 1) {
        r = q ? 9 : 2, p = 3;
        if (vs_bool())
            q = c = 5 + c;
        else
            q = 6 + c, r = p = 8;
    }
    Arr<A> a(r, c);
    Arr<B> b(p, q);
    Matrix<A> m = mat(a);
    Matrix<B> k = mat(b);
    if (c == q) {
        auto t = typed<C>(u::vstack(m, k));
        VS_IEQ(t.rows(), r + p);
        VS_IEQ(t.cols(), c);
        for (size_t i = 0; i < r + p; ++i)
            for (size_t j = 0; j < c; ++j) VS_SAME(t(i, j), i < r ? C(a(i, j)) : C(b(i - r, j)));
    } else
        VS_THROWS(std::invalid_argument, u::vstack(m, k));
    if (r == p) {
        auto t = typed<C>(u::hstack(m, k));
        VS_IEQ(t.rows(), r);
        VS_IEQ(t.cols(), c + q);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < c + q; ++j) VS_SAME(t(i, j), j < c ? C(a(i, j)) : C(b(i, j - c)));
    } else
        VS_THROWS(std::invalid_argument, u::hstack(m, k));
    SAME_MAT(m, a);
    SAME_MAT(k, b);
}
ENTRY(mat_d) { both<double, double, double>(0, 4); }
ENTRY(mat_id) { both<int, double, double>(1, 3); }
ENTRY(mat_dc) { both<double, cd, cd>(1, 2); }
ENTRY(mat_fd) { both<float, double, double>(1, 2); }
ENTRY(mat_df) { both<double, float, double>(1, 2); }
ENTRY(mat_fc) { both<cf, double, cd>(1, 2); }
ENTRY(mat_fi) { both<float, int, float>(1, 2); }
ENTRY(mat_lf) { both<long, float, float>(1, 2); }
ENTRY(mat_l) { both<long, int, long>(1, 2); }
ENTRY(mat_u) { both<unsigned, unsigned, unsigned>(1, 2); }
template <typename A, typename B, typename C>
static void vecs()
{
    size_t r = vs_size(1, 5), c = vs_size(1, 4), n = vs_size(0, 5);
    if (r == 5) {
        // longer ones
        n = 9;
        r = c % 2 ? 2 : 9;
        c = c > 2 ? 9 : 11 - r;
    }
    Arr<A> a(r, c);
    Arr<B> x(1, n);
    Matrix<A> m = mat(a);
    Vector<B> v = vec(x);
    if (c == n) {
        auto t = typed<C>(u::vstack(m, v));
        VS_IEQ(t.rows(), r + 1);
        VS_IEQ(t.cols(), c);
        for (size_t i = 0; i <= r; ++i)
            for (size_t j = 0; j < c; ++j) VS_SAME(t(i, j), i < r ? C(a(i, j)) : C(x[j]));
    } else
        VS_THROWS(std::invalid_argument, u::vstack(m, v));
    if (r == n) {
        auto t = typed<C>(u::hstack(m, v));
        VS_IEQ(t.rows(), r);
        VS_IEQ(t.cols(), c + 1);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j <= c; ++j) VS_SAME(t(i, j), j < c ? C(a(i, j)) : C(x[i]));
    } else
        VS_THROWS(std::invalid_argument, u::hstack(m, v));
    SAME_MAT(m, a);
}
ENTRY(vec_d) { vecs<double, double, double>(); }
ENTRY(vec_id) { vecs<int, double, double>(); }
ENTRY(vec_fd) { vecs<float, double, double>(); }
ENTRY(vec_df) { vecs<double, float, double>(); }
ENTRY(vec_dfc) { vecs<double, cf, cd>(); }
ENTRY(vec_l) { vecs<int, long, long>(); }
template <typename A, typename B, typename C>
static void cat()
{
    size_t n = sizes(0, 5, 17), m = sizes(0, 6, 11);
    Arr<A> a(1, n);
    Arr<B> b(1, m);
    Vector<A> x    = vec(a);
    Vector<B> y    = vec(b);
    auto z    = typed<C>(u::concatenate(x, y));
    VS_IEQ(z.size(), n + m);
    for (size_t i = 0; i < n + m; ++i) VS_SAME(z[i], i < n ? C(a[i]) : C(b[i - n]));
    SAME_VEC(x, a);
    SAME_VEC(y, b);
}
ENTRY(cat_d) { cat<double, double, double>(); }
ENTRY(cat_c) { cat<cd, cd, cd>(); }
ENTRY(cat_id) { cat<int, double, double>(); }
ENTRY(cat_fd) { cat<float, double, double>(); }
ENTRY(cat_df) { cat<double, float, double>(); }
ENTRY(cat_fc) { cat<cf, cd, cd>(); }
ENTRY(cat_l) { cat<int, long, long>(); }
ENTRY(cat_lf) { cat<long, float, float>(); }
ENTRY(cat_fi) { cat<float, int, float>(); }
ENTRY(cat_ul) { cat<ul, ul, ul>(); }
ENTRY(views)
{
    size_t r0 = vs_size(0, 2), r1 = vs_size(r0 + 1, 3), c0 = vs_size(0, 2), c1 = vs_size(c0 + 1, 3);
    Arr<double> a(3, 3);
    Matrix<double> m = mat(a);
    auto v           = m(Range{ r0, r1 }, Range{ c0, c1 });
    Matrix<double> t = u::vstack(v, v), h = u::hstack(v, v);
    size_t r = r1 - r0, c = c1 - c0;
    VS_IEQ(t.rows(), 2 * r);
    VS_IEQ(h.cols(), 2 * c);
    for (size_t i = 0; i < 2 * r; ++i)
        for (size_t j = 0; j < c; ++j) VS_EQ(t(i, j), a(r0 + i % r, c0 + j));
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < 2 * c; ++j) VS_EQ(h(i, j), a(r0 + i, c0 + j % c));
}
// two windows of one matrix, a window and its matrix
ENTRY(windows)
{
    size_t r = vs_size(1, 2), c = vs_size(1, 2), p = vs_size(0, 2), q = vs_size(0, 2), s = vs_size(0, 1), t = vs_size(0, 1);
    Arr<double> a(4, 4);
    Matrix<double> m = mat(a);
    const Matrix<double> &k = m;
    auto v = m(Range{ p, p + r }, Range{ q, q + c });
    auto w = m(Range{ s, s + r }, Range{ t, t + c });
    Matrix<double> x = u::vstack(v, w), y = u::hstack(v, w), z = u::vstack(k(Range{ p, p + r }, Range{ 0, 4 }), k), o = u::hstack(m, k(Range{ 0, 4 }, Range{ q, q + c }));
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            VS_EQ(x(i, j), a(p + i, q + j));
            VS_EQ(x(r + i, j), a(s + i, t + j));
            VS_EQ(y(i, j), a(p + i, q + j));
            VS_EQ(y(i, c + j), a(s + i, t + j));
        }
    VS_IEQ(z.rows(), r + 4);
    VS_IEQ(o.cols(), c + 4);
    for (size_t i = 0; i < 4; ++i)
        for (size_t j = 0; j < 4; ++j) {
            VS_EQ(z(r + i, j), a(i, j));
            VS_EQ(o(i, j), a(i, j));
        }
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < 4; ++j) VS_EQ(z(i, j), a(p + i, j));
    for (size_t i = 0; i < 4; ++i)
        for (size_t j = 0; j < c; ++j) VS_EQ(o(i, 4 + j), a(i, q + j));
}
ENTRY(larger)
{
    static const size_t S[][3] = { { 11, 10, 2 }, { 2, 12, 9 }, { 12, 2, 12 }, { 10, 10, 10 } };
    size_t w = vs_size(0, 3), r = S[w][0], c = S[w][1], p = S[w][2];
    Arr<double> a(r, c), b(p, c), d(r, p);
    auto t = u::vstack(mat(a), mat(b));
    VS_IEQ(t.rows(), r + p);
    VS_IEQ(t.cols(), c);
    for (size_t i = 0; i < r + p; ++i)
        for (size_t j = 0; j < c; ++j) VS_EQ(t(i, j), i < r ? a(i, j) : b(i - r, j));
    auto h = u::hstack(mat(a), mat(d));
    VS_IEQ(h.rows(), r);
    VS_IEQ(h.cols(), c + p);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c + p; ++j) VS_EQ(h(i, j), j < c ? a(i, j) : d(i, j - c));
}
