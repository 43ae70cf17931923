//B rows and columns 0..6 and 13x11, vectors 0..6 and 19; double, int, complex elements
//B also: diagonals up to 13 (see the entries named large, larger, long, many, tall)
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
namespace u = malg::utility;
template <typename T>
static void build()
{
    size_t r = vs_size(0, 7), c = r == 7 ? 11 : vs_size(0, 6);
    if (r == 7) r = 13;
    T x = vs_any<T>();
    if (r * c == 0) {
        VS_THROWS(std::invalid_argument, u::eye<T>(r, c, x));
        VS_THROWS(std::invalid_argument, u::zeros<T>(r, c));
        VS_THROWS(std::invalid_argument, u::ones<T>(r, c));
    } else {
        Matrix<T> e = u::eye<T>(r, c, x), z = u::zeros<T>(r, c), o = u::ones<T>(r, c);
        VS_IEQ(e.rows(), r);
        VS_IEQ(e.cols(), c);
        VS_IEQ(z.rows(), r);
        VS_IEQ(z.cols(), c);
        VS_IEQ(o.rows(), r);
        VS_IEQ(o.cols(), c);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < c; ++j) {
                VS_SAME(e(i, j), i == j ? x : T(0));
                VS_SAME(z(i, j), T(0));
                VS_SAME(o(i, j), T(1));
            }
    }
    if (r == 0) {
        VS_THROWS(std::invalid_argument, u::identity<T>(r, x));
        VS_THROWS(std::invalid_argument, u::zeros<T>(r));
        VS_THROWS(std::invalid_argument, u::ones<T>(r));
    } else {
        Matrix<T> e = u::identity<T>(r, x);
        VS_IEQ(e.rows(), r);
        VS_IEQ(e.cols(), r);
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < r; ++j) VS_SAME(e(i, j), i == j ? x : T(0));
        Vector<T> z = u::zeros<T>(r), o = u::ones<T>(r);
        VS_IEQ(z.size(), r);
        VS_IEQ(o.size(), r);
        for (size_t i = 0; i < r; ++i) {
            VS_SAME(z[i], T(0));
            VS_SAME(o[i], T(1));
        }
    }
}
ENTRY(build_d) { build<double>(); }
ENTRY(build_i) { build<int>(); }
ENTRY(build_c) { build<cd>(); }
ENTRY(build_f) { build<float>(); }
ENTRY(build_l) { build<long>(); }
ENTRY(build_b) { build<bool>(); }
template <typename T>
static void convert()
{
    size_t r = vs_size(1, 7), c = r == 7 ? 9 : vs_size(1, 5);
    Arr<T> a(r, c);
    Matrix<T> m = mat(a);
    Vector<T> d = u::diag(m), f = u::ravel(m), v = u::to_vector(m);
    size_t n    = r < c ? r : c;
    VS_IEQ(d.size(), n);
    for (size_t i = 0; i < n; ++i) VS_SAME(d[i], a(i, i));
    SAME_VEC(f, a);
    SAME_VEC(v, a);
    Matrix<T> D = u::diag(v);
    VS_IEQ(D.rows(), r * c);
    VS_IEQ(D.cols(), r * c);
    for (size_t i = 0; i < r * c; ++i)
        for (size_t j = 0; j < r * c; ++j) VS_SAME(D(i, j), i == j ? a[i] : T(0));
    bool row    = vs_bool();
    Matrix<T> t = u::to_matrix(v, row);
    VS_IEQ(t.rows(), row ? 1 : r * c);
    VS_IEQ(t.cols(), row ? r * c : 1);
    for (size_t i = 0; i < r * c; ++i) VS_SAME(row ? t(0, i) : t(i, 0), a[i]);
    Vector<T> back = u::to_vector(t);
    SAME_VEC(back, a);
}
ENTRY(convert_d) { convert<double>(); }
ENTRY(convert_i) { convert<int>(); }
ENTRY(convert_c) { convert<cd>(); }
ENTRY(convert_f) { convert<float>(); }
ENTRY(convert_l) { convert<long>(); }
ENTRY(convert_b) { convert<bool>(); }
ENTRY(convert_empty)
{
    Vector<double> e;
    bool row         = vs_bool();
    Matrix<double> m = u::to_matrix(e, row);
    VS_IEQ(m.size(), 0);
    VS_IEQ(u::to_vector(m).size(), 0);
    VS_IEQ(u::ravel(m).size(), 0);
    VS_IEQ(u::diag(m).size(), 0);
    VS_IEQ(u::diag(e).size(), 0);
}
ENTRY(ravel_view)
{
    size_t r0 = vs_size(0, 2), r1 = vs_size(r0 + 1, 3), c0 = vs_size(0, 3), c1 = vs_size(c0 + 1, 4);
    Arr<double> a(3, 4);
    Matrix<double> m = mat(a);
    Vector<double> f = u::ravel(m(Range{ r0, r1 }, Range{ c0, c1 })), d = u::diag(m(Range{ r0, r1 }, Range{ c0, c1 }));
    size_t r = r1 - r0, c = c1 - c0;
    VS_IEQ(f.size(), r * c);
    for (size_t i = 0; i < r * c; ++i) VS_EQ(f[i], a(r0 + i / c, c0 + i % c));
    for (size_t i = 0; i < r && i < c; ++i) VS_EQ(d[i], a(r0 + i, c0 + i));
}
template <typename T>
static void diagonal()
{
    static const size_t S[][2] = { { 10, 10 }, { 12, 3 }, { 3, 12 }, { 11, 13 } };
    size_t w = vs_size(0, 3), r = S[w][0], c = S[w][1], n = r < c ? r : c;
    Arr<T> a(r, c);
    Matrix<T> m = mat(a);
    Vector<T> d = u::diag(m);
    VS_IEQ(d.size(), n);
    for (size_t i = 0; i < n; ++i) VS_SAME(d[i], a(i, i));
    SAME_VEC(u::ravel(m), a);
    SAME_VEC(u::to_vector(m), a);
    Matrix<T> D = u::diag(d);
    VS_IEQ(D.rows(), n);
    VS_IEQ(D.cols(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) VS_SAME(D(i, j), i == j ? a(i, i) : T(0));
}
ENTRY(diagonal_d) { diagonal<double>(); }
ENTRY(diagonal_c) { diagonal<cd>(); }
