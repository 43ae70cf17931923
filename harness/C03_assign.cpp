//B shapes 0..4 x 0..4 for source and target (every combination), plus 7x9, 3x10..14 and five larger shapes up to 9x9; element values unbounded
//B aliasing: every rectangle of matrices up to 4x4 assigned back to the matrix it views
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
template <typename T>
static void copies()
{
    size_t r = vs_size(0, 5), c = vs_size(0, 4);
    if (r == 5) {
        r = c ? 3 : 7;
        c = c ? 10 + c : 9;
    }
    Arr<T> a(r, c), b(r, c);
    Matrix<T> m = mat(a);
    Matrix<T> k(m);
    SAME_MAT(k, a);
    const MatrixBase<T> &mb = m;
    Matrix<T> l(mb);
    SAME_MAT(l, a);
    for (size_t i = 0; i < r * c; ++i) k[i] = b[i];
    SAME_MAT(m, a);
    SAME_MAT(l, a);
    SAME_MAT(k, b);
    Matrix<T> v(std::move(m));
    SAME_MAT(v, a);
    // the moved-from matrix is still a matrix: it can be measured, copied and reused
    Matrix<T> left(m);
    VS_IEQ(left.rows(), m.rows());
    VS_IEQ(left.cols(), m.cols());
    // and it is empty: the elements belong to the target now
    VS_IEQ(m.rows(), 0);
    VS_IEQ(m.cols(), 0);
    m = mat(b);
    SAME_MAT(m, b);
    Matrix<T> took(1, 1);
    took = std::move(m);
    SAME_MAT(took, b);
    Matrix<T> left2(m);
    VS_IEQ(left2.size(), m.size());
    v = *&v;
    SAME_MAT(v, a);
    Matrix<T> &vr = v;
    v             = std::move(vr);
    SAME_MAT(v, a);
    const MatrixBase<T> &vb = v;
    v                       = vb;
    SAME_MAT(v, a);
}
ENTRY(copy_d) { copies<double>(); }
ENTRY(copy_c) { copies<cd>(); }
ENTRY(copy_b) { copies<bool>(); }
ENTRY(copy_l) { copies<long>(); }
ENTRY(copy_f) { copies<float>(); }
ENTRY(copy_cf) { copies<cf>(); }
ENTRY(copy_sc) { copies<sc>(); }
template <typename T>
static void assigns()
{
    size_t r = vs_size(0, 4), c = vs_size(0, 4), p = vs_size(0, 4), q = vs_size(0, 4), how = vs_size(0, 2);
    Arr<T> a(r, c), b(p, q);
    Matrix<T> m = mat(a), k = mat(b);
    if (how == 0) m = k;
    if (how == 1) {
        const MatrixBase<T> &kb = k;
        m                       = kb;
    }
    if (how == 2) {
        Matrix<T> t(k);
        m = std::move(t);
    }
    SAME_MAT(m, b);
    SAME_MAT(k, b);
    if (p * q) {
        m[0] = vs_any<T>();
        SAME_MAT(k, b);
    }
}
ENTRY(assign_d) { assigns<double>(); }
ENTRY(assign_i) { assigns<int>(); }
ENTRY(assign_l) { assigns<long>(); }
ENTRY(assign_f) { assigns<float>(); }
ENTRY(convert)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3), p = vs_size(0, 3), q = vs_size(0, 3);
    Arr<int> a(r, c);
    Arr<double> ad(r, c, false);
    for (size_t i = 0; i < r * c; ++i) ad[i] = double(a[i]);
    Matrix<int> m = mat(a);
    Matrix<double> d(m);
    SAME_MAT(d, ad);
    const MatrixBase<int> &mb = m;
    Matrix<double> e(mb);
    SAME_MAT(e, ad);
    Matrix<double> f(p, q, 7.0);
    f = mb;
    SAME_MAT(f, ad);
    SAME_MAT(m, a);
}
ENTRY(convert2)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3), p = vs_size(0, 3), q = vs_size(0, 3);
    Arr<int> a(r, c);
    Arr<double> ad(r, c, false);
    for (size_t i = 0; i < r * c; ++i) ad[i] = double(a[i]);
    Matrix<int> m = mat(a);
    Matrix<double> g(p, q, 7.0);
    g = m;
    SAME_MAT(g, ad);
    SAME_MAT(m, a);
    Matrix<double> h(std::move(m));
    SAME_MAT(h, ad);
}
// a matrix is replaced by a rectangle of itself
ENTRY(alias)
{
    size_t r = vs_size(1, 4), c = vs_size(1, 4), r0 = vs_size(0, r - 1), r1 = vs_size(r0 + 1, r), c0 = vs_size(0, c - 1), c1 = vs_size(c0 + 1, c);
    Arr<double> a(r, c), b(r1 - r0, c1 - c0, false);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) b(i, j) = a(i + r0, j + c0);
    Matrix<double> m = mat(a);
    m                = m(Range{ r0, r1 }, Range{ c0, c1 });
    SAME_MAT(m, b);
    Matrix<double> n       = mat(a);
    const Matrix<double> &k = n;
    n                      = k(Range{ r0, r1 }, Range{ c0, c1 });
    SAME_MAT(n, b);
}
ENTRY(alias_cofactor)
{
    size_t r = vs_size(2, 4), c = vs_size(2, 4), p = vs_size(0, r - 1), q = vs_size(0, c - 1);
    Arr<double> a(r, c), b(r - 1, c - 1, false);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) b(i, j) = a(i + (i >= p), j + (j >= q));
    Matrix<double> m = mat(a);
    m                = CofactorView<Matrix<double>>(&m, p, q);
    SAME_MAT(m, b);
}
ENTRY(from_view)
{
    size_t r = vs_size(1, 4), c = vs_size(1, 4), r0 = vs_size(0, r - 1), r1 = vs_size(r0 + 1, r), c0 = vs_size(0, c - 1), c1 = vs_size(c0 + 1, c);
    Arr<double> a(r, c), b(r1 - r0, c1 - c0, false);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) b(i, j) = a(i + r0, j + c0);
    Matrix<double> m = mat(a);
    Matrix<double> k(m(Range{ r0, r1 }, Range{ c0, c1 }));
    SAME_MAT(k, b);
    Matrix<double> t(2, 2);
    t = m(Range{ r0, r1 }, Range{ c0, c1 });
    SAME_MAT(t, b);
    const Matrix<double> &mc = m;
    Matrix<double> u(mc(Range{ r0, r1 }, Range{ c0, c1 }));
    SAME_MAT(u, b);
    SAME_MAT(m, a);
}
// larger shapes: every way of copying, over a target of another shape
template <typename T>
static void larger()
{
    static const size_t S[][2] = { { 1, 11 }, { 2, 10 }, { 10, 2 }, { 11, 1 }, { 9, 9 } };
    size_t w = vs_size(0, 4), r = S[w][0], c = S[w][1];
    Arr<T> a(r, c);
    Matrix<T> m = mat(a), k(3, 2), l(c, r), o(r, c), p(1, 1);
    const MatrixBase<T> &mb = m;
    k = m;
    SAME_MAT(k, a);
    l = mb;
    SAME_MAT(l, a);
    o = m;
    SAME_MAT(o, a);
    Matrix<T> x(m), y(mb);
    SAME_MAT(x, a);
    SAME_MAT(y, a);
    p = std::move(x);
    SAME_MAT(p, a);
    y = y(Range::all(), Range::all());
    SAME_MAT(y, a);
    SAME_MAT(m, a);
}
ENTRY(larger_d) { larger<double>(); }
ENTRY(larger_i) { larger<int>(); }
ENTRY(larger_c) { larger<cd>(); }
ENTRY(larger_convert)
{
    static const size_t S[][2] = { { 1, 11 }, { 2, 10 }, { 10, 2 }, { 11, 1 }, { 9, 9 } };
    size_t w = vs_size(0, 4), r = S[w][0], c = S[w][1];
    Arr<int> a(r, c);
    Arr<double> ad(r, c, false);
    for (size_t i = 0; i < r * c; ++i) ad[i] = double(a[i]);
    Matrix<int> m = mat(a);
    const MatrixBase<int> &mb = m;
    Matrix<double> d(m), e(mb), f(2, 3, 7.0), g(c, r, 7.0), h(1, 1);
    SAME_MAT(d, ad);
    SAME_MAT(e, ad);
    f = mb;
    SAME_MAT(f, ad);
    g = m;
    SAME_MAT(g, ad);
    h = Matrix<int>(m);
    SAME_MAT(h, ad);
    SAME_MAT(m, a);
}
// every way to a matrix of another element type
template <typename T, typename T2>
static void conversions()
{
    size_t r = vs_size(1, 2), c = vs_size(1, 3), w = vs_size(0, 1);
    Arr<T> a(r, c);
    Arr<T2> e(r, c, false);
    for (size_t i = 0; i < r * c; ++i) e[i] = T2(a[i]);
    Matrix<T> m       = mat(a);
    const Matrix<T> &k = m;
    if (w) {
        Matrix<T2> x(m(Range{ 0, r }, Range{ 0, c }));
        SAME_MAT(x, e);
        Matrix<T2> y(k(Range{ 0, r }, Range{ 0, c }));
        SAME_MAT(y, e);
        Matrix<T2> z(1, 2);
        z = k(Range{ 0, r }, Range{ 0, c });
        SAME_MAT(z, e);
        Matrix<T2> v(r, c);
        v(Range{ 0, r }, Range{ 0, c }) = k(Range{ 0, r }, Range{ 0, c });
        SAME_MAT(v, e);
        v(Range{ 0, r }, Range{ 0, c }) = k;
        SAME_MAT(v, e);
    } else {
        const MatrixBase<T> &b = m;
        Matrix<T2> x(b), y(k), z, v(3, 1);
        SAME_MAT(x, e);
        SAME_MAT(y, e);
        z = b;
        SAME_MAT(z, e);
        v = m;
        SAME_MAT(v, e);
        Matrix<T> n = m;
        Matrix<T2> u(std::move(n));
        SAME_MAT(u, e);
        n = m;
        u = std::move(n);
        SAME_MAT(u, e);
    }
    SAME_MAT(m, a);
}
ENTRY(types_ll) { conversions<long, long long>(); }
ENTRY(types_lu) { conversions<ul, unsigned long long>(); }
ENTRY(types_il) { conversions<int, long>(); }
ENTRY(types_fd) { conversions<float, double>(); }
ENTRY(types_df) { conversions<double, float>(); }
ENTRY(types_dl) { conversions<double, ld>(); }
ENTRY(types_fc) { conversions<float, cd>(); }
ENTRY(types_bi) { conversions<bool, int>(); }
// lists: rows of values replace the matrix, an empty list or an empty first row leaves a consistent object
ENTRY(lists)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3), k = vs_size(0, 4);
    using L = std::initializer_list<std::initializer_list<double>>;
    Arr<double> a(r, c), x(2, 2);
    Matrix<double> m = mat(a);
    if (k == 0) m = L{};
    if (k == 1) m = L{ {} };
    if (k == 2) m = L{ {}, {} };
    if (k == 3) m = L{ { x[0], x[1] }, { x[2], x[3] } };
    if (k == 4) m = L{ { x[0] }, { x[1] }, { x[2] }, { x[3] } };
    if (k < 3) {
        size_t n = 0;
        for (auto &e : m) {
            VS_ASSERT(e == e);
            ++n;
        }
        VS_IEQ(n, m.rows() * m.cols());
        if (m.size()) SAME_MAT(m, a);
    } else if (k == 3) {
        SAME_MAT(m, x);
    } else {
        VS_IEQ(m.rows(), 4);
        VS_IEQ(m.cols(), 1);
        for (size_t i = 0; i < 4; ++i) VS_EQ(m(i, 0), x[i]);
    }
}
