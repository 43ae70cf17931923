//B every rectangle of matrices up to 4x4 (stop index also beyond the matrix), nested rectangles up to 3x3; the coordinate map for all 64-bit sizes and offsets
//B also: views of matrices up to 12 rows or columns (see the entries named large, larger, long, many, tall)
#include "common.hpp"
struct Rect {
    size_t R, C, r0, r1, c0, c1, e1, f1; // e1, f1: effective stops
    Rect(size_t n)
    {
        R  = vs_size(1, n);
        C  = vs_size(1, n);
        r0 = vs_size(0, R - 1);
        r1 = vs_size(r0 + 1, R + 1);
        c0 = vs_size(0, C - 1);
        c1 = vs_size(c0 + 1, C + 1);
        e1 = r1 > R ? R : r1;
        f1 = c1 > C ? C : c1;
        if (r1 > R && vs_bool()) r1 = size_t(-1);
        if (c1 > C && vs_bool()) c1 = size_t(-1);
    }
};
static Arr<double> part(const Arr<double> &a, const Rect &q)
{
    Arr<double> o(q.e1 - q.r0, q.f1 - q.c0, false);
    for (size_t i = 0; i < o.r; ++i)
        for (size_t j = 0; j < o.c; ++j) o(i, j) = a(i + q.r0, j + q.c0);
    return o;
}
ENTRY(read)
{
    Rect q(4);
    Arr<double> a(q.R, q.C), b = part(a, q);
    Matrix<double> m        = mat(a);
    const Matrix<double> &k = m;
    auto v                  = m(Range{ q.r0, q.r1 }, Range{ q.c0, q.c1 });
    const auto &vc          = v;
    auto w                  = k(Range{ q.r0, q.r1 }, Range{ q.c0, q.c1 });
    auto u                  = View<Matrix<double>>(&m, q.r0, q.r1, q.c0, q.c1);
    SAME_MAT(v, b);
    SAME_MAT(w, b);
    SAME_MAT(u, b);
    SAME_MAT(vc, b);
    auto z = malg::utility::view(m, q.r0, q.r1, q.c0, q.c1);
    SAME_MAT(z, b);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_EQ(v.at(i, j), b(i, j));
            VS_EQ(w.at(i, j), b(i, j));
            VS_EQ(vc.at(i, j), b(i, j));
            VS_EQ(v[i * b.c + j], b(i, j));
            VS_EQ(vc[i * b.c + j], b(i, j));
            VS_EQ(w[i * b.c + j], b(i, j));
            VS_ASSERT(&v(i, j) == &m(q.r0 + i, q.c0 + j));
        }
}
ENTRY(rowcol)
{
    size_t R = vs_size(1, 4), C = vs_size(1, 4), i = vs_size(0, R - 1), j = vs_size(0, C - 1);
    size_t s = vs_size(0, C - 1), e = vs_size(s + 1, C + 1), p = vs_size(0, R - 1), q = vs_size(p + 1, R + 1);
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    auto r           = malg::utility::row(m, i, s, e);
    VS_IEQ(r.rows(), 1);
    VS_IEQ(r.cols(), (e > C ? C : e) - s);
    for (size_t k = 0; k < r.cols(); ++k) VS_EQ(r(0, k), a(i, s + k));
    auto c = malg::utility::col(m, j, p, q);
    VS_IEQ(c.cols(), 1);
    VS_IEQ(c.rows(), (q > R ? R : q) - p);
    for (size_t k = 0; k < c.rows(); ++k) VS_EQ(c(k, 0), a(p + k, j));
    auto r2 = malg::utility::row(m, i);
    VS_IEQ(r2.size(), C);
    auto c2 = malg::utility::col(m, j);
    VS_IEQ(c2.size(), R);
    for (size_t k = 0; k < R; ++k) VS_EQ(c2(k, 0), a(k, j));
    auto all = m(Range::all(), Range::all());
    SAME_MAT(all, a);
}
// writing through a view changes exactly the viewed element
ENTRY(write)
{
    Rect q(3);
    size_t i = vs_size(0, q.e1 - q.r0 - 1), j = vs_size(0, q.f1 - q.c0 - 1), how = vs_size(0, 2);
    Arr<double> a(q.R, q.C);
    Matrix<double> m = mat(a);
    auto v           = m(Range{ q.r0, q.r1 }, Range{ q.c0, q.c1 });
    double x         = vs_real();
    if (how == 0) v(i, j) = x;
    if (how == 1) v.at(i, j) = x;
    if (how == 2) v[i * v.cols() + j] = x;
    a(q.r0 + i, q.c0 + j) = x;
    SAME_MAT(m, a);
    // and the view follows later changes of the matrix
    double y              = vs_real();
    m(q.r0 + i, q.c0 + j) = y;
    VS_EQ(v(i, j), y);
}
// assigning to a view fills exactly its rectangle
ENTRY(fill)
{
    Rect q(4);
    size_t how = vs_size(0, 4);
    Arr<double> a(q.R, q.C);
    Matrix<double> m = mat(a);
    auto v           = m(Range{ q.r0, q.r1 }, Range{ q.c0, q.c1 });
    Arr<double> b(q.e1 - q.r0, q.f1 - q.c0);
    Matrix<double> k = mat(b);
    if (how == 0) v = k;
    if (how == 1) v = k(Range::all(), Range::all());
    if (how == 2) {
        const Matrix<double> &kc = k;
        v                        = kc(Range::all(), Range::all());
    }
    if (how == 3) {
        const MatrixBase<double> &kb = k;
        v                            = kb;
    }
    if (how == 4) {
        Arr<int> n(b.r, b.c);
        Matrix<int> ni = mat(n);
        v              = ni;
        for (size_t i = 0; i < b.r * b.c; ++i) b[i] = double(n[i]);
    }
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) a(q.r0 + i, q.c0 + j) = b(i, j);
    SAME_MAT(m, a);
}
// overlapping windows of one matrix: the elements are taken as they were before
ENTRY(fill_overlap)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 3), h = vs_size(1, R), w = vs_size(1, C);
    size_t r0 = vs_size(0, R - h), c0 = vs_size(0, C - w), s0 = vs_size(0, R - h), t0 = vs_size(0, C - w), how = vs_size(0, 4);
    Arr<double> a(R, C);
    Matrix<double> m        = mat(a);
    const Matrix<double> &k = m;
    Range rr{ r0, r0 + h }, rc{ c0, c0 + w }, sr{ s0, s0 + h }, sc{ t0, t0 + w };
    auto v = m(rr, rc);
    auto z = m(sr, sc);
    if (how == 0) v = z;
    if (how == 1) v = k(sr, sc);
    if (how == 2) static_cast<MatrixBase<double> &>(v) = z, v = static_cast<const MatrixBase<double> &>(z);
    if (how == 3) {
        View<View<Matrix<double>>> n(&z, Range{ 0, h }, Range{ 0, w });
        v = n;
    }
    if (how == 4) {
        auto all = m(Range::all(), Range::all());
        View<View<Matrix<double>>> n(&all, rr, rc), o(&all, sr, sc);
        n = o;
    }
    Arr<double> o(a);
    for (size_t i = 0; i < h; ++i)
        for (size_t j = 0; j < w; ++j) o(r0 + i, c0 + j) = a(s0 + i, t0 + j);
    SAME_MAT(m, o);
}
ENTRY(fill_list)
{
    Rect q(4);
    Arr<double> a(q.R, q.C), b(2, 2);
    Matrix<double> m = mat(a);
    auto v           = m(Range{ q.r0, q.r1 }, Range{ q.c0, q.c1 });
    size_t how       = vs_size(0, 2), r = how == 1 ? 1 : 2, c = how == 2 ? 1 : 2;
    if (how == 0) v = { { b[0], b[1] }, { b[2], b[3] } };
    if (how == 1) v = { { b[0], b[1] } };
    if (how == 2) v = { { b[0] }, { b[2] } };
    // a list of another shape is refused and nothing is written
    if (v.rows() == r && v.cols() == c)
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < c; ++j) a(q.r0 + i, q.c0 + j) = b(i, j);
    SAME_MAT(m, a);
}
// a view of a view
ENTRY(nested)
{
    Rect q(3);
    Arr<double> a(q.R, q.C), b = part(a, q);
    Matrix<double> m = mat(a);
    auto v           = m(Range{ q.r0, q.r1 }, Range{ q.c0, q.c1 });
    size_t r0 = vs_size(0, b.r - 1), r1 = vs_size(r0 + 1, b.r + 1), c0 = vs_size(0, b.c - 1), c1 = vs_size(c0 + 1, b.c + 1);
    View<View<Matrix<double>>> w(&v, Range{ r0, r1 }, Range{ c0, c1 });
    VS_IEQ(w.rows(), (r1 > b.r ? b.r : r1) - r0);
    VS_IEQ(w.cols(), (c1 > b.c ? b.c : c1) - c0);
    for (size_t i = 0; i < w.rows(); ++i)
        for (size_t j = 0; j < w.cols(); ++j) VS_EQ(w(i, j), b(r0 + i, c0 + j));
    double x = vs_real();
    w(0, 0)  = x;
    a(q.r0 + r0, q.c0 + c0) = x;
    SAME_MAT(m, a);
}
// the coordinate map, for every 64-bit shape, rectangle and index: a matrix type that only records what is asked of it
struct Probe : MatrixBase<double> {
    size_t R, C;
    mutable size_t lr = 0, lc = 0;
    mutable double cell = 0;
    Probe(size_t r, size_t c) : R(r), C(c) {}
    size_t rows() const override { return R; }
    size_t cols() const override { return C; }
    size_t size() const override { return R * C; }
    double *data() override { return &cell; }
    const double *data() const override { return &cell; }
    double &operator[](size_t) override { return cell; }
    const double &operator[](size_t) const override { return cell; }
    double &operator()(size_t r, size_t c) override { return at(r, c); }
    const double &operator()(size_t r, size_t c) const override { return at(r, c); }
    double &at(size_t r, size_t c) override { lr = r; lc = c; return cell; }
    const double &at(size_t r, size_t c) const override { lr = r; lc = c; return cell; }
};
ENTRY(map64)
{
    size_t R = vs_u64(), C = vs_u64(), r0 = vs_u64(), r1 = vs_u64(), c0 = vs_u64(), c1 = vs_u64(), i = vs_u64(), j = vs_u64();
    vs_assume(r0 < r1);
    vs_assume(c0 < c1);
    vs_assume(r0 < R);
    vs_assume(c0 < C);
    Probe p(R, C);
    View<Probe> v(&p, Range{ r0, r1 }, Range{ c0, c1 });
    size_t nr = (r1 < R ? r1 : R) - r0, nc = (c1 < C ? c1 : C) - c0;
    VS_ASSERT(v.rows() == nr);
    VS_ASSERT(v.cols() == nc);
    VS_ASSERT(v.rows() >= 1 && v.cols() >= 1);
    vs_assume(i < nr);
    vs_assume(j < nc);
    (void)v(i, j);
    VS_ASSERT(p.lr == r0 + i);
    VS_ASSERT(p.lc == c0 + j);
    VS_ASSERT(p.lr < R && p.lc < C);
    (void)v.at(i, j);
    VS_ASSERT(p.lr == r0 + i);
    VS_ASSERT(p.lc == c0 + j);
    const auto &k = v;
    (void)k(i, j);
    VS_ASSERT(p.lr == r0 + i && p.lc == c0 + j);
    (void)k.at(i, j);
    VS_ASSERT(p.lr == r0 + i && p.lc == c0 + j);
}
// larger matrices
ENTRY(larger)
{
    static const size_t S[][6] = { { 2, 12, 0, 2, 1, 11 }, { 12, 2, 1, 11, 0, 2 }, { 10, 10, 0, 99, 1, 99 }, { 1, 13, 0, 1, 3, 13 } };
    size_t w = vs_size(0, 3), how = vs_size(0, 4), R = S[w][0], C = S[w][1], r0 = S[w][2], r1 = S[w][3], c0 = S[w][4], c1 = S[w][5];
    Arr<double> a(R, C), b((r1 > R ? R : r1) - r0, (c1 > C ? C : c1) - c0);
    Matrix<double> m = mat(a), k = mat(b);
    auto v = m(Range{ r0, r1 }, Range{ c0, c1 });
    VS_IEQ(v.rows(), b.r);
    VS_IEQ(v.cols(), b.c);
    VS_IEQ(v.size(), b.r * b.c);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_EQ(v(i, j), a(r0 + i, c0 + j));
            VS_EQ(v[i * b.c + j], a(r0 + i, c0 + j));
        }
    if (how == 0) v = k;
    if (how == 1) v = k(Range::all(), Range::all());
    if (how == 2) {
        const Matrix<double> &kc = k;
        v                        = kc(Range::all(), Range::all());
    }
    if (how == 3) {
        const MatrixBase<double> &kb = k;
        v                            = kb;
    }
    if (how == 4) {
        Matrix<double> p(b.r + 1, b.c + 1);
        for (size_t i = 0; i < b.r; ++i)
            for (size_t j = 0; j < b.c; ++j) p(i, j + 1) = b(i, j);
        v = CofactorView<Matrix<double>>(&p, b.r, 0);
    }
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) a(r0 + i, c0 + j) = b(i, j);
    SAME_MAT(m, a);
    Matrix<double> copy(v);
    SAME_MAT(copy, b);
    // the storage behind a view is that of the matrix
    const auto &vc = v;
    VS_ASSERT(v.data() == m.data() && vc.data() == m.data());
    for (size_t i = 0; i < C; ++i) VS_EQ(malg::utility::row(m, R - 1)(0, i), a(R - 1, i));
    for (size_t i = 0; i < R; ++i) VS_EQ(malg::utility::col(m, C - 1)(i, 0), a(i, C - 1));
}
ENTRY(fill_list_large)
{
    Arr<double> a(11, 3), b(3, 11), x(10, 1), y(1, 10);
    Matrix<double> m = mat(a), k = mat(b);
    auto v = m(Range{ 1, 11 }, Range{ 1, 2 });
    auto w = k(Range{ 1, 2 }, Range{ 0, 10 });
    v = { { x[0] }, { x[1] }, { x[2] }, { x[3] }, { x[4] }, { x[5] }, { x[6] }, { x[7] }, { x[8] }, { x[9] } };
    w = { { y[0], y[1], y[2], y[3], y[4], y[5], y[6], y[7], y[8], y[9] } };
    for (size_t i = 0; i < 10; ++i) {
        a(i + 1, 1) = x[i];
        b(1, i)     = y[i];
    }
    SAME_MAT(m, a);
    SAME_MAT(k, b);
}
// what is left out of a window reaches to the borders of the matrix
ENTRY(defaults)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 3), p = vs_size(0, R - 1), q = vs_size(p + 1, R), x = vs_size(0, C - 1), y = vs_size(x + 1, C), k = vs_size(0, 8);
    Arr<double> a(R, C);
    Matrix<double> m        = mat(a);
    const Matrix<double> &n = m;
    auto block = [&](size_t r0, size_t r1, size_t c0, size_t c1) {
        Arr<double> o(r1 - r0, c1 - c0, false);
        for (size_t i = 0; i < o.r; ++i)
            for (size_t j = 0; j < o.c; ++j) o(i, j) = a(i + r0, j + c0);
        return o;
    };
    if (k == 0) SAME_MAT(View<Matrix<double>>(&m, p), block(p, R, 0, C));
    if (k == 1) SAME_MAT(View<Matrix<double>>(&m, p, q), block(p, q, 0, C));
    if (k == 2) SAME_MAT(View<Matrix<double>>(&m, p, q, x), block(p, q, x, C));
    if (k == 3) SAME_MAT(View<Matrix<double>>(&m, Range{ p, q }), block(p, q, 0, C));
    if (k == 4) SAME_MAT(malg::utility::view(m), a);
    if (k == 4) SAME_MAT(malg::utility::view(n, p), block(p, R, 0, C));
    if (k == 5) SAME_MAT(malg::utility::view(m, p, q), block(p, q, 0, C));
    if (k == 5) SAME_MAT(malg::utility::view(n, p, q, x), block(p, q, x, C));
    if (k == 6) SAME_MAT(malg::utility::row(m, p), block(p, p + 1, 0, C));
    if (k == 6) SAME_MAT(malg::utility::row(n, p, x), block(p, p + 1, x, C));
    if (k == 7) SAME_MAT(malg::utility::col(m, x), block(0, R, x, x + 1));
    if (k == 7) SAME_MAT(malg::utility::col(n, x, p), block(p, R, x, x + 1));
    if (k == 8) SAME_MAT(m(Range{ p, q }, Range::all()), block(p, q, 0, C));
    if (k == 8) SAME_MAT(n(Range::all(), Range{ x, y }), block(0, R, x, y));
    SAME_MAT(m, a);
}
// the window stays on the matrix when the matrix changes: its elements, its storage, its shape
ENTRY(follows)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 3), r0 = vs_size(0, R - 1), r1 = vs_size(r0 + 1, R + 1), c0 = vs_size(0, C - 1), c1 = vs_size(c0 + 1, C + 1), how = vs_size(0, 3);
    Arr<double> a(R, C);
    Matrix<double> m        = mat(a);
    const Matrix<double> &k = m;
    auto v                  = m(Range{ r0, r1 > R ? Range::all().stop : r1 }, Range{ c0, c1 > C ? Range::all().stop : c1 });
    auto w                  = k(Range{ r0, r1 > R ? Range::all().stop : r1 }, Range{ c0, c1 > C ? Range::all().stop : c1 });
    if (how == 0) m(r0, c0) = vs_real();
    if (how == 1) {
        Arr<double> b(R, C);
        m = mat(b);
    }
    if (how == 2) m.resize(R + 1, C + 2);
    if (how == 3) {
        Arr<double> b(r0 + 1, c0 + 1);
        m = mat(b);
    }
    size_t e = std::min(r1 > R ? m.rows() : r1, m.rows()), f = std::min(c1 > C ? m.cols() : c1, m.cols());
    VS_IEQ(v.rows(), e - r0);
    VS_IEQ(v.cols(), f - c0);
    VS_IEQ(w.rows(), e - r0);
    VS_IEQ(w.cols(), f - c0);
    VS_IEQ(v.size(), (e - r0) * (f - c0));
    for (size_t i = 0; i < e - r0; ++i)
        for (size_t j = 0; j < f - c0; ++j) {
            VS_EQ(v(i, j), m(r0 + i, c0 + j));
            VS_EQ(w(i, j), m(r0 + i, c0 + j));
            VS_EQ(v[i * (f - c0) + j], m(r0 + i, c0 + j));
            VS_ASSERT(&v(i, j) == &m(r0 + i, c0 + j));
        }
}
