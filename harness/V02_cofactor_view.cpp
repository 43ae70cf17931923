//B matrices 1..5 x 1..5 (every excluded row and column); the coordinate map for all 64-bit shapes
//B also: matrices up to 12 rows or columns (see the entries named large, larger, long, many, tall)
#include "common.hpp"
ENTRY(read)
{
    size_t R = vs_size(1, 5), C = vs_size(1, 5), p = vs_size(0, R - 1), q = vs_size(0, C - 1);
    Arr<double> a(R, C), b(R - 1, C - 1, false);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) b(i, j) = a(i + (i >= p), j + (j >= q));
    Matrix<double> m        = mat(a);
    const Matrix<double> &k = m;
    CofactorView<Matrix<double>> v(&m, p, q);
    CofactorView<const Matrix<double>> w(&k, p, q);
    const auto &vc = v;
    SAME_MAT(v, b);
    SAME_MAT(w, b);
    SAME_MAT(vc, b);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_EQ(v.at(i, j), b(i, j));
            VS_EQ(vc.at(i, j), b(i, j));
            VS_EQ(w.at(i, j), b(i, j));
            VS_EQ(v[i * b.c + j], b(i, j));
            VS_EQ(vc[i * b.c + j], b(i, j));
            VS_EQ(w[i * b.c + j], b(i, j));
        }
    if (R > 1 && C > 1) {
        Matrix<double> copy(v);
        SAME_MAT(copy, b);
        auto f = malg::linalg::cofactor(m, p, q);
        SAME_MAT(f, b);
    }
}
ENTRY(write)
{
    size_t R = vs_size(2, 4), C = vs_size(2, 4), p = vs_size(0, R - 1), q = vs_size(0, C - 1), i = vs_size(0, R - 2), j = vs_size(0, C - 2), how = vs_size(0, 2);
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    CofactorView<Matrix<double>> v(&m, p, q);
    double x = vs_real();
    if (how == 0) v(i, j) = x;
    if (how == 1) v.at(i, j) = x;
    if (how == 2) v[i * v.cols() + j] = x;
    a(i + (i >= p), j + (j >= q)) = x;
    SAME_MAT(m, a);
}
ENTRY(fill)
{
    size_t R = vs_size(2, 4), C = vs_size(2, 4), p = vs_size(0, R - 1), q = vs_size(0, C - 1);
    Arr<double> a(R, C), b(R - 1, C - 1);
    Matrix<double> m = mat(a), k = mat(b);
    CofactorView<Matrix<double>> v(&m, p, q);
    v = k;
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) a(i + (i >= p), j + (j >= q)) = b(i, j);
    SAME_MAT(m, a);
}
// between cofactor views of one matrix, of two, and windows: the elements are copied as they were before
ENTRY(fill_overlap)
{
    size_t R = vs_size(2, 4), C = vs_size(2, 4), p = vs_size(0, R - 1), q = vs_size(0, C - 1), how = vs_size(0, 4);
    size_t s = vs_size(0, how == 3 ? 1 : R - 1), t = vs_size(0, how == 3 ? 1 : C - 1), p1 = p ? 1 : 0, q1 = q ? 1 : 0;
    Arr<double> a(R, C), b(R, C), o(a);
    Matrix<double> m = mat(a), n = mat(b);
    const Matrix<double> &k = m;
    CofactorView<Matrix<double>> v(&m, p, q), w(&m, s, t), x(&n, s, t);
    if (how == 0) v = w;
    if (how == 1) v = x;
    if (how == 2) v = CofactorView<const Matrix<double>>(&k, s, t);
    if (how == 3) v = m(Range{ s, s + R - 1 }, Range{ t, t + C - 1 });
    if (how == 4) m(Range{ p1, p1 + R - 1 }, Range{ q1, q1 + C - 1 }) = w;
    for (size_t i = 0; i < R - 1; ++i)
        for (size_t j = 0; j < C - 1; ++j) {
            double e = (how == 1 ? b : a)(how == 3 ? i + s : i + (i >= s), how == 3 ? j + t : j + (j >= t));
            if (how == 4) o(i + p1, j + q1) = e;
            else o(i + (i >= p), j + (j >= q)) = e;
        }
    SAME_MAT(m, o);
    SAME_MAT(n, b);
    // the views still look at the matrices they were made for
    if (how == 1) {
        double y = vs_real();
        x(0, 0)  = y;
        SAME_MAT(m, o);
    }
}
// minors of minors
ENTRY(nested)
{
    size_t N = vs_size(3, 4), p = vs_size(0, N - 1), q = vs_size(0, N - 1), s = vs_size(0, N - 2), t = vs_size(0, N - 2);
    Arr<double> a(N, N);
    Matrix<double> m = mat(a);
    CofactorView<Matrix<double>> v(&m, p, q);
    CofactorView<CofactorView<Matrix<double>>> w(&v, s, t);
    VS_IEQ(w.rows(), N - 2);
    VS_IEQ(w.cols(), N - 2);
    for (size_t i = 0; i < N - 2; ++i)
        for (size_t j = 0; j < N - 2; ++j) {
            size_t i1 = i + (i >= s), j1 = j + (j >= t);
            VS_EQ(w(i, j), a(i1 + (i1 >= p), j1 + (j1 >= q)));
        }
}
struct Probe : MatrixBase<double> {
    size_t R, C;
    mutable size_t lr = 0, lc = 0;
    mutable double cell = 0;
    Probe(size_t r, size_t c) : R(r), C(c) {}
    size_t rows() const override { return R; }
    size_t cols() const override { return C; }
    size_t size() const override { return R * C; }
    double *data() override { return &cell; }
    const double *data() const override { return &cell; }
    double &operator[](size_t) override { return cell; }
    const double &operator[](size_t) const override { return cell; }
    double &operator()(size_t r, size_t c) override { return at(r, c); }
    const double &operator()(size_t r, size_t c) const override { return at(r, c); }
    double &at(size_t r, size_t c) override { lr = r; lc = c; return cell; }
    const double &at(size_t r, size_t c) const override { lr = r; lc = c; return cell; }
};
ENTRY(map64)
{
    size_t R = vs_u64(), C = vs_u64(), p = vs_u64(), q = vs_u64(), i = vs_u64(), j = vs_u64();
    vs_assume(R >= 1);
    vs_assume(C >= 1);
    vs_assume(p < R);
    vs_assume(q < C);
    Probe m(R, C);
    CofactorView<Probe> v(&m, p, q);
    VS_ASSERT(v.rows() == R - 1);
    VS_ASSERT(v.cols() == C - 1);
    vs_assume(i < R - 1);
    vs_assume(j < C - 1);
    (void)v(i, j);
    // never the excluded row or column, order kept, inside the matrix
    VS_ASSERT(m.lr == (i < p ? i : i + 1));
    VS_ASSERT(m.lc == (j < q ? j : j + 1));
    VS_ASSERT(m.lr != p && m.lc != q);
    VS_ASSERT(m.lr < R && m.lc < C);
    const auto &k = v;
    (void)k.at(i, j);
    VS_ASSERT(m.lr == (i < p ? i : i + 1));
    VS_ASSERT(m.lc == (j < q ? j : j + 1));
}
ENTRY(larger)
{
    static const size_t S[][2] = { { 2, 12 }, { 12, 2 }, { 10, 10 }, { 6, 7 } };
    size_t w = vs_size(0, 3), R = S[w][0], C = S[w][1], pi = vs_size(0, 2), qi = vs_size(0, 2), p = pi == 0 ? 0 : pi == 1 ? R / 2 : R - 1, q = qi == 0 ? 0 : qi == 1 ? C / 2 : C - 1;
    bool how = vs_size(0, 1);
    Arr<double> a(R, C), b(R - 1, C - 1);
    Matrix<double> m = mat(a), k = mat(b);
    CofactorView<Matrix<double>> v(&m, p, q);
    VS_IEQ(v.rows(), R - 1);
    VS_IEQ(v.cols(), C - 1);
    VS_IEQ(v.size(), (R - 1) * (C - 1));
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_EQ(v(i, j), a(i + (i >= p), j + (j >= q)));
            VS_EQ(v[i * b.c + j], a(i + (i >= p), j + (j >= q)));
        }
    const MatrixBase<double> &kb = k;
    if (how) v = kb;
    else v = k(Range::all(), Range::all());
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) a(i + (i >= p), j + (j >= q)) = b(i, j);
    SAME_MAT(m, a);
    const auto &vc = v;
    VS_ASSERT(v.data() == m.data() && vc.data() == m.data());
    Matrix<double> copy(v);
    SAME_MAT(copy, b);
}
// the view stays on the matrix when the matrix changes
ENTRY(follows)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3), p = vs_size(0, r - 1), q = vs_size(0, c - 1), how = vs_size(0, 2);
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    CofactorView<Matrix<double>> v(&m, p, q);
    if (how == 0) m(r - 1, c - 1) = vs_real();
    if (how == 1) {
        Arr<double> b(r, c);
        m = mat(b);
    }
    if (how == 2) m.resize(r + 1, c + 2);
    size_t R = m.rows() - 1, C = m.cols() - 1;
    VS_IEQ(v.rows(), R);
    VS_IEQ(v.cols(), C);
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C; ++j) {
            VS_EQ(v(i, j), m(i + (i >= p), j + (j >= q)));
            VS_EQ(v[i * C + j], m(i + (i >= p), j + (j >= q)));
        }
}
