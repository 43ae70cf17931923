// vs: path_s=60 timeout_ms=20000
//B storage by columns (ROW_MAJOR not defined): matrices up to 4x4 (5x7 and 11x3 for the positions), resizes up to 4x4, every rectangle of matrices up to 3x4, every cofactor view of matrices 2x2..4x4, every element arbitrary
// The library as it is when the line that asks for storage by rows is commented out.
#include <malg/matrix_base.hpp>
#undef ROW_MAJOR
#include "common.hpp"
#ifdef ROW_MAJOR
static size_t pos(size_t, size_t c, size_t i, size_t j) { return i * c + j; }
#else
static size_t pos(size_t r, size_t, size_t i, size_t j) { return j * r + i; }
#endif
static Arr<double> any(size_t lo, size_t hi)
{
    size_t r = vs_size(lo, hi + 1), c = r == hi + 1 ? 3 : vs_size(lo, hi + 1);
    if (r == hi + 1) r = 11;
    if (c == hi + 1) r = 5, c = 7;
    return Arr<double>(r, c);
}
// linear positions run down the columns, for the matrix and for whatever looks at it
ENTRY(positions)
{
    Arr<double> a       = any(0, 4);
    Matrix<double> m    = mat(a);
    const auto &k       = m;
    SAME_MAT(m, a);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < a.c; ++j) {
            size_t p = pos(a.r, a.c, i, j);
            VS_EQ(m[p], a(i, j));
            VS_EQ(k[p], a(i, j));
            VS_EQ(k.at(i, j), a(i, j));
            VS_EQ(m.data()[p], a(i, j));
            VS_EQ(*(k.begin() + long(p)), a(i, j));
        }
    auto copy = m;
    SAME_MAT(copy, a);
    Matrix<double> other(1, 1);
    other = static_cast<const MatrixBase<double> &>(m);
    SAME_MAT(other, a);
    Matrix<double> moved(std::move(copy));
    SAME_MAT(moved, a);
}
ENTRY(lists)
{
    Arr<double> a(2, 3);
    Matrix<double> m{ { a[0], a[1], a[2] }, { a[3], a[4], a[5] } };
    SAME_MAT(m, a);
    Matrix<double> n(2, 3, { a[0], a[1], a[2], a[3], a[4], a[5] });
    SAME_MAT(n, a);
    std::vector<double> v(a.d, a.d + 6);
    Matrix<double> k(2, 3, v);
    SAME_MAT(k, a);
    k = { { a[1], a[0] }, { a[2], a[3] }, { a[5], a[4] } };
    Arr<double> b(3, 2, false);
    b[0] = a[1], b[1] = a[0], b[2] = a[2], b[3] = a[3], b[4] = a[5], b[5] = a[4];
    SAME_MAT(k, b);
    Matrix<double> w(5, 4);
    auto x = w(Range{ 1, 3 }, Range{ 1, 4 });
    x      = { { a[0], a[1], a[2] }, { a[3], a[4], a[5] } };
    for (size_t i = 0; i < 5; ++i)
        for (size_t j = 0; j < 4; ++j) VS_EQ(w(i, j), (i >= 1 && i < 3 && j >= 1 ? a(i - 1, j - 1) : 0.0));
}
ENTRY(resized)
{
    size_t R = vs_size(0, 3), C = vs_size(1, 3);
    Arr<double> a(R, C);
    size_t r = vs_size(0, 4), c = vs_size(0, 4);
    Matrix<double> m = mat(a);
    m.resize(r, c);
    Arr<double> o(r, c, false);
    for (size_t i = 0; i < r && i < a.r; ++i)
        for (size_t j = 0; j < c && j < a.c; ++j) o(i, j) = a(i, j);
    SAME_MAT(m, o);
}
ENTRY(reshaped)
{
    size_t R = vs_size(1, 4), C = vs_size(1, 4);
    Arr<double> a(R, C);
    size_t r = vs_size(1, 4);
    if (a.r * a.c % r) return;
    Matrix<double> m = mat(a);
    m.reshape(r, a.r * a.c / r);
    VS_IEQ(m.rows(), r);
    VS_IEQ(m.cols(), a.r * a.c / r);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < a.c; ++j) VS_EQ(m[pos(a.r, a.c, i, j)], a(i, j));
    m.reshape(a.r, a.c);
    SAME_MAT(m, a);
}
ENTRY(windows)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 4), r0 = vs_size(0, R - 1), r1 = vs_size(r0 + 1, R + 1), c0 = vs_size(0, C - 1), c1 = vs_size(c0 + 1, C + 1);
    Arr<double> a(R, C);
    Matrix<double> m        = mat(a);
    const Matrix<double> &k = m;
    auto v = m(Range{ r0, r1 }, Range{ c0, c1 });
    auto w = k(Range{ r0, r1 }, Range{ c0, c1 });
    Arr<double> b((r1 > R ? R : r1) - r0, (c1 > C ? C : c1) - c0, false), x(b.r, b.c);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) b(i, j) = a(i + r0, j + c0);
    SAME_MAT(v, b);
    SAME_MAT(w, b);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_EQ(v[pos(b.r, b.c, i, j)], b(i, j));
            VS_EQ(w[pos(b.r, b.c, i, j)], b(i, j));
        }
    Matrix<double> X = mat(x);
    Arr<double> o(a);
    if (vs_bool())
        v = X;
    else {
        for (size_t i = 0; i < b.r; ++i)
            for (size_t j = 0; j < b.c; ++j) v[pos(b.r, b.c, i, j)] = x(i, j);
    }
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) o(i + r0, j + c0) = x(i, j);
    SAME_MAT(m, o);
}
ENTRY(minors)
{
    size_t R = vs_size(2, 4), C = vs_size(2, 4), p = vs_size(0, R - 1), q = vs_size(0, C - 1);
    Arr<double> a(R, C), b(R - 1, C - 1, false), x(R - 1, C - 1), o(a);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            b(i, j)                           = a(i + (i >= p), j + (j >= q));
            o(i + (i >= p), j + (j >= q)) = x(i, j);
        }
    Matrix<double> m = mat(a);
    const auto &k    = m;
    CofactorView<Matrix<double>> v(&m, p, q);
    CofactorView<const Matrix<double>> w(&k, p, q);
    SAME_MAT(v, b);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) {
            VS_EQ(v[pos(b.r, b.c, i, j)], b(i, j));
            VS_EQ(w[pos(b.r, b.c, i, j)], b(i, j));
        }
    v = mat(x);
    SAME_MAT(m, o);
}
