//B also: windows and cofactor views of matrices of integers, single precision and complex numbers up to 3x3, nested windows, as operands of sums, products, comparisons and in-place operations
#include "common.hpp"
template <typename T, typename V>
static void operand(V &v, const Arr<T> &b, const Arr<T> &k)
{
    size_t r = b.r, c = b.c;
    const Matrix<T> K = mat(k);
    Arr<T> s(r, c, false), d(r, c, false), e(r, c, false), t(c, r, false), p(r, r, false);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            s(i, j) = b(i, j) + k(i, j);
            d(i, j) = k(i, j) - b(i, j);
            e(i, j) = b(i, j) * T(3);
            t(j, i) = b(i, j);
        }
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < r; ++j)
            for (size_t l = 0; l < c; ++l) p(i, j) += b(i, l) * k(j, l);
    SAME_MAT(typed<T>(v + K), s);
    SAME_MAT(typed<T>(K + v), s);
    SAME_MAT(typed<T>(K - v), d);
    SAME_MAT(typed<T>(v * T(3)), e);
    SAME_MAT(malg::linalg::transpose(v), t);
    SAME_MAT(v * malg::linalg::transpose(K), p);
    SAME_MAT(v, b);
}
template <typename T>
static void types()
{
    size_t R = vs_size(1, 3), C = vs_size(1, 3), r0 = vs_size(0, R - 1), r1 = vs_size(r0 + 1, R), c0 = vs_size(0, C - 1), c1 = vs_size(c0 + 1, C), how = vs_size(0, 4);
    Arr<T> a(R, C), b(r1 - r0, c1 - c0, false), k(r1 - r0, c1 - c0);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) b(i, j) = a(r0 + i, c0 + j);
    Matrix<T> m        = mat(a);
    const Matrix<T> &n = m;
    auto v             = m(Range{ r0, r1 }, Range{ c0, c1 });
    auto w             = n(Range{ r0, r1 }, Range{ c0, c1 });
    View<View<Matrix<T>>> x(&v, Range::all(), Range::all());
    const Matrix<T> K = mat(k);
    if (how == 0) operand<T>(v, b, k);
    if (how == 1) operand<T>(w, b, k);
    if (how == 2) operand<T>(x, b, k);
    if (how < 3) {
        SAME_MAT(m, a);
        return;
    }
    MatrixBase<T> &q = vs_bool() ? static_cast<MatrixBase<T> &>(v) : static_cast<MatrixBase<T> &>(x);
    if (how == 3) q += K;
    if (how == 4) q -= K;
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) a(r0 + i, c0 + j) = how == 3 ? T(b(i, j) + k(i, j)) : T(b(i, j) - k(i, j));
    SAME_MAT(m, a);
}
ENTRY(types_i) { types<int>(); }
ENTRY(types_f) { types<float>(); }
ENTRY(types_c) { types<cd>(); }
template <typename T>
static void cofactors()
{
    size_t R = vs_size(2, 3), C = vs_size(2, 3), p = vs_size(0, R - 1), q = vs_size(0, C - 1);
    Arr<T> a(R, C), b(R - 1, C - 1, false), k(R - 1, C - 1);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) b(i, j) = a(i + (i >= p), j + (j >= q));
    Matrix<T> m        = mat(a);
    const Matrix<T> &n = m;
    CofactorView<Matrix<T>> v(&m, p, q);
    CofactorView<const Matrix<T>> w(&n, p, q);
    operand<T>(v, b, k);
    operand<T>(w, b, k);
    SAME_MAT(m, a);
}
ENTRY(cofactors_i) { cofactors<int>(); }
ENTRY(cofactors_c) { cofactors<cd>(); }
// a window of a window against another window of the same matrix
ENTRY(nested_overlap)
{
    size_t R = vs_size(2, 3), C = vs_size(2, 3), h = vs_size(1, R - 1), w = vs_size(1, C - 1), how = vs_size(0, 2);
    size_t s0 = vs_size(0, R - h), t0 = vs_size(0, C - w);
    Arr<double> a(R, C), o(a);
    Matrix<double> m = mat(a);
    auto outer       = m(Range{ 1, R }, Range{ 1, C });
    View<View<Matrix<double>>> v(&outer, Range{ 0, h }, Range{ 0, w });
    auto z = m(Range{ s0, s0 + h }, Range{ t0, t0 + w });
    MatrixBase<double> &vb = v;
    if (how == 0) vb += z;
    if (how == 1) vb -= z;
    if (how == 2) v = z + v;
    for (size_t i = 0; i < h; ++i)
        for (size_t j = 0; j < w; ++j) o(1 + i, 1 + j) = how == 1 ? a(1 + i, 1 + j) - a(s0 + i, t0 + j) : a(1 + i, 1 + j) + a(s0 + i, t0 + j);
    SAME_MAT(m, o);
}
