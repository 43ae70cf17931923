//B A n x k, B k x m with n,k,m in 0..4 (double), 0..3 (complex, int, mixed), 6x5x7, inner dimensions up to 18 and outer ones up to 15; arbitrary entries; exact arithmetic
//B also: left factors and vectors up to 15 rows
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
template <typename TR, typename TA, typename TB>
Arr<TR> prod(const Arr<TA> &a, const Arr<TB> &b)
{
    Arr<TR> p(a.r, b.c, false);
    for (size_t j = 0; j < b.c; ++j)
        for (size_t i = 0; i < a.r; ++i) {
            TR s = TR(0);
            for (size_t l = 0; l < a.c; ++l) s += TR(a(i, l)) * TR(b(l, j));
            p(i, j) = s;
        }
    return p;
}
#define MUL(NAME, TA, TB, TR, HI)                                              \
    ENTRY(NAME)                                                                \
    {                                                                          \
        size_t n = vs_size(0, HI), k = vs_size(0, HI), m = vs_size(0, HI);     \
        Arr<TA> a(n, k); if (!std::is_same_v<TA, TB>) moderate(a); \
        Arr<TB> b(k, m); if (!std::is_same_v<TA, TB>) moderate(b); \
        const Matrix<TA> A = mat(a);                                           \
        const Matrix<TB> B = mat(b);                                           \
        auto C = A * B;                                                        \
        VS_ASSERT(std::is_same_v<decltype(C), Matrix<TR>>); \
        Arr<TR> p = prod<TR>(a, b);                                            \
        SAME_MAT(C, p);                                                        \
        SAME_MAT(A, a);                                                        \
        SAME_MAT(B, b);                                                        \
    }
MUL(mul_d, double, double, double, 4)
MUL(mul_i, int, int, int, 3)
MUL(mul_c, cd, cd, cd, 3)
MUL(mul_dc, double, cd, cd, 2)
MUL(mul_cd, cd, double, cd, 2)
MUL(mul_id, int, double, double, 2)
MUL(mul_di, double, int, double, 2)
MUL(mul_ff, float, float, float, 2)
MUL(mul_fd, float, double, double, 2)
MUL(mul_df, double, float, double, 2)
MUL(mul_cfd, cf, double, cd, 2)
MUL(mul_dcf, double, cf, cd, 2)
MUL(mul_icf, int, cf, cf, 2)
MUL(mul_lf, long, float, float, 2)
MUL(mul_fl, float, long, float, 2)
MUL(mul_fi, float, int, float, 2)
MUL(mul_ild, int, ld, ld, 2)
// long inner dimensions
ENTRY(mul_long)
{
    size_t n = vs_size(1, 3), k = 6 + 3 * vs_size(0, 4), m = vs_size(1, 3);
    Arr<double> a(n, k), b(k, m);
    const Matrix<double> A = mat(a), B = mat(b);
    Arr<double> p = prod<double>(a, b);
    SAME_MAT(A * B, p);
    Arr<double> x(k, 1);
    const Vector<double> v = vec(x);
    Arr<double> q = prod<double>(a, x);
    SAME_VEC(A * v, q);
    SAME_VEC(malg::dot(A, v), q);
}
ENTRY(mul_long_c)
{
    size_t n = vs_size(1, 2), k = 5 + 4 * vs_size(0, 1), m = vs_size(1, 2);
    Arr<cd> a(n, k), b(k, m);
    const Matrix<cd> A = mat(a), B = mat(b);
    Arr<cd> p = prod<cd>(a, b);
    SAME_MAT(A * B, p);
    Arr<cd> x(k, 1);
    const Vector<cd> v = vec(x);
    Arr<cd> q = prod<cd>(a, x);
    SAME_VEC(A * v, q);
    SAME_VEC(malg::dot(A, v), q);
}
ENTRY(mul_long_i)
{
    size_t n = vs_size(1, 2), k = 5 + 4 * vs_size(0, 2), m = vs_size(1, 2);
    Arr<int> a(n, k), b(k, m);
    const Matrix<int> A = mat(a), B = mat(b);
    Arr<int> p = prod<int>(a, b);
    SAME_MAT(A * B, p);
    Arr<int> x(k, 1);
    const Vector<int> v = vec(x);
    Arr<int> q = prod<int>(a, x);
    SAME_VEC(A * v, q);
    SAME_VEC(malg::dot(A, v), q);
}
ENTRY(mul_tall)
{
    size_t n = 6 + 3 * vs_size(0, 3), k = vs_size(1, 2), m = vs_size(1, 2);
    Arr<double> a(n, k), b(k, m);
    const Matrix<double> A = mat(a), B = mat(b);
    Arr<double> p = prod<double>(a, b);
    SAME_MAT(A * B, p);
    Arr<double> d(m, n);
    Arr<double> q = prod<double>(b, d);
    SAME_MAT(B * mat(d), q);
    Arr<double> x(k, 1);
    Arr<double> s = prod<double>(a, x);
    SAME_VEC(A * vec(x), s);
    SAME_VEC(malg::dot(A, vec(x)), s);
}
ENTRY(mul_assign_large)
{
    size_t n = vs_size(1, 7), k = vs_size(5, 6);
    Arr<double> a(n, k), b(k, k);
    Matrix<double> A = mat(a);
    A *= mat(b);
    Arr<double> p = prod<double>(a, b);
    SAME_MAT(A, p);
}
ENTRY(mul_big)
{
    bool tall = vs_size(0, 1);
    Arr<double> a(6, 5), b(5, tall ? 7 : 1);
    Matrix<double> A = mat(a), B = mat(b);
    Arr<double> p = prod<double>(a, b);
    SAME_MAT(A * B, p);
}
#define MATVEC(NAME, TA, TB, TR, HI)                            \
    ENTRY(NAME)                                                 \
    {                                                           \
        size_t n = vs_size(0, HI), k = vs_size(0, HI);          \
        Arr<TA> a(n, k);                                        \
        Arr<TB> b(k, 1);                                        \
        const Matrix<TA> A = mat(a);                            \
        const Vector<TB> v = vec(b);                            \
        Arr<TR> p = prod<TR>(a, b);                             \
        auto x = A * v;                                         \
        auto y = malg::dot(A, v);                               \
        VS_ASSERT(std::is_same_v<decltype(x), Vector<TR>>); \
        SAME_VEC(x, p);                                         \
        SAME_VEC(y, p);                                         \
        SAME_MAT(A, a);                                         \
        SAME_VEC(v, b);                                         \
    }
MATVEC(matvec_d, double, double, double, 5)
MATVEC(matvec_i, int, int, int, 3)
MATVEC(matvec_c, cd, cd, cd, 3)
MATVEC(matvec_cd, cd, double, cd, 2)
MATVEC(matvec_dc, double, cd, cd, 2)
MATVEC(matvec_fd, float, double, double, 2)
MATVEC(matvec_df, double, float, double, 2)
MATVEC(matvec_cfd, cf, double, cd, 2)
MATVEC(matvec_icf, int, cf, cf, 2)
#define DOT(NAME, TA, TB, TR)                  \
    ENTRY(NAME)                                \
    {                                          \
        size_t n = sizes(0, 5, 9, 16);         \
        Arr<TA> a(1, n);                       \
        Arr<TB> b(n, 1);                       \
        TR s = malg::dot(vec(a), vec(b));      \
        VS_SAME(s, (prod<TR>(a, b)(0, 0)));    \
    }
DOT(dot_d, double, double, double)
DOT(dot_i, int, int, int)
DOT(dot_c, cd, cd, cd)
DOT(dot_cd, cd, double, cd)
DOT(dot_id, int, double, double)
DOT(dot_fd, float, double, double)
DOT(dot_df, double, float, double)
DOT(dot_cfd, cf, double, cd)
DOT(dot_icf, int, cf, cf)
DOT(dot_fi, float, int, float)
DOT(dot_fl, float, long, float)
// extended precision is kept throughout
ENTRY(extended)
{
    vs_extended();
    size_t n = vs_size(1, 2), m = vs_size(1, 3);
    Arr<ld> a(n, m), b(m, n);
    Arr<ld> p = prod<ld>(a, b);
    Matrix<ld> A = mat(a), B = mat(b), C = A * B;
    for (size_t i = 0; i < n * n; ++i) VS_LEQ(C[i], p[i]);
    Vector<ld> x(m), y(m);
    for (size_t i = 0; i < m; ++i) {
        x[i] = a(0, i);
        y[i] = b(i, 0);
    }
    VS_LEQ(malg::dot(x, y), p(0, 0));
    Vector<ld> z = A * y, w = malg::dot(A, y);
    for (size_t i = 0; i < n; ++i) {
        VS_LEQ(z[i], p(i, 0));
        VS_LEQ(w[i], p(i, 0));
    }
}
// in place
ENTRY(mul_assign)
{
    size_t n = vs_size(0, 4), k = vs_size(0, 4);
    Arr<double> a(n, k), b(k, k);
    Matrix<double> A = mat(a);
    const Matrix<double> B = mat(b);
    VS_ASSERT(&(A *= B) == &A);
    Arr<double> p = prod<double>(a, b);
    SAME_MAT(A, p);
    SAME_MAT(B, b);
}
ENTRY(mul_assign_c)
{
    size_t n = vs_size(0, 2), k = vs_size(0, 2);
    Arr<cd> a(n, k);
    Arr<double> b(k, k);
    Matrix<cd> A = mat(a);
    A *= mat(b);
    Arr<cd> p = prod<cd>(a, b);
    SAME_MAT(A, p);
}
// a matrix multiplied by itself, in place and not
ENTRY(mul_self)
{
    size_t n = vs_size(0, 4);
    Arr<double> a(n, n);
    Matrix<double> A = mat(a);
    Arr<double> p = prod<double>(a, a);
    SAME_MAT(A * A, p);
    A *= A;
    SAME_MAT(A, p);
    Matrix<double> B = mat(a);
    B = B * B;
    SAME_MAT(B, p);
}
