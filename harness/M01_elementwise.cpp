//B matrices 0..4 x 0..4 and 9x7, 2x17; entries real, complex, int and mixed; exact arithmetic
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
template <typename T> struct conv { static T f(T a) { return a; } };
#define BIN(NAME, TA, TB, TR, R, C)                                                \
    ENTRY(NAME)                                                                    \
    {                                                                              \
        size_t r = sizes(0, R, 9, 2), c = sizes(0, C, 7, 17);                      \
        Arr<TA> a(r, c); if (!std::is_same_v<TA, TB>) moderate(a); \
        Arr<TB> b(r, c); if (!std::is_same_v<TA, TB>) moderate(b); \
        const Matrix<TA> A = mat(a);                                               \
        const Matrix<TB> B = mat(b);                                               \
        auto S = A + B;                                                            \
        auto D = A - B;                                                            \
        VS_ASSERT(std::is_same_v<decltype(S), Matrix<TR>>); \
        Arr<TR> s(r, c, false), d(r, c, false);                                    \
        for (size_t i = 0; i < r * c; ++i) {                                       \
            s[i] = TR(a[i]) + TR(b[i]);                                            \
            d[i] = TR(a[i]) - TR(b[i]);                                            \
        }                                                                          \
        SAME_MAT(S, s);                                                            \
        SAME_MAT(D, d);                                                            \
        SAME_MAT(A, a);                                                            \
        SAME_MAT(B, b);                                                            \
    }
BIN(add_dd, double, double, double, 4, 4)
BIN(add_ii, int, int, int, 3, 3)
BIN(add_cc, cd, cd, cd, 2, 2)
BIN(add_dc, double, cd, cd, 2, 2)
BIN(add_cd, cd, double, cd, 2, 2)
BIN(add_id, int, double, double, 2, 2)
BIN(add_ff, float, float, float, 2, 2)
BIN(add_fd, float, double, double, 2, 2)
BIN(add_df, double, float, double, 2, 2)
BIN(add_cfd, cf, double, cd, 2, 2)
BIN(add_dcf, double, cf, cd, 2, 2)
BIN(add_cfc, cf, cd, cd, 2, 2)
BIN(add_icf, int, cf, cf, 2, 2)
BIN(add_ldd, ld, double, ld, 2, 2)
BIN(add_ll, long, long, long, 2, 2)
BIN(add_il, int, long, long, 2, 2)
BIN(add_lf, long, float, float, 2, 2)
BIN(add_fl, float, long, float, 2, 2)
BIN(add_fi, float, int, float, 2, 2)
BIN(add_lc, long, cd, cd, 2, 2)
BIN(add_ild, int, ld, ld, 2, 2)
#define SCALAR(NAME, TA, TB, TR, DIV)                                \
    ENTRY(NAME)                                                      \
    {                                                                \
        size_t r = sizes(0, 3, 9, 2), c = sizes(0, 3, 3, 17);        \
        Arr<TA> a(r, c);                                             \
        moderate(a); TB b = modest<TB>();                                         \
        const Matrix<TA> A = mat(a);                                 \
        Arr<TR> s(r, c, false), d(r, c, false), m(r, c, false);      \
        for (size_t i = 0; i < r * c; ++i) {                         \
            s[i] = TR(a[i]) + TR(b);                                 \
            d[i] = TR(a[i]) - TR(b);                                 \
            m[i] = TR(a[i]) * TR(b);                                 \
        }                                                            \
        SAME_MAT(A + b, s);                                          \
        SAME_MAT(A - b, d);                                          \
        SAME_MAT(A *b, m);                                           \
        SAME_MAT(b *A, m);                                           \
        if (DIV) {                                                   \
            vs_assume(!(TB(b) == TB(0)));                            \
            for (size_t i = 0; i < r * c; ++i) m[i] = TR(a[i]) / TR(b); \
            SAME_MAT(A / b, m);                                      \
        }                                                            \
        SAME_MAT(A, a);                                              \
    }
SCALAR(scalar_dd, double, double, double, true)
SCALAR(scalar_di, double, int, double, true)
SCALAR(scalar_id, int, double, double, true)
SCALAR(scalar_ii, int, int, int, false)
SCALAR(scalar_cc, cd, cd, cd, false)
SCALAR(scalar_cd, cd, double, cd, true)
SCALAR(scalar_dc, double, cd, cd, false)
SCALAR(scalar_fd, float, double, double, true)
SCALAR(scalar_df, double, float, double, true)
SCALAR(scalar_cfd, cf, double, cd, true)
SCALAR(scalar_dcf, double, cf, cd, false)
SCALAR(scalar_cfi, cf, int, cf, true)
SCALAR(scalar_du, double, unsigned, double, true)
SCALAR(scalar_dl, double, long, double, true)
SCALAR(scalar_ds, double, short, double, true)
SCALAR(scalar_lu, long, unsigned, long, false)
SCALAR(scalar_li, long, int, long, false)
SCALAR(scalar_il, int, long, long, false)
SCALAR(scalar_luc, long, uc, long, false)
SCALAR(scalar_ud, unsigned, double, double, true)
ENTRY(scalar_div_complex)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<cd> a(r, c);
    const Matrix<cd> A = mat(a);
    cd b = vs_any<cd>();
    vs_assume(!(b.real() == 0 && b.imag() == 0));
    auto Q = A / b;
    VS_IEQ(Q.rows(), r);
    VS_IEQ(Q.cols(), c);
    // q b == a
    for (size_t i = 0; i < r * c; ++i) VS_CEQ(Q[i] * b, a[i]);
}
ENTRY(scalar_div_int)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3);
    Arr<int> a(r, c), q(r, c, false);
    int b = vs_int(-7, 7);
    vs_assume(b != 0);
    Matrix<int> A = mat(a);
    for (size_t i = 0; i < r * c; ++i) q[i] = a[i] / b;
    SAME_MAT(A / b, q);
    A /= b;
    SAME_MAT(A, q);
}
#define COMPOUND(NAME, TA, TB)                                       \
    ENTRY(NAME)                                                      \
    {                                                                \
        size_t r = sizes(0, 3, 9, 2), c = sizes(0, 3, 3, 17);        \
        Arr<TA> a(r, c), x(r, c, false);                             \
        Arr<TB> b(r, c);                                             \
        Matrix<TA> A = mat(a);                                       \
        const Matrix<TB> B = mat(b);                                 \
        MatrixBase<TA> *p = &(A += B);                               \
        VS_ASSERT(p == &A);                                          \
        for (size_t i = 0; i < r * c; ++i) x[i] = a[i] + TA(b[i]);   \
        SAME_MAT(A, x);                                              \
        p = &(A -= B);                                               \
        VS_ASSERT(p == &A);                                          \
        SAME_MAT(A, a);                                              \
        A -= B;                                                      \
        for (size_t i = 0; i < r * c; ++i) x[i] = a[i] - TA(b[i]);   \
        SAME_MAT(A, x);                                              \
        SAME_MAT(B, b);                                              \
    }
COMPOUND(compound_dd, double, double)
COMPOUND(compound_cc, cd, cd)
COMPOUND(compound_cd, cd, double)
COMPOUND(compound_ii, int, int)
#define COMPSC(NAME, TA, TB)                                         \
    ENTRY(NAME)                                                      \
    {                                                                \
        size_t r = sizes(0, 3, 9, 2), c = sizes(0, 3, 3, 17);        \
        Arr<TA> a(r, c), x(r, c, false);                             \
        moderate(a); TB b = modest<TB>();                                         \
        for (int op = 0; op < 3; ++op) {                             \
            Matrix<TA> A = mat(a);                                   \
            MatrixBase<TA> *p = op == 0 ? &(A += b) : op == 1 ? &(A -= b) : &(A *= b); \
            VS_ASSERT(p == &A);                                      \
            for (size_t i = 0; i < r * c; ++i)                       \
                x[i] = op == 0 ? a[i] + TA(b) : op == 1 ? a[i] - TA(b) : a[i] * TA(b); \
            SAME_MAT(A, x);                                          \
        }                                                            \
    }
COMPSC(compound_scalar_dd, double, double)
COMPSC(compound_scalar_di, double, int)
COMPSC(compound_scalar_ii, int, int)
COMPSC(compound_scalar_cd, cd, double)
COMPSC(compound_scalar_cc, cd, cd)
COMPSC(compound_scalar_du, double, unsigned)
COMPSC(compound_scalar_lu, long, unsigned)
COMPSC(compound_scalar_li, long, int)
COMPSC(compound_scalar_fi, float, int)
ENTRY(compound_div)
{
    size_t r = sizes(0, 3, 9, 2), c = sizes(0, 3, 3, 17);
    Arr<double> a(r, c);
    double b = vs_real();
    vs_assume(b != 0);
    Matrix<double> A = mat(a);
    VS_ASSERT(&(A /= b) == &A);
    for (size_t i = 0; i < r * c; ++i) VS_EQ(A[i] * b, a[i]);
}
// the scalar may be one of the elements of the matrix
ENTRY(element_as_scalar)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3), k = vs_size(0, r * c - 1);
    Arr<double> a(r, c);
    vs_assume(a[k] != 0);
    double v = a[k];
    Matrix<double> A = mat(a), B = A, C = A, D = A;
    A += A[k];
    B -= B[k];
    C *= C[k];
    D /= D[k];
    for (size_t i = 0; i < r * c; ++i) {
        VS_EQ(A[i], a[i] + v);
        VS_EQ(B[i], a[i] - v);
        VS_EQ(C[i], a[i] * v);
        VS_EQ(D[i] * v, a[i]);
    }
}
// an operand may be the target itself
ENTRY(self_operand)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3);
    Arr<double> a(r, c);
    Matrix<double> A = mat(a), B = A;
    A += A;
    B -= B;
    for (size_t i = 0; i < r * c; ++i) {
        VS_EQ(A[i], 2 * a[i]);
        VS_EQ(B[i], 0.0);
    }
    Matrix<double> C = A;
    C = C + C;
    for (size_t i = 0; i < r * c; ++i) VS_EQ(C[i], 4 * a[i]);
}
// extended precision is kept throughout
ENTRY(extended)
{
    vs_extended();
    size_t n = vs_size(1, 4);
    Arr<ld> a(1, n), b(1, n);
    ld k = vs_any<ld>();
    const Matrix<ld> A = mat(a), B = mat(b);
    Matrix<ld> s = A + B, d = A - B, p = A * k, q = k * A, u = A + k, v = A - k;
    for (size_t i = 0; i < n; ++i) {
        VS_LEQ(s[i], a[i] + b[i]);
        VS_LEQ(d[i], a[i] - b[i]);
        VS_LEQ(p[i], a[i] * k);
        VS_LEQ(q[i], a[i] * k);
        VS_LEQ(u[i], a[i] + k);
        VS_LEQ(v[i], a[i] - k);
    }
    Matrix<ld> m = mat(a);
    m *= k;
    for (size_t i = 0; i < n; ++i) VS_LEQ(m[i], a[i] * k);
    m += B;
    for (size_t i = 0; i < n; ++i) VS_LEQ(m[i], a[i] * k + b[i]);
    m -= k;
    for (size_t i = 0; i < n; ++i) VS_LEQ(m[i], a[i] * k + b[i] - k);
}
