//B vectors 0..5, 9 and 17; entries double, int, complex and mixed; exact arithmetic
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
#define BIN(NAME, TA, TB, TR)                                                      \
    ENTRY(NAME)                                                                    \
    {                                                                              \
        size_t n = sizes(0, 5, 9, 17);                                             \
        Arr<TA> a(1, n); if (!std::is_same_v<TA, TB>) moderate(a); \
        Arr<TB> b(1, n); if (!std::is_same_v<TA, TB>) moderate(b); \
        const Vector<TA> A = vec(a);                                               \
        const Vector<TB> B = vec(b);                                               \
        VS_ASSERT(std::is_same_v<decltype(A + B), Vector<TR>>);        \
        Arr<TR> s(1, n, false), d(1, n, false), m(1, n, false);                    \
        for (size_t i = 0; i < n; ++i) {                                           \
            s[i] = TR(a[i]) + TR(b[i]);                                            \
            d[i] = TR(a[i]) - TR(b[i]);                                            \
            m[i] = TR(a[i]) * TR(b[i]);                                            \
        }                                                                          \
        SAME_VEC(A + B, s);                                                        \
        SAME_VEC(A - B, d);                                                        \
        SAME_VEC(A *B, m);                                                         \
        SAME_VEC(A, a);                                                            \
        SAME_VEC(B, b);                                                            \
    }
BIN(vv_dd, double, double, double)
BIN(vv_ii, int, int, int)
BIN(vv_cc, cd, cd, cd)
BIN(vv_dc, double, cd, cd)
BIN(vv_cd, cd, double, cd)
BIN(vv_id, int, double, double)
BIN(vv_ff, float, float, float)
BIN(vv_fd, float, double, double)
BIN(vv_df, double, float, double)
BIN(vv_cfd, cf, double, cd)
BIN(vv_dcf, double, cf, cd)
BIN(vv_cfc, cf, cd, cd)
BIN(vv_icf, int, cf, cf)
BIN(vv_ldd, ld, double, ld)
BIN(vv_lf, long, float, float)
BIN(vv_fl, float, long, float)
BIN(vv_fi, float, int, float)
BIN(vv_ild, int, ld, ld)
#define SCALAR(NAME, TA, TB, TR, DIV, LEFT)                             \
    ENTRY(NAME)                                                         \
    {                                                                   \
        size_t n = sizes(0, 4, 9, 17);                                  \
        Arr<TA> a(1, n);                                                \
        moderate(a); TB b = modest<TB>();                                            \
        const Vector<TA> A = vec(a);                                    \
        Arr<TR> s(1, n, false), d(1, n, false), m(1, n, false);         \
        for (size_t i = 0; i < n; ++i) {                                \
            s[i] = TR(a[i]) + TR(b);                                    \
            d[i] = TR(a[i]) - TR(b);                                    \
            m[i] = TR(a[i]) * TR(b);                                    \
        }                                                               \
        SAME_VEC(A + b, s);                                             \
        SAME_VEC(A - b, d);                                             \
        SAME_VEC(A *b, m);                                              \
        [&](auto bb) { if constexpr (LEFT) SAME_VEC(bb *A, m); }(b);     \
        if (DIV) {                                                      \
            vs_assume(!(TB(b) == TB(0)));                               \
            for (size_t i = 0; i < n; ++i) m[i] = TR(a[i]) / TR(b);     \
            SAME_VEC(A / b, m);                                         \
        }                                                               \
        SAME_VEC(A, a);                                                 \
    }
SCALAR(vs_dd, double, double, double, true, true)
SCALAR(vs_di, double, int, double, true, true)
SCALAR(vs_id, int, double, double, true, true)
SCALAR(vs_ii, int, int, int, false, true)
SCALAR(vs_cc, cd, cd, cd, false, false)
SCALAR(vs_cd, cd, double, cd, true, true)
SCALAR(vs_dc, double, cd, cd, false, false)
SCALAR(vs_fd, float, double, double, true, true)
SCALAR(vs_df, double, float, double, true, true)
SCALAR(vs_cfd, cf, double, cd, true, true)
SCALAR(vs_dcf, double, cf, cd, false, false)
SCALAR(vs_cfi, cf, int, cf, true, true)
SCALAR(vs_du, double, unsigned, double, true, true)
SCALAR(vs_dl, double, long, double, true, true)
SCALAR(vs_ds, double, short, double, true, true)
SCALAR(vs_lu, long, unsigned, long, false, true)
SCALAR(vs_li, long, int, long, false, true)
SCALAR(vs_il, int, long, long, false, true)
SCALAR(vs_luc, long, uc, long, false, true)
SCALAR(vs_ud, unsigned, double, double, true, true)
#define COMPOUND(NAME, TA, TB)                                       \
    ENTRY(NAME)                                                      \
    {                                                                \
        size_t n = sizes(0, 4, 9, 17);                               \
        Arr<TA> a(1, n), x(1, n, false);                             \
        Arr<TB> b(1, n);                                             \
        Vector<TA> A = vec(a);                                       \
        const Vector<TB> B = vec(b);                                 \
        VS_ASSERT(&(A += B) == &A);                                  \
        for (size_t i = 0; i < n; ++i) x[i] = a[i] + TA(b[i]);       \
        SAME_VEC(A, x);                                              \
        VS_ASSERT(&(A -= B) == &A);                                  \
        SAME_VEC(A, a);                                              \
        A -= B;                                                      \
        for (size_t i = 0; i < n; ++i) x[i] = a[i] - TA(b[i]);       \
        SAME_VEC(A, x);                                              \
        SAME_VEC(B, b);                                              \
    }
COMPOUND(compound_dd, double, double)
COMPOUND(compound_cc, cd, cd)
COMPOUND(compound_cd, cd, double)
COMPOUND(compound_ii, int, int)
#define COMPSC(NAME, TA, TB)                                         \
    ENTRY(NAME)                                                      \
    {                                                                \
        size_t n = sizes(0, 4, 9, 17);                               \
        Arr<TA> a(1, n), x(1, n, false);                             \
        moderate(a); TB b = modest<TB>();                                         \
        for (int op = 0; op < 3; ++op) {                             \
            Vector<TA> A = vec(a);                                   \
            Vector<TA> *p = op == 0 ? &(A += b) : op == 1 ? &(A -= b) : &(A *= b); \
            VS_ASSERT(p == &A);                                      \
            for (size_t i = 0; i < n; ++i)                           \
                x[i] = op == 0 ? a[i] + TA(b) : op == 1 ? a[i] - TA(b) : a[i] * TA(b); \
            SAME_VEC(A, x);                                          \
        }                                                            \
    }
COMPSC(compound_scalar_dd, double, double)
COMPSC(compound_scalar_di, double, int)
COMPSC(compound_scalar_ii, int, int)
COMPSC(compound_scalar_cd, cd, double)
COMPSC(compound_scalar_cc, cd, cd)
COMPSC(compound_scalar_du, double, unsigned)
COMPSC(compound_scalar_lu, long, unsigned)
COMPSC(compound_scalar_li, long, int)
COMPSC(compound_scalar_fi, float, int)
ENTRY(compound_div)
{
    size_t n = sizes(0, 4, 9, 17);
    Arr<double> a(1, n);
    double b = vs_real();
    vs_assume(b != 0);
    Vector<double> A = vec(a);
    VS_ASSERT(&(A /= b) == &A);
    for (size_t i = 0; i < n; ++i) VS_EQ(A[i] * b, a[i]);
}
ENTRY(element_as_scalar)
{
    size_t n = vs_size(1, 5), k = vs_size(0, n - 1);
    Arr<double> a(1, n);
    vs_assume(a[k] != 0);
    double v = a[k];
    Vector<double> A = vec(a), B = A, C = A, D = A;
    A += A[k];
    B -= B[k];
    C *= C[k];
    D /= D[k];
    for (size_t i = 0; i < n; ++i) {
        VS_EQ(A[i], a[i] + v);
        VS_EQ(B[i], a[i] - v);
        VS_EQ(C[i], a[i] * v);
        VS_EQ(D[i] * v, a[i]);
    }
}
ENTRY(self_operand)
{
    size_t n = vs_size(0, 5);
    Arr<double> a(1, n);
    Vector<double> A = vec(a), B = A;
    A += A;
    B -= B;
    for (size_t i = 0; i < n; ++i) {
        VS_EQ(A[i], 2 * a[i]);
        VS_EQ(B[i], 0.0);
    }
    A = A + A;
    for (size_t i = 0; i < n; ++i) VS_EQ(A[i], 4 * a[i]);
}
// extended precision is kept throughout
ENTRY(extended)
{
    vs_extended();
    size_t n = vs_size(1, 4);
    Arr<ld> a(1, n), b(1, n);
    ld k = vs_any<ld>();
    const Vector<ld> A = vec(a), B = vec(b);
    Vector<ld> s = A + B, d = A - B, m = A * B, p = A * k, q = k * A, u = A + k, v = A - k;
    for (size_t i = 0; i < n; ++i) {
        VS_LEQ(s[i], a[i] + b[i]);
        VS_LEQ(d[i], a[i] - b[i]);
        VS_LEQ(m[i], a[i] * b[i]);
        VS_LEQ(p[i], a[i] * k);
        VS_LEQ(q[i], a[i] * k);
        VS_LEQ(u[i], a[i] + k);
        VS_LEQ(v[i], a[i] - k);
    }
    Vector<ld> w = vec(a);
    w *= k;
    for (size_t i = 0; i < n; ++i) VS_LEQ(w[i], a[i] * k);
    w += B;
    for (size_t i = 0; i < n; ++i) VS_LEQ(w[i], a[i] * k + b[i]);
    w -= k;
    for (size_t i = 0; i < n; ++i) VS_LEQ(w[i], a[i] * k + b[i] - k);
}
