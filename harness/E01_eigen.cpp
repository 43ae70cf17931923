// vs: path_s=150 timeout_ms=60000 path_s_quick=50 timeout_ms_quick=12000 steps=20000000
//B whole iteration: upper triangular 1x1 and 2x2 (real diagonal), fifteen families of real 2x2 matrices with an arbitrary off-diagonal element; shift: every complex trailing block with nonzero corner (parametrised by its discriminant) and every triangular one, sizes 0..3; Givens factors: every complex 1x1 and 2x2 matrix, every real 3x3 Hessenberg matrix; eigenvectors: every complex upper triangular 1x1 and 2x2, 3x3 real with distinct, equal or partly equal diagonal; Hessenberg: 1x1, 2x2 any, 3x3 any real matrix and any complex one with a first column of rational length, sixteen families of real 4x4 matrices, complex 5x5..7x7 matrices with three arbitrary elements; eigenvectors 4x4 and 5x5 with two
//B also: Givens factors (5, 10, 17) and eigenvectors (9, 14) with one or two arbitrary elements (see the entries named large, larger, long, many, tall)
//A elements the Givens factors and eigenvectors compare with zero (subdiagonal elements, differences of eigenvalues) are either zero or at least 1e-15, above the tolerance of the code
#include "common.hpp"
#include <malg/eigen.hpp>
using namespace malg::eigen;
static cd mul(const cd &a, const cd &b) { return cd(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real()); }
static cd add(const cd &a, const cd &b) { return cd(a.real() + b.real(), a.imag() + b.imag()); }
static cd sub(const cd &a, const cd &b) { return cd(a.real() - b.real(), a.imag() - b.imag()); }
static cd half(const cd &a) { return cd(a.real() / 2, a.imag() / 2); }
static cd conjugate(const cd &a) { return cd(a.real(), -a.imag()); }
static double norm2(const cd &a) { return a.real() * a.real() + a.imag() * a.imag(); }
static cd any() { return vs_any<cd>(); }
static void away(const cd &a) { vs_assume(norm2(a) >= 1e-30); }
typedef Arr<cd> A;
static A prod(const A &a, const A &b)
{
    A m(a.r, b.c, false);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < b.c; ++j)
            for (size_t k = 0; k < a.c; ++k) m(i, j) = add(m(i, j), mul(a(i, k), b(k, j)));
    return m;
}
template <typename M>
static A get(const M &m)
{
    A a(m.rows(), m.cols(), false);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < a.c; ++j) a(i, j) = m(i, j);
    return a;
}
static A star(const A &a)
{
    A m(a.c, a.r, false);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < a.c; ++j) m(j, i) = conjugate(a(i, j));
    return m;
}
static void unitary(const A &a)
{
    A p = prod(a, star(a)), q = prod(star(a), a);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < a.r; ++j) {
            VS_CEQ(p(i, j), cd(i == j, 0));
            VS_CEQ(q(i, j), cd(i == j, 0));
        }
}
static void same(const A &a, const A &b)
{
    VS_IEQ(a.r, b.r);
    VS_IEQ(a.c, b.c);
    for (size_t i = 0; i < a.r * a.c; ++i) VS_CEQ(a[i], b[i]);
}
// ---- spectral shift
static void shift(const Matrix<cd> &m, const cd &e1, const cd &e2, const cd &d)
{
    cd s = wilkinson_shift(m);
    bool one = s.real() == e1.real() && s.imag() == e1.imag();
    if (one) {
        VS_ASSERT(norm2(sub(e1, d)) <= norm2(sub(e2, d)));
    } else {
        VS_CEQ(s, e2);
        VS_ASSERT(norm2(sub(e2, d)) <= norm2(sub(e1, d)));
    }
}
ENTRY(shift_block)
{
    size_t n = vs_size(2, 3);
    A a(n, n);
    // the block [a b; c d] has the eigenvalues (a + d +- t) / 2
    cd t = any(), b(vs_size(1, 2), 0);
    cd p = a(n - 2, n - 2), d = a(n - 1, n - 1);
    cd num = sub(mul(t, t), mul(sub(p, d), sub(p, d)));
    a(n - 2, n - 1) = b;
    a(n - 1, n - 2) = cd(num.real() / (4 * b.real()), num.imag() / (4 * b.real()));
    shift(mat(a), half(add(add(p, d), t)), half(sub(add(p, d), t)), d);
}
ENTRY(shift_triangular)
{
    size_t n = vs_size(2, 3);
    bool up = vs_size(0, 1);
    A a(n, n);
    (up ? a(n - 1, n - 2) : a(n - 2, n - 1)) = cd(0, 0);
    shift(mat(a), a(n - 2, n - 2), a(n - 1, n - 1), a(n - 1, n - 1));
}
ENTRY(shift_small)
{
    A a(1, 1);
    VS_CEQ(wilkinson_shift(mat(a)), cd(0, 0));
}
// ---- Givens factors of a Hessenberg matrix
static void givens(const A &a)
{
    const Matrix<cd> m = mat(a);
    auto [Q, R] = qr_factorise_givens(m);
    SAME_MAT(m, a);
    A q = get(Q), r = get(R);
    VS_IEQ(q.r, a.r);
    VS_IEQ(q.c, a.r);
    VS_IEQ(r.r, a.r);
    VS_IEQ(r.c, a.c);
    unitary(q);
    same(prod(q, r), a);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < i; ++j) VS_CEQ(r(i, j), cd(0, 0));
}
ENTRY(givens_two)
{
    size_t n = vs_size(1, 2);
    A a(n, n);
    if (n == 2) {
        if (vs_size(0, 1)) away(a(1, 0)); else a(1, 0) = cd(0, 0);
    }
    givens(a);
}
ENTRY(givens_three)
{
    Arr<double> x(3, 3);
    A a(3, 3, false);
    size_t z = vs_size(0, 3);
    for (size_t i = 0; i < 3; ++i)
        for (size_t j = i ? i - 1 : 0; j < 3; ++j) {
            if (i == j + 1 && (z >> j & 1)) continue;
            a(i, j) = cd(x(i, j), 0);
            if (i == j + 1) away(a(i, j));
        }
    givens(a);
}
// ---- eigenvectors of an upper triangular matrix
static void vectors(const A &t, bool full, size_t missing)
{
    const Matrix<cd> m = mat(t);
    auto [E, ok] = eigenvectorUpper(m);
    SAME_MAT(m, t);
    size_t n = t.r;
    VS_IEQ(E.rows(), n);
    VS_IEQ(E.cols(), n);
    VS_IEQ(ok, full);
    A e = get(E);
    for (size_t l = 0; l < n; ++l) {
        double len = 0;
        for (size_t i = 0; i < n; ++i) len += norm2(e(i, l));
        VS_EQ(len, l == missing ? 0.0 : 1.0);
        for (size_t i = 0; i < n; ++i) {
            cd s(0, 0);
            for (size_t k = 0; k < n; ++k) s = add(s, mul(t(i, k), e(k, l)));
            VS_CEQ(s, mul(t(l, l), e(i, l)));
            if (i > l) VS_CEQ(e(i, l), cd(0, 0));
        }
    }
}
ENTRY(vectors_two)
{
    size_t n = vs_size(1, 2), k = vs_size(0, 2);
    A t(n, n);
    size_t missing = 9;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) t(i, j) = cd(0, 0);
    if (n == 2) {
        if (k == 0) {
            away(sub(t(0, 0), t(1, 1)));
        } else {
            t(1, 1) = t(0, 0);
            if (k == 1) {
                t(0, 1) = cd(0, 0);
            } else {
                away(t(0, 1));
                missing = 1;
            }
        }
    }
    vectors(t, missing == 9, missing);
}
ENTRY(hessenberg_small)
{
    size_t n = vs_size(1, 2);
    A a(n, n);
    auto [P, H] = hessenberg(mat(a));
    same(get(H), a);
    A p = get(P);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) VS_CEQ(p(i, j), cd(i == j, 0));
}
static void reduced(const A &a)
{
    const Matrix<cd> m = mat(a);
    auto [P, H] = hessenberg(m);
    SAME_MAT(m, a);
    A p = get(P), h = get(H);
    VS_IEQ(p.r, a.r);
    VS_IEQ(h.r, a.r);
    unitary(p);
    same(prod(prod(p, h), star(p)), a);
    for (size_t i = 2; i < a.r; ++i)
        for (size_t j = 0; j + 1 < i; ++j) VS_CEQ(h(i, j), cd(0, 0));
}
ENTRY(hessenberg_three)
{
    A a(3, 3);
    size_t k = vs_size(0, 4);
    double t = vs_real();
    vs_assume(t != 0);
    static const double C[5][4] = { { 3, 0, 4, 0 }, { 0, -3, 4, 0 }, { -5, 0, 0, 12 }, { 3, 4, 0, 12 }, { 0, 0, 3, 4 } };
    a(1, 0) = cd(C[k][0] * t, C[k][1] * t);
    a(2, 0) = cd(C[k][2] * t, C[k][3] * t);
    reduced(a);
}

// every unit of the phase and every length of the first column (the second element zero or not)
ENTRY(hessenberg_real)
{
    Arr<double> x(3, 3);
    A a(3, 3, false);
    size_t z = vs_size(0, 3);
    for (size_t i = 0; i < 9; ++i) a[i] = cd(x[i], 0);
    if (z & 1) a(1, 0) = cd(0, 0);
    if (z & 2) a(2, 0) = cd(0, 0);
    reduced(a);
}
ENTRY(givens_complex)
{
    A a(3, 3);
    a(2, 0) = cd(0, 0);
    away(a(1, 0));
    away(a(2, 1));
    givens(a);
}
ENTRY(vectors_three)
{
    A t(3, 3);
    for (size_t i = 0; i < 3; ++i)
        for (size_t j = 0; j < 3; ++j) t(i, j) = j < i ? cd(0, 0) : cd(t(i, j).real(), VS_TIER(0, t(i, j).imag()));
    away(sub(t(0, 0), t(1, 1)));
    away(sub(t(0, 0), t(2, 2)));
    away(sub(t(1, 1), t(2, 2)));
    vectors(t, true, 9);
}
// ---- the whole iteration, where exact shifts make it end
static void schur(const A &a)
{
    const Matrix<cd> m = mat(a);
    auto [P, T] = QRHessenberg(m);
    SAME_MAT(m, a);
    A p = get(P), t = get(T);
    VS_IEQ(p.r, a.r);
    VS_IEQ(t.r, a.r);
    unitary(p);
    same(prod(prod(p, t), star(p)), a);
    for (size_t i = 1; i < a.r; ++i)
        for (size_t j = 0; j < i; ++j) VS_CEQ(t(i, j), cd(0, 0));
}
ENTRY(schur_triangular)
{
    size_t n = vs_size(1, 2);
    A a(n, n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) a(i, j) = cd(0, 0);
    for (size_t i = 0; i < n; ++i) a(i, i) = cd(a(i, i).real(), 0);
    away(a(n - 1, n - 1));
    schur(a);
}
ENTRY(schur_two)
{
    // [p b; c d] with the eigenvalues (p + d +- t) / 2, any b
    static const double D[5] = {2, -1, 0, 3, -1.5}, T[3] = {2, 0.5, 5};
    double p = D[vs_size(0, 4)], d = 1, t = T[vs_size(0, 2)], b = vs_real();
    vs_assume(b * b >= 1e-4);
    double q = t * t - (p - d) * (p - d);
    if (q == 0 || p + d == t || p + d == -t) return;
    A a(2, 2, false);
    a(0, 0) = cd(p, 0);
    a(0, 1) = cd(b, 0);
    a(1, 0) = cd(q / 4 / b, 0);
    a(1, 1) = cd(d, 0);
    away(a(1, 0));
    schur(a);
}
ENTRY(hessenberg_four)
{
    static const double C[4][3] = { { 1, 2, 2 }, { -2, 3, 6 }, { 0, 3, -4 }, { 0, 0, 0 } };
    static const double D[4][4] = { { 3, 1, 0, 2 }, { 0, 0, 0, 1 }, { 1, 2, 3, -4 }, { 0, 0, 0, 0 } };
    size_t k = vs_size(0, 3), l = vs_size(0, 3);
    Arr<double> x(4, 4);
    A a(4, 4, false);
    for (size_t i = 0; i < 16; ++i) a[i] = cd(i % 4 < 1 || i / 4 == 0 ? x[i] : i % 4 == 1 ? D[l][i / 4] : double((i * i) % 7), 0);
    for (size_t i = 0; i < 3; ++i) a(i + 1, 0) = cd(C[k][i], 0);
    reduced(a);
}
// larger: built backwards from its reduced form, so that every column to be reduced has a rational length
ENTRY(hessenberg_larger)
{
    static const double X[9][8] = { { 0 }, { 0 }, { 3, 4 }, { 1, 2, 2 }, { -1, 1, 3, -5 }, { 1, 2, 2, 0, 4 }, { 2, -2, 4, 3, 4, 0 }, { 2, 0, 1, -1, 3, 0, 1 }, { 1, -1, 2, 0, 0, 1, 1, 1 } };
    size_t n = vs_size(5, 9), phase = vs_size(0, 1);
    A a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i ? i - 1 : 0; j < n; ++j) a(i, j) = cd(double((i * 7 + j * 5) % 11) - 3, double((i + 3 * j) % 5) - 2);
    a(0, n - 1) = any();
    a(n - 1, n - 1) = any();
    a(1, 2) = any();
    for (size_t k = n - 2; k-- > 0;) {
        size_t l = n - 1 - k;
        A x(l, 1, false);
        double len = 0;
        for (size_t i = 0; i < l; ++i) {
            double v = X[l][i];
            x[i] = phase && (i + k) % 2 == 0 ? cd(0, v) : cd(v, 0);
            len += v * v;
        }
        double root = 1;
        while (root * root < len) root += 1;
        double ax = X[l][0] < 0 ? -X[l][0] : X[l][0];
        cd first(-x[0].real() / ax * root, -x[0].imag() / ax * root);
        // the reflector that takes x to (first, 0, ..., 0)
        A u(x), p(n, n, false);
        u[0] = sub(x[0], first);
        double uu = 0;
        for (size_t i = 0; i < l; ++i) uu += norm2(u[i]);
        for (size_t i = 0; i < n; ++i) p(i, i) = cd(1, 0);
        for (size_t i = 0; i < l; ++i)
            for (size_t j = 0; j < l; ++j) {
                cd w = mul(u[i], conjugate(u[j]));
                p(k + 1 + i, k + 1 + j) = sub(p(k + 1 + i, k + 1 + j), cd(2 * w.real() / uu, 2 * w.imag() / uu));
            }
        a(k + 1, k) = first;
        a = prod(prod(p, a), p);
    }
    reduced(a);
}
ENTRY(vectors_four)
{
    size_t n = vs_size(4, 7);
    if (n > 5) n = n == 6 ? 9 : 14;
    A t(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i; j < n; ++j) t(i, j) = cd(i == j ? double(i * i) + 1 : double((i * 7 + j * 5) % 11) - 3, 0);
    t(0, n - 1) = cd(vs_real(), 0);
    t(1, n - 2) = cd(vs_real(), 0);
    vectors(t, true, 99);
}
// larger, built backwards from the triangular factor: the length of every rotation is rational
ENTRY(givens_larger)
{
    static const double C[4][2] = { { 3, 4 }, { -5, 12 }, { 8, -15 }, { 4, 3 } };
    size_t w = vs_size(0, 2), n = w == 0 ? 5 : w == 1 ? 10 : 17, phase = vs_size(0, 1);
    A a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i; j < n; ++j) a(i, j) = i == j ? cd(double(i % 3) + 1, 0) : cd(double((i * 7 + j * 5) % 11) - 3, double((i + 3 * j) % 5) - 2);
    a(0, n - 1) = any();
    a(n - 2, n - 1) = any();
    a(n - 1, n - 1) = any();
    for (size_t k = n - 1; k-- > 0;) {
        double x = C[k % 4][0], y = C[k % 4][1], l = 5;
        while (l * l < x * x + y * y) l += 1;
        cd c(x / l, 0), s = phase ? cd(0, y / l) : cd(y / l, 0);
        for (size_t j = 0; j < n; ++j) {
            cd u = a(k, j), v = a(k + 1, j);
            a(k, j) = sub(mul(c, u), mul(conjugate(s), v));
            a(k + 1, j) = add(mul(s, u), mul(c, v));
        }
    }
    givens(a);
}
