// vs: steps=20000000 path_s=60 timeout_ms=20000
//B state dimension 1..3 (thorough 4), 1..3 inputs or outputs, every entry arbitrary; diagonal and shift structures up to 5; int and views; exact arithmetic
//B also: structured 8x8 and 9x9 with some arbitrary entries (see the entries named large, larger, long, many, tall)
#include "common.hpp"
#include <malg/control/control.hpp>
using malg::control::ctrb;
using malg::control::obsv;
template <typename T> Arr<T> mul(const Arr<T> &a, const Arr<T> &b)
{
    Arr<T> c(a.r, b.c, false);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < b.c; ++j)
            for (size_t k = 0; k < a.c; ++k) c(i, j) += a(i, k) * b(k, j);
    return c;
}
template <typename T> void controllable(const Arr<T> &a, const Arr<T> &b)
{
    size_t n = a.r, q = b.c;
    Arr<T> e(n, n * q, false), p = b;
    for (size_t k = 0; k < n; ++k) {
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < q; ++j) e(i, k * q + j) = p(i, j);
        p = mul(a, p);
    }
    const Matrix<T> A = mat(a), B = mat(b);
    SAME_MAT(ctrb(A, B), e);
    SAME_MAT(A, a);
    SAME_MAT(B, b);
}
template <typename T> void observable(const Arr<T> &a, const Arr<T> &c)
{
    size_t n = a.r, q = c.r;
    Arr<T> e(n * q, n, false), p = c;
    for (size_t k = 0; k < n; ++k) {
        for (size_t i = 0; i < q; ++i)
            for (size_t j = 0; j < n; ++j) e(k * q + i, j) = p(i, j);
        p = mul(p, a);
    }
    const Matrix<T> A = mat(a), C = mat(c);
    SAME_MAT(obsv(A, C), e);
    SAME_MAT(A, a);
    SAME_MAT(C, c);
}
ENTRY(ctrb_d)
{
    size_t n = vs_size(1, VS_TIER(3, 4)), q = vs_size(1, 3);
    controllable(Arr<double>(n, n), Arr<double>(n, q));
}
ENTRY(obsv_d)
{
    size_t n = vs_size(1, VS_TIER(3, 4)), q = vs_size(1, 3);
    observable(Arr<double>(n, n), Arr<double>(q, n));
}
ENTRY(ints)
{
    size_t n = vs_size(1, 3), q = vs_size(1, 2);
    Arr<int> a(n, n, false), b(n, q, false), c(q, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = vs_int(-9, 9);
    for (size_t i = 0; i < n * q; ++i) b[i] = vs_int(-9, 9), c[i] = vs_int(-9, 9);
    controllable(a, b);
    observable(a, c);
}
ENTRY(complexes)
{
    size_t n = vs_size(1, 2), q = vs_size(1, 2);
    controllable(Arr<cd>(n, n), Arr<cd>(n, q));
    observable(Arr<cd>(n, n), Arr<cd>(q, n));
}
ENTRY(structured)
{
    size_t n = vs_size(4, VS_TIER(5, 7)), k = vs_size(0, 1);
    Arr<double> a(n, n, false), b(n, 1), c(1, n);
    for (size_t i = 0; i < n; ++i) k ? a(i, (i + 1) % n) = vs_real() : a(i, i) = vs_real();
    controllable(a, b);
    observable(a, c);
}
ENTRY(views)
{
    Arr<double> w(3, 3), a(2, 2, false), b(2, 1, false), c(1, 2, false);
    for (size_t i = 0; i < 2; ++i) {
        b[i] = w(1 + i, 0);
        c[i] = w(0, 1 + i);
        for (size_t j = 0; j < 2; ++j) a(i, j) = w(1 + i, 1 + j);
    }
    Matrix<double> W = mat(w);
    Arr<double> ab = mul(a, b), ca = mul(c, a), e(2, 2, false), f(2, 2, false);
    for (size_t i = 0; i < 2; ++i) {
        e(i, 0) = b[i];
        e(i, 1) = ab[i];
        f(0, i) = c[i];
        f(1, i) = ca[i];
    }
    SAME_MAT(ctrb(W({ 1, 3 }, { 1, 3 }), W({ 1, 3 }, { 0, 1 })), e);
    SAME_MAT(obsv(W({ 1, 3 }, { 1, 3 }), W({ 0, 1 }, { 1, 3 })), f);
    SAME_MAT(W, w);
}
ENTRY(mismatch)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3), br = vs_size(1, 3), bc = vs_size(1, 3);
    const Matrix<double> A = mat(Arr<double>(r, c)), B = mat(Arr<double>(br, bc));
    if (r != c || r != br) VS_THROWS(std::runtime_error, ctrb(A, B));
    if (r != c || r != bc) VS_THROWS(std::runtime_error, obsv(A, B));
}
ENTRY(larger)
{
    size_t n = vs_size(8, 9), q = vs_size(1, 2);
    Arr<double> a(n, n, false), b(n, q, false), c(q, n, false);
    for (size_t i = 0; i < n; ++i) {
        a(i, i) = double(i % 3) - 1;
        a(i, (i + 1) % n) = i % 2 ? 1 : -2;
    }
    a(n - 1, 0) = vs_real();
    for (size_t i = 0; i < n * q; ++i) b[i] = vs_real(), c[i] = vs_real();
    controllable(a, b);
    observable(a, c);
}
