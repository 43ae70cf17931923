// Shared harness vocabulary: an array model that shares no code with malg.
#pragma once
#include "vs.h"
#include <malg/control/control.hpp>
#include <malg/linalg.hpp>
#include <malg/math.hpp>
#include <malg/matrix.hpp>
#include <malg/utility.hpp>
#include <malg/vector.hpp>
#include <malg/view.hpp>
#include <vector>
using cd = std::complex<double>;
using malg::CofactorView;
using malg::Matrix;
using malg::MatrixBase;
using malg::Range;
using malg::Vector;
using malg::View;

// plain row-major array; every element arbitrary when built with (r, c)
template <typename T>
struct Arr {
    size_t r, c;
    T *d;
    Arr(size_t r_, size_t c_, bool sym = true) : r(r_), c(c_), d(new T[r_ * c_ + 1])
    {
        for (size_t i = 0; i < r * c; ++i) d[i] = sym ? vs_any<T>() : T(0);
    }
    Arr(const Arr &o) : r(o.r), c(o.c), d(new T[o.r * o.c + 1])
    {
        for (size_t i = 0; i < r * c; ++i) d[i] = o.d[i];
    }
    Arr &operator=(const Arr &o)
    {
        T *n = new T[o.r * o.c + 1];
        for (size_t i = 0; i < o.r * o.c; ++i) n[i] = o.d[i];
        delete[] d;
        d = n;
        r = o.r;
        c = o.c;
        return *this;
    }
    ~Arr() { delete[] d; }
    T &operator()(size_t i, size_t j) { return d[i * c + j]; }
    const T &operator()(size_t i, size_t j) const { return d[i * c + j]; }
    T &operator[](size_t i) { return d[i]; }
    const T &operator[](size_t i) const { return d[i]; }
};
// 64-bit integers of moderate size: converting them to other types is exact
template <typename T>
void moderate(Arr<T> &a)
{
    if constexpr (std::is_same_v<T, long>)
        for (size_t i = 0; i < a.r * a.c; ++i) a[i] = vs_long(-1000, 1000);
}
template <typename T>
T modest()
{
    if constexpr (std::is_same_v<T, long>)
        return vs_long(-1000, 1000);
    else
        return vs_any<T>();
}
template <typename T>
Matrix<T> mat(const Arr<T> &a)
{
    Matrix<T> m(a.r, a.c);
    for (size_t i = 0; i < a.r; ++i)
        for (size_t j = 0; j < a.c; ++j) m(i, j) = a(i, j);
    return m;
}
template <typename T>
Vector<T> vec(const Arr<T> &a)
{
    Vector<T> v(a.r * a.c);
    for (size_t i = 0; i < a.r * a.c; ++i) v[i] = a[i];
    return v;
}
// element-exact agreement, shape included
#define SAME_MAT(m, a)                                    \
    do {                                                  \
        auto &&m_ = (m);                                  \
        VS_IEQ(m_.rows(), (a).r);                         \
        VS_IEQ(m_.cols(), (a).c);                         \
        VS_IEQ(m_.size(), (a).r *(a).c);                  \
        for (size_t i_ = 0; i_ < (a).r; ++i_)             \
            for (size_t j_ = 0; j_ < (a).c; ++j_)         \
                VS_SAME(m_(i_, j_), (a)(i_, j_));        \
    } while (0)
#define SAME_VEC(v, a)                                    \
    do {                                                  \
        auto &&v_ = (v);                                  \
        VS_IEQ(v_.size(), (a).r *(a).c);                  \
        for (size_t i_ = 0; i_ < (a).r * (a).c; ++i_)     \
            VS_SAME(v_[i_], (a)[i_]);                    \
    } while (0)
// the result of an operation whose element type must be T
template <typename T, typename M>
auto typed(M &&m)
{
    using R = std::decay_t<M>;
    VS_ASSERT(std::is_same_v<std::remove_const_t<typename R::value_type>, T>);
    return R(std::forward<M>(m));
}
// sizes: every value lo..hi plus a few larger ones
inline size_t sizes(size_t lo, size_t hi, size_t big, size_t big2 = 67)
{
    size_t n = vs_size(lo, hi + 2);
    return n == hi + 2 ? big2 : n == hi + 1 ? big : n;
}
// large objects: fixed, mostly different elements with a few arbitrary ones (the last, the middle, the first)
template <typename T>
Arr<T> filled(size_t r, size_t c, size_t seed, size_t arbitrary = 2)
{
    Arr<T> a(r, c, false);
    size_t n = r * c;
    for (size_t i = 0; i < n; ++i) a[i] = T(int((i * 37 + seed * 11) % 211) - 105);
    if (n && arbitrary > 0) a[n - 1] = vs_any<T>();
    if (n && arbitrary > 1) a[n / 2] = vs_any<T>();
    if (n && arbitrary > 2) a[0] = vs_any<T>();
    return a;
}
template <typename F>
Arr<double> made(size_t r, size_t c, F f)
{
    Arr<double> a(r, c, false);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) a(i, j) = f(i, j);
    return a;
}
using cf = std::complex<float>;
using ci = std::complex<int>;
using ld = long double;
using uc = unsigned char;
using sc = signed char;
using ul = unsigned long;
// n x n matrices of a class; two elements (three with their images) are arbitrary, dominant: with a large diagonal
enum { CLASSES = 14 };
template <typename T>
Arr<T> of_class(size_t kind, size_t n, bool dominant)
{
    Arr<T> a(n, n, false);
    auto v = [](size_t i, size_t j) { return T(int((i * 3 + j * 5 + i * j) % 7) - 3); };
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            size_t l = i < j ? i : j, h = i < j ? j : i, d = h - l;
            switch (kind) {
            case 0: a(i, j) = v(l, h); break;                                                      // symmetric
            case 1: a(i, j) = i == j ? T(0) : i < j ? v(i, j) : -v(j, i); break;                   // skew
            case 2: a(i, j) = i <= j ? v(i, j) : T(0); break;                                      // upper
            case 3: a(i, j) = i >= j ? v(i, j) : T(0); break;                                      // lower
            case 4: a(i, j) = d <= 1 ? v(i, j) : T(0); break;                                      // tridiagonal
            case 5: a(i, j) = d == 0 ? T(int(i) + 2) : T(0); break;                                // diagonal
            case 6: a(i, j) = T(int((i + n - j) % n) - 1); break;                                  // circulant
            case 7: a(i, j) = d == 0 ? T(2) : h == n - 1 ? T(1) : T(0); break;                     // symmetric arrow
            case 8: a(i, j) = i / 2 == j / 2 ? v(i, j) + T(i == j ? 5 : 0) : T(0); break;          // blocks
            case 9: a(i, j) = i + 1 == j ? T(1) : i == n - 1 ? T(int(j) - 2) : T(0); break;        // companion
            case 10: a(i, j) = T((int(i) + 1) * (int(j) - 1) + (i == j)); break;                   // one plus rank one
            case 11: a(i, j) = i == j + 1 ? T(int(i) + 1) : i <= j ? v(i, j) : T(0); break;        // Hessenberg
            case 12: a(i, j) = i == n - 1 ? v(0, j) : v(i, j); break;                              // equal rows
            default: a(i, j) = i + j == n - 1 ? T(int(i) + 1) : T(0); break;                       // antidiagonal
            }
        }
    T x = vs_any<T>(), y = vs_any<T>();
    size_t k = n / 2;
    switch (kind) {
    case 0: case 7: a(0, n - 1) = a(n - 1, 0) = x; a(k, k) = y; break;
    case 1: a(0, n - 1) = x; a(n - 1, 0) = -x; a(k - 1, k) = y; a(k, k - 1) = -y; break;
    case 2: a(0, n - 1) = x; a(k, k) = y; break;
    case 3: a(n - 1, 0) = x; a(k, k) = y; break;
    case 4: a(0, 1) = x; a(k, k) = y; break;
    case 5: a(0, 0) = x; a(k, k) = y; break;
    case 8: a(0, 1) = x; a(1, 1) = y; break;
    case 9: a(n - 1, 0) = x; a(n - 1, k) = y; break;
    case 11: a(1, 0) = x; a(0, n - 1) = y; break;
    case 12: a(0, 0) = a(n - 1, 0) = x; a(1, k) = y; break;
    case 13: a(0, n - 1) = x; a(n - 1, 0) = y; break;
    default: a(0, 0) = x; a(k, 0) = y;
    }
    if (dominant)
        for (size_t i = 0; i < n; ++i) a(i, i) = i == k && kind != 1 ? a(i, i) : a(i, i) + T(30);
    return a;
}
