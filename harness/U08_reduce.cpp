//B vectors 0..5, matrices 0..3 x 0..3 (3x4, 4x3 for sums) with arbitrary entries; Euclidean norms up to 6x5, 6x6, and larger extrema and maximum norms (vectors of 15, matrices 9x2, 5x6) with one or two arbitrary elements; exact arithmetic
//B also: vectors up to 15 and shapes up to 12x10 with one or two arbitrary entries (see the entries named large, larger, long, many, tall)
#include "common.hpp"
ENTRY(minmax_v)
{
    size_t n = vs_size(0, 5);
    Arr<double> a(1, n);
    Vector<double> v = vec(a);
    auto lo = malg::min(v), hi = malg::max(v);
    if (n == 0) {
        VS_EQ(lo.first, 0.0);
        VS_EQ(hi.first, 0.0);
        return;
    }
    VS_ASSERT(lo.second < n);
    VS_ASSERT(hi.second < n);
    VS_EQ(lo.first, a[lo.second]);
    VS_EQ(hi.first, a[hi.second]);
    for (size_t i = 0; i < n; ++i) {
        VS_ASSERT(lo.first <= a[i]);
        VS_ASSERT(hi.first >= a[i]);
        // the first of several equal elements
        VS_ASSERT(!(i < lo.second && a[i] == lo.first));
        VS_ASSERT(!(i < hi.second && a[i] == hi.first));
    }
}
ENTRY(minmax_long)
{
    size_t n = 15, i = vs_size(0, n - 1), j = vs_size(0, n - 1);
    Arr<double> a(1, n, false);
    for (size_t k = 0; k < n; ++k) a[k] = double((k * 7) % 11) - 5;
    a[i] = vs_real();
    a[j] = vs_real();
    Vector<double> v = vec(a);
    auto lo = malg::min(v), hi = malg::max(v);
    VS_ASSERT(lo.second < n && hi.second < n);
    VS_EQ(lo.first, a[lo.second]);
    VS_EQ(hi.first, a[hi.second]);
    for (size_t k = 0; k < n; ++k) VS_ASSERT(lo.first <= a[k] && hi.first >= a[k]);
}
ENTRY(minmax_m)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3);
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    Vector<double> lo = malg::min(m), hi = malg::max(m);
    if (r * c == 0) {
        VS_IEQ(lo.size(), 0);
        VS_IEQ(hi.size(), 0);
        return;
    }
    VS_IEQ(lo.size(), c);
    VS_IEQ(hi.size(), c);
    for (size_t j = 0; j < c; ++j) {
        bool l = false, h = false;
        for (size_t i = 0; i < r; ++i) {
            VS_ASSERT(lo[j] <= a(i, j));
            VS_ASSERT(hi[j] >= a(i, j));
            l = l | (lo[j] == a(i, j));
            h = h | (hi[j] == a(i, j));
        }
        VS_ASSERT(l);
        VS_ASSERT(h);
    }
}
template <typename T>
static void sums()
{
    size_t n = sizes(0, 6, 25);
    Arr<T> a(1, n);
    T s = T(0);
    for (size_t i = 0; i < n; ++i) s += a[i];
    VS_SAME(malg::sum(vec(a)), s);
}
ENTRY(sum_d) { sums<double>(); }
ENTRY(sum_c) { sums<cd>(); }
ENTRY(sum_i)
{
    size_t n = vs_size(0, 6);
    Arr<int> a(1, n);
    int s = 0;
    for (size_t i = 0; i < n; ++i) s += a[i];
    VS_SAME(malg::sum(vec(a)), s);
}
template <typename T>
static void traces()
{
    size_t r = vs_size(0, 5), c = vs_size(0, 5);
    Arr<T> a(r, c);
    T t = T(0);
    for (size_t i = 0; i < r && i < c; ++i) t += a(i, i);
    VS_SAME(malg::trace(mat(a)), t);
}
ENTRY(trace_d) { traces<double>(); }
ENTRY(trace_c) { traces<cd>(); }
// |x| with the sign known, to keep the number of cases small
static double mag(const Arr<double> &a, size_t i) { return a[i] < 0 ? -a[i] : a[i]; }
ENTRY(norm_v)
{
    size_t n = vs_size(0, 4);
    Arr<double> a(1, n);
    Vector<double> v = vec(a);
    double s = 0;
    for (size_t i = 0; i < n; ++i) s += a[i] * a[i];
    double q = malg::square_norm(v);
    VS_ASSERT(q >= 0);
    VS_EQ(q * q, s);
    double f = malg::infinity_norm(v);
    bool hit = n == 0;
    for (size_t i = 0; i < n; ++i) {
        VS_ASSERT(f >= a[i]);
        VS_ASSERT(f >= -a[i]);
        hit = hit | (f == a[i]) | (f == -a[i]);
    }
    VS_ASSERT(hit);
    if (n == 0) VS_EQ(f, 0.0);
}
ENTRY(norm_m)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3);
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    double s = 0;
    for (size_t i = 0; i < r * c; ++i) s += a[i] * a[i];
    double q = malg::square_norm(m);
    VS_ASSERT(q >= 0);
    VS_EQ(q * q, s);
    if (r == c) {
        double l = 0;
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < i; ++j) l += a(i, j) * a(i, j);
        double g = malg::sub_norm(m);
        VS_ASSERT(g >= 0);
        VS_EQ(g * g, l);
    } else if (r * c)
        VS_THROWS(std::invalid_argument, malg::sub_norm(m));
}
// largest row sum of magnitudes
ENTRY(norm_inf)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3);
    if (r * c > 6) c = 2;
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    double g         = malg::infinity_norm(m);
    bool hit         = r * c == 0;
    for (size_t i = 0; i < r; ++i) {
        double s = 0;
        for (size_t j = 0; j < c; ++j) s += mag(a, i * c + j);
        VS_ASSERT(g >= s);
        hit = hit | (g == s);
    }
    VS_ASSERT(hit);
    if (r * c == 0) VS_EQ(g, 0.0);
}
ENTRY(norm_complex)
{
    size_t n = vs_size(1, 2);
    Arr<cd> a(n, n);
    Matrix<cd> m = mat(a);
    Vector<cd> v = vec(a);
    double s = 0, l = 0;
    for (size_t i = 0; i < n * n; ++i) s += a[i].real() * a[i].real() + a[i].imag() * a[i].imag();
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < i; ++j) l += a(i, j).real() * a(i, j).real() + a(i, j).imag() * a(i, j).imag();
    double q = malg::square_norm(m), w = malg::square_norm(v), g = malg::sub_norm(m);
    VS_ASSERT(q >= 0 && w >= 0 && g >= 0);
    VS_EQ(q * q, s);
    VS_EQ(w * w, s);
    VS_EQ(g * g, l);
}
ENTRY(length)
{
    size_t r = vs_size(1, 4), c = vs_size(1, 2), j = vs_size(0, c - 1), b = vs_size(0, r), e = vs_size(b, r + 1);
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    double s = 0;
    for (size_t i = b; i < e && i < r; ++i) s += a(i, j) * a(i, j);
    double q = malg::vector_length(m, j, b, e);
    VS_ASSERT(q >= 0);
    VS_EQ(q * q, s);
}
ENTRY(log2)
{
    size_t r = vs_size(1, 2), c = vs_size(1, 2);
    Arr<double> a(r, c);
    for (size_t i = 0; i < r * c; ++i) vs_assume(a[i] >= -3 && a[i] <= 3);
    auto p   = malg::log2_ceil(mat(a));
    double n = malg::infinity_norm(mat(a)), s = 1;
    for (size_t i = 0; i < p.first; ++i) s = s / 2;
    VS_EQ(p.second, s);
    VS_ASSERT(n * s <= 1);
    VS_ASSERT(p.first == 0 || n * s * 2 > 1);
}
ENTRY(projection)
{
    size_t n = vs_size(1, 4);
    Arr<double> a(1, n), b(1, n);
    double ab = 0, bb = 0;
    for (size_t i = 0; i < n; ++i) {
        ab += a[i] * b[i];
        bb += b[i] * b[i];
    }
    vs_assume(bb > 0);
    Vector<double> p = malg::projection(vec(a), vec(b));
    VS_IEQ(p.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(p[i] * bb, b[i] * ab);
}
// Larger matrices, every entry arbitrary: the Euclidean norms have no branches.
ENTRY(norm_large)
{
    size_t r = vs_size(4, 6), c = vs_size(4, 6);
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    double s = 0;
    for (size_t i = 0; i < r * c; ++i) s += a[i] * a[i];
    double q = malg::square_norm(m), w = malg::square_norm(vec(a));
    VS_ASSERT(q >= 0 && w >= 0);
    VS_EQ(q * q, s);
    VS_EQ(w * w, s);
    if (r == c) {
        double l = 0;
        for (size_t i = 0; i < r; ++i)
            for (size_t j = 0; j < i; ++j) l += a(i, j) * a(i, j);
        double g = malg::sub_norm(m);
        VS_ASSERT(g >= 0);
        VS_EQ(g * g, l);
    } else
        VS_THROWS(std::invalid_argument, malg::sub_norm(m));
}
// Larger matrices with two arbitrary elements.
ENTRY(minmax_m_large)
{
    size_t t = vs_size(0, 2);
    size_t r = t == 2 ? 2 : t ? 9 : 5, c = t == 2 ? 10 : t ? 2 : 6;
    size_t i0 = vs_size(0, r - 1), j0 = vs_size(0, c - 1), i1 = (i0 + 1) % r;
    Arr<double> a(r, c, false);
    for (size_t k = 0; k < r * c; ++k) a[k] = double((k * 7) % 11) - 5;
    a(i0, j0) = vs_real();
    a(i1, j0) = vs_real();
    Matrix<double> m = mat(a);
    Vector<double> lo = malg::min(m), hi = malg::max(m);
    VS_IEQ(lo.size(), c);
    VS_IEQ(hi.size(), c);
    for (size_t j = 0; j < c; ++j) {
        bool l = false, h = false;
        for (size_t i = 0; i < r; ++i) {
            VS_ASSERT(lo[j] <= a(i, j));
            VS_ASSERT(hi[j] >= a(i, j));
            l = l | (lo[j] == a(i, j));
            h = h | (hi[j] == a(i, j));
        }
        VS_ASSERT(l);
        VS_ASSERT(h);
    }
}
ENTRY(norm_inf_large)
{
    size_t t = vs_size(0, 2);
    size_t r = t == 2 ? 2 : t ? 9 : 5, c = t == 2 ? 10 : t ? 2 : 6;
    size_t i0 = vs_size(0, r - 1), j0 = vs_size(0, c - 1);
    Arr<double> a(r, c, false);
    for (size_t k = 0; k < r * c; ++k) a[k] = double((k * 7) % 11) - 5;
    a(i0, j0) = vs_real();
    double g = malg::infinity_norm(mat(a)), f = malg::infinity_norm(vec(a));
    bool hit = false, vhit = false;
    for (size_t i = 0; i < r; ++i) {
        double s = 0;
        for (size_t j = 0; j < c; ++j) {
            double x = mag(a, i * c + j);
            s += x;
            VS_ASSERT(f >= x);
            vhit = vhit | (f == x);
        }
        VS_ASSERT(g >= s);
        hit = hit | (g == s);
    }
    VS_ASSERT(hit);
    VS_ASSERT(vhit);
}
// columns of larger matrices, from any start to any end (also beyond the matrix)
template <typename T>
static void columns()
{
    static const size_t S[][2] = { { 3, 2 }, { 7, 2 }, { 12, 1 } };
    size_t w = vs_size(0, 2), r = S[w][0], j = vs_size(0, S[w][1] - 1), s = vs_size(0, r), e = vs_size(s, r + 2);
    Arr<T> a(r, S[w][1]);
    Matrix<T> m = mat(a);
    double t    = 0;
    for (size_t i = s; i < e && i < r; ++i) {
        if constexpr (std::is_same_v<T, cd>) t += a(i, j).real() * a(i, j).real() + a(i, j).imag() * a(i, j).imag();
        else t += a(i, j) * a(i, j);
    }
    double g = malg::vector_length(m, j, s, e);
    VS_ASSERT(g >= 0);
    VS_EQ(g * g, t);
    SAME_MAT(m, a);
}
ENTRY(columns_d) { columns<double>(); }
ENTRY(columns_c) { columns<cd>(); }
template <typename T>
static void lists()
{
    size_t n = sizes(0, 5, 13, 23);
    Arr<T> a(1, n), b(1, n);
    T init = vs_any<T>(), s = init, t = init;
    for (size_t i = 0; i < n; ++i) {
        s += a[i] * b[i];
        t += a[i];
    }
    VS_SAME(malg::utility::inner_product(a.d, a.d + n, b.d, init), s);
    VS_SAME(malg::utility::accumulate(a.d, a.d + n, init), t);
}
ENTRY(lists_d) { lists<double>(); }
ENTRY(lists_c) { lists<cd>(); }
ENTRY(lists_i)
{
    size_t n = sizes(0, 5, 13, 23);
    Arr<int> a(1, n), b(1, n);
    int init = vs_int(-1000, 1000), t = init;
    for (size_t i = 0; i < n; ++i) t += a[i];
    VS_SAME(malg::utility::accumulate(a.d, a.d + n, init), t);
}
template <typename T>
static void trace_large()
{
    static const size_t S[][2] = { { 9, 9 }, { 12, 10 }, { 3, 11 }, { 11, 3 } };
    size_t w = vs_size(0, 3), r = S[w][0], c = S[w][1];
    Arr<T> a(r, c, false);
    for (size_t i = 0; i < r * c; ++i) a[i] = T(double((i * 7) % 13) - 6);
    T t = T(0);
    for (size_t i = 0; i < r && i < c; ++i) {
        a(i, i) = vs_any<T>();
        t += a(i, i);
    }
    VS_SAME(malg::trace(mat(a)), t);
}
ENTRY(trace_large_d) { trace_large<double>(); }
ENTRY(trace_large_c) { trace_large<cd>(); }
ENTRY(norm_larger)
{
    size_t n = vs_size(8, 10);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = double((i * 7) % 13) - 6;
    for (size_t i = 0; i < n; ++i) {
        a(i, 0) = vs_real();
        a(n - 1, i) = vs_real();
    }
    double l = 0, s = 0;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            s += a(i, j) * a(i, j);
            if (j < i) l += a(i, j) * a(i, j);
        }
    double g = malg::sub_norm(mat(a)), q = malg::square_norm(mat(a)), w = malg::square_norm(vec(a));
    VS_ASSERT(g >= 0 && q >= 0 && w >= 0);
    VS_EQ(g * g, l);
    VS_EQ(q * q, s);
    VS_EQ(w * w, s);
}
