//B also: 64-bit and unsigned integers, characters, single and extended precision
#include "common.hpp"
template <typename T>
static void extrema()
{
    size_t n = vs_size(1, 3);
    Arr<T> a(1, n);
    const Vector<T> v = vec(a);
    auto lo = malg::min(v), hi = malg::max(v);
    VS_ASSERT(std::is_same_v<decltype(lo.first), T>);
    VS_ASSERT(lo.second < n && hi.second < n);
    VS_SAME(lo.first, a[lo.second]);
    VS_SAME(hi.first, a[hi.second]);
    for (size_t i = 0; i < n; ++i) {
        VS_ASSERT(!(a[i] < lo.first));
        VS_ASSERT(!(hi.first < a[i]));
    }
    Arr<T> b(n, 2);
    Matrix<T> m = mat(b);
    auto l = typed<T>(malg::min(m)), h = typed<T>(malg::max(m));
    for (size_t j = 0; j < 2; ++j)
        for (size_t i = 0; i < n; ++i) {
            VS_ASSERT(!(b(i, j) < l[j]));
            VS_ASSERT(!(h[j] < b(i, j)));
        }
}
ENTRY(types_minmax_l) { extrema<long>(); }
ENTRY(types_minmax_ul) { extrema<ul>(); }
ENTRY(types_minmax_u) { extrema<unsigned>(); }
ENTRY(types_minmax_f) { extrema<float>(); }
ENTRY(types_minmax_sc) { extrema<sc>(); }
// the sums are kept in the type of the elements
template <typename T>
static void sums(T (*any)())
{
    size_t n = vs_size(0, 3);
    Arr<T> a(n, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = any();
    const Vector<T> v = vec(a);
    const Matrix<T> m = mat(a);
    T s = T(0), t = T(0);
    for (size_t i = 0; i < n * n; ++i) s += a[i];
    for (size_t i = 0; i < n; ++i) t += a(i, i);
    auto x = malg::sum(v);
    auto y = malg::trace(m);
    VS_ASSERT(std::is_same_v<decltype(x), T>);
    VS_ASSERT(std::is_same_v<decltype(y), T>);
    VS_SAME(x, s);
    VS_SAME(y, t);
}
static long wide() { return vs_long(-(1L << 58), 1L << 58); }
static ul uwide() { return ul(vs_long(0, 1L << 58)); }
static unsigned uns() { return unsigned(vs_int(0, 1 << 27)); }
ENTRY(types_sum_l) { sums<long>(wide); }
ENTRY(types_sum_ul) { sums<ul>(uwide); }
ENTRY(types_sum_u) { sums<unsigned>(uns); }
ENTRY(types_sum_f) { sums<float>(vs_any<float>); }
ENTRY(types_sum_cf) { sums<cf>(vs_any<cf>); }
ENTRY(types_sum_ld) { sums<ld>(vs_any<ld>); }
template <typename T>
static void norms()
{
    size_t r = vs_size(1, 2), c = vs_size(1, 2);
    Arr<T> a(r, c);
    const Matrix<T> m = mat(a);
    const Vector<T> v = vec(a);
    using R = malg::is_complex_t<T>;
    R q = 0;
    for (size_t i = 0; i < r * c; ++i) q += std::norm(a[i]);
    auto x = malg::square_norm(m);
    auto y = malg::square_norm(v);
    VS_ASSERT(std::is_same_v<decltype(x), R>);
    VS_EQ(double(x) * double(x), double(q));
    VS_EQ(double(y) * double(y), double(q));
    VS_ASSERT(x >= 0 && y >= 0);
}
ENTRY(types_norm_ld) { norms<ld>(); }
// extended precision is kept throughout
ENTRY(extended)
{
    vs_extended();
    size_t n = vs_size(1, 4);
    Arr<ld> a(1, n);
    ld s = 0;
    for (size_t i = 0; i < n; ++i) s += a[i];
    VS_LEQ(malg::sum(vec(a)), s);
    Arr<ld> m(2, 2);
    VS_LEQ(malg::trace(mat(m)), m(0, 0) + m(1, 1));
}
