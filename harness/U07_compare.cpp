//B sizes 0..5 (matrices 1..2 x 1..3) with arbitrary entries; tolerances any positive number
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
namespace u = malg::utility;
template <typename X, typename T>
static void order(const X &x, const X &y, const Arr<T> &a, const Arr<T> &b)
{
    size_t n = a.r * a.c, i = 0;
    while (i < n && a[i] == b[i]) ++i;
    int64_t g = u::compare(x, y), h = u::compare(y, x);
    if (i == n) {
        VS_ASSERT(g == 0);
        VS_ASSERT(h == 0);
    } else if (a[i] < b[i]) {
        // the one-based position of the first difference, negative if the first is smaller
        VS_ASSERT(g == -int64_t(i) - 1);
        VS_ASSERT(h == int64_t(i) + 1);
    } else {
        VS_ASSERT(g == int64_t(i) + 1);
        VS_ASSERT(h == -int64_t(i) - 1);
    }
    VS_ASSERT(u::compare(x, x) == 0);
}
ENTRY(compare_v)
{
    size_t n = vs_size(0, 5), m = vs_size(0, 5);
    Arr<double> a(1, n), b(1, m);
    Vector<double> x = vec(a), y = vec(b);
    if (n != m)
        VS_THROWS(std::invalid_argument, u::compare(x, y));
    else
        order(x, y, a, b);
}
ENTRY(compare_m)
{
    size_t r = vs_size(1, 2), c = vs_size(1, 3);
    Arr<int> a(r, c), b(r, c);
    Matrix<int> x = mat(a), y = mat(b);
    order(x, y, a, b);
    Matrix<int> z(r + 1, c);
    VS_THROWS(std::invalid_argument, u::compare(x, z));
}
template <typename T>
static void compares()
{
    size_t r = vs_size(1, 2), c = vs_size(1, 2);
    Arr<T> a(r, c), b(r, c);
    Matrix<T> x = mat(a), y = mat(b);
    order(x, y, a, b);
    Vector<T> v = vec(a), w = vec(b);
    order(v, w, a, b);
}
ENTRY(compare_l) { compares<long>(); }
ENTRY(compare_ul) { compares<ul>(); }
ENTRY(compare_u) { compares<unsigned>(); }
ENTRY(compare_f) { compares<float>(); }
ENTRY(compare_sc) { compares<sc>(); }
// longer: the first difference is anywhere
ENTRY(compare_long)
{
    Arr<double> a(1, 23), b(a);
    size_t i = vs_size(0, 22);
    b[i]     = vs_real();
    if (i < 22) b[22] = vs_real();
    Vector<double> x = vec(a), y = vec(b);
    order(x, y, a, b);
}
ENTRY(close_v)
{
    size_t n = vs_size(0, 4), m = vs_size(0, 4);
    Arr<double> a(1, n), b(1, m);
    Vector<double> x = vec(a), y = vec(b);
    double t = vs_real();
    vs_assume(t > 0);
    if (n != m) {
        VS_THROWS(std::invalid_argument, u::all_close(x, y, t));
        return;
    }
    bool e = true;
    for (size_t i = 0; i < n; ++i) e = e & (a[i] - b[i] <= t) & (b[i] - a[i] <= t);
    VS_ASSERT(u::all_close(x, y, t) == e);
    VS_ASSERT(u::all_close(x, x));
}
ENTRY(close_m)
{
    size_t r = vs_size(1, 2), c = vs_size(1, 3), p = vs_size(1, 2), q = vs_size(1, 3);
    Arr<double> a(r, c), b(p, q);
    Matrix<double> x = mat(a), y = mat(b);
    if (r != p || c != q) {
        VS_THROWS(std::invalid_argument, u::all_close(x, y, 0.5));
        return;
    }
    double t = vs_real();
    vs_assume(t > 0);
    bool e = true;
    for (size_t i = 0; i < r * c; ++i) e = e & (a[i] - b[i] <= t) & (b[i] - a[i] <= t);
    VS_ASSERT(u::all_close(x, y, t) == e);
}
ENTRY(close_default)
{
    Arr<double> a(2, 2), b(2, 2);
    Matrix<double> x = mat(a), y = mat(b);
    bool e = true;
    for (size_t i = 0; i < 4; ++i) e = e & (a[i] - b[i] <= 0.0001) & (b[i] - a[i] <= 0.0001);
    VS_ASSERT(u::all_close(x, y) == e);
}
template <typename T>
static void quant()
{
    size_t n = vs_size(0, 5);
    Arr<T> a(1, n);
    Vector<T> v = vec(a);
    Matrix<T> m = mat(a);
    bool all = true, any = false;
    for (size_t i = 0; i < n; ++i) {
        all = all & !(a[i] == T(0));
        any = any | !(a[i] == T(0));
    }
    VS_ASSERT(malg::all(v) == all);
    VS_ASSERT(malg::any(v) == any);
    VS_ASSERT(malg::all(m) == all);
    VS_ASSERT(malg::any(m) == any);
}
// longer vectors and larger matrices: the decisive element is anywhere
ENTRY(quant_longer)
{
    size_t n = vs_size(6, 18), i = vs_size(0, n - 1);
    Arr<double> a(1, n, false), b(1, n, false);
    for (size_t k = 0; k < n; ++k) a[k] = 1 + k;
    a[i]             = vs_real();
    b[i]             = vs_real();
    const Vector<double> v = vec(a), w = vec(b);
    VS_ASSERT(malg::all(v) == (a[i] != 0));
    VS_ASSERT(malg::any(v));
    VS_ASSERT(!malg::all(w));
    VS_ASSERT(malg::any(w) == (b[i] != 0));
}
ENTRY(close_long)
{
    size_t n = vs_size(5, 18), i = vs_size(0, n - 1);
    Arr<double> a(1, n), b(a);
    b[i] = vs_real();
    double t = vs_real();
    vs_assume(t > 0);
    bool e = (a[i] - b[i] <= t) && (b[i] - a[i] <= t);
    VS_ASSERT(u::all_close(vec(a), vec(b), t) == e);
    VS_ASSERT(u::all_close(vec(b), vec(a), t) == e);
    Arr<double> c(a), d(b);
    if (n % 2 == 0) c.r = d.r = 2, c.c = d.c = n / 2;
    if (n % 3 == 0) c.r = d.r = n / 3, c.c = d.c = 3;
    VS_ASSERT(u::all_close(mat(c), mat(d), t) == e);
}
ENTRY(compare_m_large)
{
    size_t r = vs_size(1, 3), c = 9 / r, i = vs_size(0, r * c - 1);
    Arr<int> a(r, c), b(a);
    b[i] = vs_int(-1000, 1000);
    b[r * c - 1] = vs_int(-1000, 1000);
    Matrix<int> x = mat(a), y = mat(b);
    order(x, y, a, b);
}
ENTRY(quant_d) { quant<double>(); }
ENTRY(quant_i) { quant<int>(); }
ENTRY(quant_l) { quant<long>(); }
ENTRY(quant_f) { quant<float>(); }
ENTRY(quant_b) { quant<bool>(); }
ENTRY(quant_long)
{
    size_t r = vs_size(3, 5), c = vs_size(4, 6), i = vs_size(0, r * c - 1);
    Arr<double> a(r, c, false), b(r, c, false);
    for (size_t k = 0; k < r * c; ++k) a[k] = 1 + k;
    a[i]             = vs_real();
    b[i]             = vs_real();
    Matrix<double> m = mat(a), k = mat(b);
    VS_ASSERT(malg::all(m) == (a[i] != 0));
    VS_ASSERT(malg::any(m));
    VS_ASSERT(!malg::all(k));
    VS_ASSERT(malg::any(k) == (b[i] != 0));
}
// complex elements: their distance
ENTRY(close_c)
{
    size_t n = vs_size(0, 3);
    Arr<cd> a(1, n), b(1, n);
    double t = vs_real();
    vs_assume(t > 0);
    bool e = true;
    for (size_t i = 0; i < n; ++i) {
        double x = a[i].real() - b[i].real(), y = a[i].imag() - b[i].imag();
        e = e & (x * x + y * y <= t * t);
    }
    VS_ASSERT(u::all_close(vec(a), vec(b), t) == e);
    VS_ASSERT(u::all_close(mat(a), mat(b), t) == e);
}
