//B sizes 0..6 and 19 (every pair for resize and assignment), element values unbounded reals / int in [-1000,1000] / bool / complex
//B histories: 3 operations (quick) or 4 (thorough) out of 9 kinds on two vectors, sizes 0..3
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
//A realloc and malloc never fail
#include "common.hpp"
template <typename T>
static void ctor()
{
    size_t n = sizes(0, 6, 19);
    Vector<T> z(n);
    VS_IEQ(z.size(), n);
    VS_ASSERT(z.empty() == (n == 0));
    for (size_t i = 0; i < n; ++i) VS_SAME(z[i], T(0));
    T v = vs_any<T>();
    Vector<T> f(n, v);
    VS_IEQ(f.size(), n);
    for (size_t i = 0; i < n; ++i) VS_SAME(f[i], v);
    Vector<T> e;
    VS_IEQ(e.size(), 0);
    VS_ASSERT(e.empty());
    VS_ASSERT(e.begin() == e.end());
}
ENTRY(ctor_d) { ctor<double>(); }
ENTRY(ctor_i) { ctor<int>(); }
ENTRY(ctor_b) { ctor<bool>(); }
ENTRY(ctor_c) { ctor<cd>(); }
ENTRY(ctor_l) { ctor<long>(); }
ENTRY(ctor_uc) { ctor<uc>(); }
ENTRY(ctor_cf) { ctor<cf>(); }
template <typename T>
static void lists()
{
    Arr<T> a(1, 5);
    Vector<T> v({ a[0], a[1], a[2], a[3], a[4] });
    SAME_VEC(v, a);
    Vector<T> w(5, { a[0], a[1], a[2], a[3], a[4] });
    SAME_VEC(w, a);
    Vector<T> u({ a[0] });
    VS_IEQ(u.size(), 1);
    VS_SAME(u[0], a[0]);
    Vector<T> x = { a[1], a[3] };
    VS_IEQ(x.size(), 2);
    VS_SAME(x[0], a[1]);
    VS_SAME(x[1], a[3]);
    Vector<T> one(1, { a[2] });
    VS_IEQ(one.size(), 1);
    VS_SAME(one[0], a[2]);
    Arr<T> b(1, 12);
    Vector<T> y({ b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11] });
    SAME_VEC(y, b);
    Vector<T> z(12, { b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11] });
    SAME_VEC(z, b);
    Vector<T> none(0, std::initializer_list<T>()), hollow{ std::initializer_list<T>() };
    VS_IEQ(none.size(), 0);
    VS_IEQ(hollow.size(), 0);
}
ENTRY(list_d) { lists<double>(); }
ENTRY(list_c) { lists<cd>(); }
ENTRY(list_i) { lists<int>(); }
ENTRY(list_l) { lists<long>(); }
ENTRY(list_f) { lists<float>(); }
template <typename T>
static void copies()
{
    size_t n = sizes(0, 5, 19);
    Arr<T> a(1, n), b(1, n);
    Vector<T> v = vec(a);
    Vector<T> c(v);
    SAME_VEC(c, a);
    SAME_VEC(v, a);
    // a copy is independent
    for (size_t i = 0; i < n; ++i) c[i] = b[i];
    SAME_VEC(v, a);
    SAME_VEC(c, b);
    Vector<T> m(std::move(v));
    SAME_VEC(m, a);
    Vector<T> k(3);
    k = std::move(m);
    SAME_VEC(k, a);
    // iteration and raw access see the same elements in order
    size_t i = 0;
    for (auto &x : k) {
        VS_SAME(x, a[i]);
        ++i;
    }
    VS_IEQ(i, n);
    const Vector<T> &kc = k;
    i                   = 0;
    for (auto it = kc.cbegin(); it != kc.cend(); ++it, ++i) VS_SAME(*it, a[i]);
    VS_IEQ(i, n);
    for (i = 0; i < n; ++i) {
        VS_SAME(k.data()[i], a[i]);
        VS_SAME(kc.data()[i], a[i]);
        VS_SAME(kc[i], a[i]);
    }
    k = *&k;
    SAME_VEC(k, a);
}
ENTRY(copy_d) { copies<double>(); }
ENTRY(copy_c) { copies<cd>(); }
ENTRY(copy_b) { copies<bool>(); }
ENTRY(copy_l) { copies<long>(); }
ENTRY(copy_f) { copies<float>(); }
ENTRY(copy_cf) { copies<cf>(); }
ENTRY(copy_sc) { copies<sc>(); }
template <typename T>
static void assigns()
{
    size_t n = sizes(0, 5, 19), m = sizes(0, 5, 17);
    Arr<T> a(1, n), b(1, m);
    Vector<T> v = vec(a), w = vec(b);
    v = w;
    SAME_VEC(v, b);
    SAME_VEC(w, b);
    if (m) {
        T t  = vs_any<T>();
        v[0] = t;
        SAME_VEC(w, b);
    }
    v = std::move(w);
    SAME_VEC(v, b);
}
ENTRY(assign_d) { assigns<double>(); }
ENTRY(assign_i) { assigns<int>(); }
ENTRY(convert)
{
    size_t n = sizes(0, 5, 19, 41), m = vs_size(0, 4);
    Arr<int> a(1, n);
    Vector<int> v = vec(a);
    Vector<double> d(v);
    VS_IEQ(d.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(d[i], double(a[i]));
    Vector<double> e(m);
    e = v;
    VS_IEQ(e.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(e[i], double(a[i]));
    SAME_VEC(v, a);
    Arr<double> r(1, n);
    Vector<double> rv = vec(r);
    Vector<cd> c(rv);
    VS_IEQ(c.size(), n);
    for (size_t i = 0; i < n; ++i) VS_CEQ(c[i], cd(r[i], 0));
}
ENTRY(convert_move)
{
    size_t n = sizes(0, 5, 19, 41), m = vs_size(0, 4);
    Arr<int> a(1, n);
    Vector<double> d(vec(a));
    VS_IEQ(d.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(d[i], double(a[i]));
    Vector<double> e(m, 1.0);
    e = vec(a);
    VS_IEQ(e.size(), n);
    for (size_t i = 0; i < n; ++i) VS_EQ(e[i], double(a[i]));
}
template <typename T>
static void resizes()
{
    size_t n = sizes(0, 6, 19), m = sizes(0, 6, 23), k = vs_size(0, 6);
    Arr<T> a(1, n);
    Vector<T> v = vec(a);
    v.resize(m);
    VS_IEQ(v.size(), m);
    for (size_t i = 0; i < m; ++i) VS_SAME(v[i], i < n ? a[i] : T(0));
    size_t l = m < n ? m : n;
    Vector<T> o(k);
    v.resize(o);
    VS_IEQ(v.size(), k);
    for (size_t i = 0; i < k; ++i) VS_SAME(v[i], i < l ? a[i] : T(0));
}
ENTRY(resize_d) { resizes<double>(); }
ENTRY(resize_b) { resizes<bool>(); }
ENTRY(resize_c) { resizes<cd>(); }
ENTRY(resize_l) { resizes<long>(); }
ENTRY(resize_f) { resizes<float>(); }
ENTRY(resize_sc) { resizes<sc>(); }
ENTRY(history)
{
    Arr<double> ma(1, vs_size(0, 2)), mb(1, vs_size(0, 3));
    Vector<double> a = vec(ma), b = vec(mb);
    for (int s = 0; s < VS_TIER(3, 4); ++s) {
        switch (vs_size(0, 8)) {
        case 0: {
            size_t n = vs_size(0, 3);
            Arr<double> t(1, n, false);
            for (size_t i = 0; i < n && i < ma.c; ++i) t[i] = ma[i];
            a.resize(n);
            ma = t;
            break;
        }
        case 1: a = b; ma = mb; break;
        case 2: b = a; mb = ma; break;
        case 3: {
            a  = std::move(b);
            ma = mb;
            b  = Vector<double>(2);
            mb = Arr<double>(1, 2, false);
            break;
        }
        case 4: {
            Vector<double> t(a);
            a = b;
            b = std::move(t);
            Arr<double> q(ma);
            ma = mb;
            mb = q;
            break;
        }
        case 5:
            if (ma.c) {
                double x      = vs_real();
                a[ma.c - 1]   = x;
                ma[ma.c - 1]  = x;
            }
            break;
        case 6: a = *&a; break;
        case 7: b = Vector<double>(); mb = Arr<double>(1, 0); break;
        case 8: {
            std::vector<Vector<double>> st;
            st.push_back(a);
            st.push_back(b);
            a = st[1];
            b = st[0];
            Arr<double> q(ma);
            ma = mb;
            mb = q;
        }
        }
    }
    SAME_VEC(a, ma);
    SAME_VEC(b, mb);
}
// every way to a vector of another element type
template <typename T, typename T2>
static void conversions()
{
    size_t n = vs_size(0, 3), p = vs_size(0, 3);
    Arr<T> a(1, n);
    Arr<T2> e(1, n, false);
    for (size_t i = 0; i < n; ++i) e[i] = T2(a[i]);
    const Vector<T> v = vec(a);
    Vector<T2> x(v), y(p), z(vec(a)), w(p);
    SAME_VEC(x, e);
    y = v;
    SAME_VEC(y, e);
    SAME_VEC(z, e);
    w = vec(a);
    SAME_VEC(w, e);
    SAME_VEC(v, a);
}
ENTRY(types_ll) { conversions<long, long long>(); }
ENTRY(types_lu) { conversions<ul, unsigned long long>(); }
ENTRY(types_il) { conversions<int, long>(); }
ENTRY(types_fd) { conversions<float, double>(); }
ENTRY(types_df) { conversions<double, float>(); }
ENTRY(types_dl) { conversions<double, ld>(); }
ENTRY(types_fc) { conversions<float, cd>(); }
ENTRY(types_bi) { conversions<bool, int>(); }
