//B rows and columns 0..5 and the larger shapes listed in shape(), element values unbounded reals / ints / bool / complex
//B also: lists and vectors into shapes up to 13 columns or rows (see the entries named large, larger, long, many, tall)
#include "common.hpp"
static void shape(size_t &r, size_t &c)
{
    r = vs_size(0, 6);
    if (r == 6) {
        static const size_t R[] = { 1, 9, 17, 7, 40 }, C[] = { 33, 1, 8, 11, 3 };
        size_t k = vs_size(0, 4);
        r = R[k];
        c = C[k];
    } else
        c = vs_size(0, 5);
}
template <typename T>
static void ctor()
{
    size_t r, c;
    shape(r, c);
    T x = vs_any<T>();
    Matrix<T> z(r, c), f(r, c, x);
    VS_IEQ(z.rows(), r);
    VS_IEQ(z.cols(), c);
    VS_IEQ(z.size(), r * c);
    VS_ASSERT(z.empty() == (r * c == 0));
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            VS_SAME(z(i, j), T(0));
            VS_SAME(f(i, j), x);
        }
    Matrix<T> e;
    VS_IEQ(e.rows(), 0);
    VS_IEQ(e.cols(), 0);
    VS_ASSERT(e.empty());
}
ENTRY(ctor_d) { ctor<double>(); }
ENTRY(ctor_i) { ctor<int>(); }
ENTRY(ctor_b) { ctor<bool>(); }
ENTRY(ctor_c) { ctor<cd>(); }
// distinct coordinates are distinct storage; all access paths agree
template <typename T>
static void access()
{
    size_t r, c;
    shape(r, c);
    Arr<T> a(r, c);
    Matrix<T> m(r, c);
    size_t how = vs_size(0, 3);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            if (how == 0) m(i, j) = a(i, j);
            if (how == 1) m.at(i, j) = a(i, j);
            if (how == 2) m[i * c + j] = a(i, j);
            if (how == 3) m.data()[i * c + j] = a(i, j);
        }
    SAME_MAT(m, a);
    const Matrix<T> &k     = m;
    const MatrixBase<T> &b = m;
    MatrixBase<T> &bw      = m;
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            VS_SAME(m.at(i, j), a(i, j));
            VS_SAME(k(i, j), a(i, j));
            VS_SAME(k.at(i, j), a(i, j));
            VS_SAME(k[i * c + j], a(i, j));
            VS_SAME(b(i, j), a(i, j));
            VS_SAME(b.at(i, j), a(i, j));
            VS_SAME(b[i * c + j], a(i, j));
            VS_SAME(bw(i, j), a(i, j));
            VS_SAME(m.data()[i * c + j], a(i, j));
            VS_SAME(k.data()[i * c + j], a(i, j));
            VS_ASSERT(&m(i, j) == &m.at(i, j) && &m(i, j) == &m[i * c + j] && &k(i, j) == &m(i, j));
        }
    size_t p = 0;
    for (auto &x : m) {
        VS_SAME(x, a[p]);
        ++p;
    }
    VS_IEQ(p, r * c);
    p = 0;
    for (const auto &x : k) {
        VS_SAME(x, a[p]);
        ++p;
    }
    VS_IEQ(p, r * c);
}
ENTRY(access_d) { access<double>(); }
ENTRY(access_c) { access<cd>(); }
ENTRY(access_i) { access<int>(); }
ENTRY(access_b) { access<bool>(); }
// one write changes exactly one element
ENTRY(frame)
{
    size_t r = vs_size(1, 5), c = vs_size(1, 5), i = vs_size(0, r - 1), j = vs_size(0, c - 1);
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    double x         = vs_real();
    m(i, j)          = x;
    a(i, j)          = x;
    SAME_MAT(m, a);
}
template <typename T>
static void lists()
{
    Arr<T> a(2, 3);
    Matrix<T> m = { { a[0], a[1], a[2] }, { a[3], a[4], a[5] } };
    SAME_MAT(m, a);
    Matrix<T> n(2, 3, { a[0], a[1], a[2], a[3], a[4], a[5] });
    SAME_MAT(n, a);
    std::vector<T> sv;
    for (int i = 0; i < 6; ++i) sv.push_back(a[i]);
    Matrix<T> s(2, 3, sv);
    SAME_MAT(s, a);
    Arr<T> t(a);
    t.r = 3;
    t.c = 2;
    Matrix<T> u(3, 2, sv);
    SAME_MAT(u, t);
    Matrix<T> q = { { a[0], a[1] }, { a[2], a[3] }, { a[4], a[5] } };
    SAME_MAT(q, t);
    q = { { a[0], a[1], a[2] }, { a[3], a[4], a[5] } };
    SAME_MAT(q, a);
    Matrix<T> w(1, 1);
    w = { { a[0], a[1] }, { a[2], a[3] }, { a[4], a[5] } };
    SAME_MAT(w, t);
    Matrix<T> one = { { a[4] } };
    VS_IEQ(one.size(), 1);
    VS_SAME(one(0, 0), a[4]);
}
// one row per inner list, whatever their number
template <typename T>
static void longer()
{
    Arr<T> a(8, 1), b(6, 2), e(1, 7), f(5, 3);
    std::initializer_list<std::initializer_list<T>> p = { { a[0] }, { a[1] }, { a[2] }, { a[3] }, { a[4] }, { a[5] }, { a[6] }, { a[7] } },
        q = { { b[0], b[1] }, { b[2], b[3] }, { b[4], b[5] }, { b[6], b[7] }, { b[8], b[9] }, { b[10], b[11] } },
        s = { { e[0], e[1], e[2], e[3], e[4], e[5], e[6] } },
        t = { { f[0], f[1], f[2] }, { f[3], f[4], f[5] }, { f[6], f[7], f[8] }, { f[9], f[10], f[11] }, { f[12], f[13], f[14] } };
    Matrix<T> m(p), n(q), k(s), l(t);
    SAME_MAT(m, a);
    SAME_MAT(n, b);
    SAME_MAT(k, e);
    SAME_MAT(l, f);
    m = q;
    SAME_MAT(m, b);
    m = t;
    SAME_MAT(m, f);
    m = p;
    SAME_MAT(m, a);
    m = s;
    SAME_MAT(m, e);
}
ENTRY(longer_d) { longer<double>(); }
ENTRY(longer_i) { longer<int>(); }
ENTRY(list_d) { lists<double>(); }
ENTRY(list_c) { lists<cd>(); }
ENTRY(list_i) { lists<int>(); }
ENTRY(list_bad)
{
    std::initializer_list<std::initializer_list<double>> none, hollow = { {} };
    VS_THROWS(std::invalid_argument, Matrix<double> m(none));
    VS_THROWS(std::invalid_argument, Matrix<double> m(hollow));
}
// lists that do not fit are rejected, never read beyond their end
ENTRY(list_ragged)
{
    Arr<double> a(2, 3);
    std::initializer_list<std::initializer_list<double>> p = { { a[0], a[1] }, { a[2] } }, q = { { a[0] }, { a[1], a[2] } },
                                                         t = { { a[0], a[1] }, { a[2], a[3] }, {} };
    Matrix<double> m = mat(a);
    VS_THROWS(std::invalid_argument, Matrix<double> z(p));
    VS_THROWS(std::invalid_argument, Matrix<double> z(q));
    VS_THROWS(std::invalid_argument, Matrix<double> z(t));
    VS_THROWS(std::invalid_argument, m = p);
    VS_THROWS(std::invalid_argument, m = q);
    VS_THROWS(std::invalid_argument, m = t);
    SAME_MAT(m, a);
}
ENTRY(list_count)
{
    size_t r = vs_size(0, 4), c = vs_size(0, 4), n = vs_size(0, 9);
    if (r * c == n) return;
    Arr<double> a(n, 1);
    std::vector<double> s;
    for (size_t i = 0; i < n; ++i) s.push_back(a[i]);
    VS_THROWS(std::invalid_argument, Matrix<double> m(r, c, s));
    std::initializer_list<double> l = { a.d[0], a.d[0], a.d[0] };
    if (r * c != 3) VS_THROWS(std::invalid_argument, Matrix<double> m(r, c, l));
}
ENTRY(list_large)
{
    Arr<double> a(10, 2), b(2, 10);
    std::initializer_list<std::initializer_list<double>> p = { { a[0], a[1] }, { a[2], a[3] }, { a[4], a[5] }, { a[6], a[7] }, { a[8], a[9] }, { a[10], a[11] }, { a[12], a[13] }, { a[14], a[15] }, { a[16], a[17] }, { a[18], a[19] } },
        q = { { b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9] }, { b[10], b[11], b[12], b[13], b[14], b[15], b[16], b[17], b[18], b[19] } };
    Matrix<double> m(p), n(q);
    SAME_MAT(m, a);
    SAME_MAT(n, b);
    Matrix<double> x(10, 2, { a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], a[11], a[12], a[13], a[14], a[15], a[16], a[17], a[18], a[19] }),
        y(2, 10, { b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], b[8], b[9], b[10], b[11], b[12], b[13], b[14], b[15], b[16], b[17], b[18], b[19] });
    SAME_MAT(x, a);
    SAME_MAT(y, b);
    m = q;
    SAME_MAT(m, b);
    n = p;
    SAME_MAT(n, a);
}
ENTRY(vector_large)
{
    static const size_t S[][2] = { { 1, 13 }, { 13, 1 }, { 10, 11 }, { 2, 17 } };
    size_t w = vs_size(0, 3), r = S[w][0], c = S[w][1];
    Arr<double> a(r, c);
    std::vector<double> sv;
    for (size_t i = 0; i < r * c; ++i) sv.push_back(a[i]);
    Matrix<double> m(r, c, sv);
    SAME_MAT(m, a);
    sv.push_back(1.0);
    VS_THROWS(std::invalid_argument, Matrix<double> z(r, c, sv));
}
