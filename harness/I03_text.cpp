// vs: path_s=60 timeout_ms=20000
//B shapes 0..3 x 0..3 (thorough 0..4), vectors 0..4; every double and complex element arbitrary, every int one in 0..9; column alignment: every int element in [-1000,1000] in shapes up to 2x2 (thorough 2x3) and vectors up to 3, and five doubles of different printed lengths at precisions 3, 6 and 17
//B also: shapes up to 11x2, 4x9, 1x12 with one arbitrary element, vectors of 13 with one arbitrary element for the alignment (see the entries named large, larger, long, many, tall)
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
//A the text of an arbitrary double is one token made of its value, the precision and the flags of the stream: that the standard library prints the digits of the value is trusted; padding is compared exactly for integers and literal doubles and up to the number of spaces for arbitrary doubles
#include "common.hpp"
#include <malg/io.hpp>
#include <iomanip>
#include <sstream>
using namespace malg;
// the expected texts, spelled out element by element
template <typename T>
static size_t len(const T &v, long prec)
{
    std::stringstream ss;
    ss.precision(prec);
    ss << v;
    return ss.str().length();
}
template <typename T>
static size_t widest(const Arr<T> &a, long prec)
{
    size_t w = 0;
    for (size_t i = 0; i < a.r * a.c; ++i) {
        size_t l = len(a[i], prec);
        if (l > w) w = l;
    }
    return w;
}
template <typename T>
static void lines(std::ostream &o, const Arr<T> &a)
{
    int w = int(widest(a, o.precision()));
    for (size_t i = 0; i < a.r; ++i) {
        if (i) o << "\n";
        for (size_t j = 0; j < a.c; ++j) {
            if (j) o << " ";
            o << std::setw(w) << a(i, j);
        }
    }
}
template <typename T, typename X>
static std::string shown(const X &x, long prec = 6)
{
    std::stringstream ss;
    ss.precision(prec);
    ss << x;
    ss << "|";
    return ss.str();
}
template <typename T>
static std::string wanted(const Arr<T> &a, long prec = 6)
{
    std::stringstream ss;
    ss.precision(prec);
    lines(ss, a);
    ss << "|";
    return ss.str();
}
static void lit(std::ostream &o, double v) { o << v; }
static void lit(std::ostream &o, int v) { o << v; }
static void lit(std::ostream &o, long v) { o << v; }
static void lit(std::ostream &o, unsigned v) { o << v; }
static void lit(std::ostream &o, bool v) { o << v; }
static void lit(std::ostream &o, const cd &v)
{
    o << v.real() << std::showpos << v.imag();
    o << std::noshowpos << "i";
}
// one row of the MATLAB and C++ forms
template <typename T>
static void row(std::ostream &o, const Arr<T> &a, size_t i, const char *sep)
{
    for (size_t j = 0; j < a.c; ++j) {
        if (j) o << sep;
        lit(o, a(i, j));
    }
}
template <typename T>
static Arr<T> any(size_t r, size_t c)
{
    if constexpr (std::is_same_v<T, int>) {
        // one printed length: alignment is decided below
        Arr<int> a(r, c, false);
        for (size_t i = 0; i < r * c; ++i) a[i] = vs_int(0, 9);
        return a;
    } else {
        return Arr<T>(r, c);
    }
}
template <typename T>
static void all_forms(const Arr<T> &a, const Matrix<T> &m)
{
    size_t r = a.r;
    VS_TEXT(shown<T>(m), wanted(a));
    VS_TEXT(shown<T>(m, 17), wanted(a, 17));
    {
        std::stringstream ss;
        ss << "name = \n";
        lines(ss, a);
        VS_TEXT(dump_matrix("name", m), ss.str());
    }
    {
        std::stringstream ss;
        ss << "M1 = [";
        for (size_t i = 0; i < r; ++i) {
            ss << "[";
            row(ss, a, i, " ");
            ss << "];";
        }
        ss << "]";
        VS_TEXT_EXACT(to_matlab("M1", m), ss.str());
    }
    {
        std::stringstream ss;
        ss << "malg::Matrix<some type> x = {";
        for (size_t i = 0; i < r; ++i) {
            if (i) ss << ",";
            ss << "{";
            row(ss, a, i, ",");
            ss << "}";
        }
        ss << "}";
        VS_TEXT_EXACT(to_cpp("x", "some type", m), ss.str());
    }
    SAME_MAT(m, a);
}
template <typename T>
static void vec_forms(const Arr<T> &a, const Vector<T> &v)
{
    size_t n = a.r * a.c;
    VS_TEXT(shown<T>(v), wanted(a));
    VS_TEXT(shown<T>(v, 17), wanted(a, 17));
    {
        std::stringstream ss;
        ss << "v = ";
        lines(ss, a);
        VS_TEXT(dump_vector("v", v), ss.str());
    }
    {
        std::stringstream ss;
        ss << "v = [";
        if (n) row(ss, a, 0, " ");
        ss << "]";
        VS_TEXT_EXACT(to_matlab("v", v), ss.str());
    }
    {
        std::stringstream ss;
        ss << "malg::Vector<t> v = {";
        if (n) row(ss, a, 0, ", ");
        ss << "}";
        VS_TEXT_EXACT(to_cpp("v", "t", v), ss.str());
    }
    SAME_VEC(v, a);
}
template <typename T>
static void matrices()
{
    size_t r = vs_size(0, VS_TIER(3, 4)), c = vs_size(0, VS_TIER(3, 4));
    if (r * c == 0 && r + c) r = c = 0;
    Arr<T> a = any<T>(r, c);
    all_forms(a, mat(a));
}
// wider and taller ones
ENTRY(wide)
{
    static const size_t R[] = {1, 2, 7, 5, 1, 11, 4}, C[] = {7, 6, 1, 5, 12, 2, 9};
    size_t k = vs_size(0, 6);
    Arr<int> a(R[k], C[k], false);
    for (size_t i = 0; i < a.r * a.c; ++i) a[i] = int(i * i % 10);
    size_t p[3] = { 0, a.r * a.c / 2, a.r * a.c - 1 };
    a[p[vs_size(0, 2)]] = vs_int(0, 9);
    const Matrix<int> m = mat(a);
    all_forms(a, m);
    const Vector<int> v = vec(a);
    Arr<int> b(a);
    b.r = 1;
    b.c = a.r * a.c;
    vec_forms(b, v);
}
ENTRY(matrix_int) { matrices<int>(); }
ENTRY(matrix_real) { matrices<double>(); }
ENTRY(matrix_complex) { matrices<cd>(); }
template <typename T>
static void vectors()
{
    size_t n = vs_size(0, VS_TIER(4, 6));
    Arr<T> a = any<T>(n ? 1 : 0, n);
    vec_forms(a, vec(a));
}
ENTRY(vector_int) { vectors<int>(); }
ENTRY(vector_real) { vectors<double>(); }
ENTRY(vector_complex) { vectors<cd>(); }
// views and cofactor views print the elements they show
ENTRY(views)
{
    Arr<double> a(3, 3);
    Matrix<double> m = mat(a);
    size_t r0 = vs_size(0, 2), r1 = r0 + 1 + vs_size(0, 2 - r0), c0 = vs_size(0, 2), c1 = c0 + 1 + vs_size(0, 2 - c0);
    Arr<double> s(r1 - r0, c1 - c0, false);
    for (size_t i = 0; i < s.r; ++i)
        for (size_t j = 0; j < s.c; ++j) s(i, j) = a(r0 + i, c0 + j);
    auto v = View<Matrix<double>>(&m, Range{r0, r1}, Range{c0, c1});
    VS_TEXT(shown<double>(v), wanted(s));
    auto f = CofactorView<Matrix<double>>(&m, r0, c0);
    Arr<double> k(2, 2, false);
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 2; ++j) k(i, j) = a(i < r0 ? i : i + 1, j < c0 ? j : j + 1);
    VS_TEXT(shown<double>(f), wanted(k));
    std::stringstream ss;
    ss << "k = [[" << k[0] << " " << k[1] << "];[" << k[2] << " " << k[3] << "];]";
    VS_TEXT_EXACT(to_matlab("k", f), ss.str());
}
// columns are aligned to the longest element
ENTRY(aligned_int)
{
    size_t r = vs_size(1, 2), c = vs_size(1, VS_TIER(2, 3));
    Arr<int> a(r, c);
    const Matrix<int> m = mat(a);
    VS_TEXT_EXACT(shown<int>(m), wanted(a));
}
ENTRY(aligned_vector)
{
    size_t n = vs_size(1, 3);
    Arr<int> a(1, n);
    const Vector<int> v = vec(a);
    VS_TEXT_EXACT(shown<int>(v), wanted(a));
    std::stringstream ss;
    ss << "v = ";
    lines(ss, a);
    VS_TEXT_EXACT(dump_vector("v", v), ss.str());
}
// the widest element sets the width wherever it is
ENTRY(aligned_long)
{
    Arr<int> a(1, 13, false);
    for (size_t i = 0; i < 13; ++i) a[i] = int(i % 10);
    size_t k = vs_size(0, 12);
    int w = vs_int(-2000000, 2000000);
    a[k] = w;
    VS_TEXT_EXACT(shown<int>(vec(a)), wanted(a));
    Arr<int> b(a);
    b.r = 13, b.c = 1;
    VS_TEXT_EXACT(shown<int>(mat(b)), wanted(b));
}
ENTRY(aligned_real)
{
    static const double pool[] = {1.0, -2.5, 1234.0 / 7, -1.0 / 3, 1e-9};
    static const long precs[] = {6, 17, 3};
    long p = precs[vs_size(0, 2)];
    Arr<double> a(2, 2, false);
    for (size_t i = 0; i < 4; ++i) a[i] = pool[i < 3 ? vs_size(0, 4) : 0];
    VS_TEXT_EXACT(shown<double>(mat(a), p), wanted(a, p));
    Arr<double> b(1, 4, false);
    for (size_t i = 0; i < 4; ++i) b[i] = a[i];
    VS_TEXT_EXACT(shown<double>(vec(b), p), wanted(b, p));
    Arr<cd> z(1, 2, false);
    z[0] = cd(a[0], a[1]);
    z[1] = cd(a[2], a[3]);
    VS_TEXT_EXACT(shown<cd>(mat(z), p), wanted(z, p));
}
// the named forms ignore the format of the elements around them
ENTRY(signs)
{
    Arr<cd> a(1, 2);
    const Matrix<cd> m = mat(a);
    std::stringstream ss;
    ss << "c = [[";
    row(ss, a, 0, " ");
    ss << "];]";
    VS_TEXT_EXACT(to_matlab("c", m), ss.str());
}
ENTRY(range)
{
    unsigned long s = vs_u64(), e = vs_u64();
    std::stringstream ss, w;
    ss << Range{s, e};
    w << "[" << s << ", " << e << "]";
    VS_TEXT_EXACT(ss.str(), w.str());
}
// a model lists its four matrices, and its sample time
ENTRY(models)
{
    size_t n = vs_size(1, 2), k = vs_size(1, 2), q = vs_size(1, 2);
    Arr<double> a(n, n), b(n, k), c(q, n), d(q, k);
    control::StateSpace<double> s(mat(a), mat(b), mat(c), mat(d));
    double h = vs_real();
    control::DiscreteStateSpace<double> z(mat(a), mat(b), mat(c), mat(d), h);
    std::stringstream body, w, x;
    body << "A =\n";
    lines(body, a);
    body << "\nB =\n";
    lines(body, b);
    body << "\nC =\n";
    lines(body, c);
    body << "\nD =\n";
    lines(body, d);
    body << "\n";
    w << body.str() << "Continuous-time state-space model.\n";
    VS_TEXT(shown<double>(s), w.str() + "|");
    x << body.str() << "Sample time: " << h << " seconds\nDiscrete-time state-space model.\n";
    VS_TEXT(shown<double>(z), x.str() + "|");
}
// 64-bit integers, unsigned ones, truth values
template <typename T>
static void kinds(T (*one)())
{
    size_t r = vs_size(1, 2), c = vs_size(1, 2);
    Arr<T> a(r, c, false);
    for (size_t i = 0; i < r * c; ++i) a[i] = one();
    all_forms(a, mat(a));
    Arr<T> b(a);
    b.r = 1;
    b.c = r * c;
    vec_forms(b, vec(b));
}
static long far() { return (1L << 40) + vs_int(0, 9); }
static long low() { return -(1L << 40) + vs_int(-9, 0); }
static unsigned high() { return 3000000000u + unsigned(vs_int(0, 9)); }
static bool truth() { return vs_bool(); }
ENTRY(kinds_far) { kinds<long>(far); }
ENTRY(kinds_low) { kinds<long>(low); }
ENTRY(kinds_unsigned) { kinds<unsigned>(high); }
ENTRY(kinds_bool) { kinds<bool>(truth); }
