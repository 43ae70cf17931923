// vs: path_s=60 timeout_ms=20000
//B one object of every shape 0..3 x 0..3 (thorough 0..4) or vectors 0..4, targets of every previous shape up to 2x2; two objects in sequence (every pair of kinds), 6 objects; double, int and complex elements, every value
//B also: shapes up to 10x10 and vectors up to 12 with every element arbitrary (see the entries named large, larger, long, many, tall)
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
//A the text of a number written with at least 17 digits is read back as that number (standard library, trusted); with fewer digits it is read back as an arbitrary number
#include "common.hpp"
#include <malg/io.hpp>
#include <iomanip>
using namespace malg;
static const char *FN = "vs_roundtrip.txt";
template <typename T>
static Arr<T> any(size_t r, size_t c)
{
    if constexpr (std::is_same_v<T, int>) {
        Arr<int> a(r, c, false);
        for (size_t i = 0; i < r * c; ++i) a[i] = vs_int(-9, 9);
        return a;
    } else {
        return Arr<T>(r, c);
    }
}
template <typename T>
static void one_matrix(size_t r, size_t c, size_t pr, size_t pc)
{
    Arr<T> a = any<T>(r, c);
    const Matrix<T> m = mat(a);
    {
        std::ofstream f(FN);
        f.precision(17);
        f << m;
    }
    SAME_MAT(m, a);
    Arr<T> old(pr, pc, false);
    Matrix<T> b = mat(old);
    std::ifstream f(FN);
    f >> b;
    VS_ASSERT(!f.fail());
    SAME_MAT(b, a);
}
template <typename T>
static void any_matrix()
{
    size_t r = vs_size(0, VS_TIER(3, 4)), c = vs_size(0, VS_TIER(3, 4));
    size_t pr = vs_size(0, 2), pc = vs_size(0, 2);
    one_matrix<T>(r, c, pr, pc);
}
ENTRY(matrix_real) { any_matrix<double>(); }
ENTRY(matrix_complex) { any_matrix<cd>(); }
ENTRY(matrix_int)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    one_matrix<int>(r, c, vs_size(0, 1), 2);
}
template <typename T>
static void any_vector(size_t n, size_t p)
{
    Arr<T> a = any<T>(n ? 1 : 0, n);
    const Vector<T> v = vec(a);
    {
        std::ofstream f(FN);
        f.precision(17);
        f << v;
    }
    SAME_VEC(v, a);
    Vector<T> b(p);
    std::ifstream f(FN);
    f >> b;
    VS_ASSERT(!f.fail());
    SAME_VEC(b, a);
}
ENTRY(vector_real)
{
    size_t n = vs_size(0, 5);
    any_vector<double>(n, vs_size(0, 5));
}
ENTRY(vector_complex)
{
    size_t n = vs_size(0, 4);
    any_vector<cd>(n, vs_size(0, 4));
}
ENTRY(vector_int)
{
    size_t n = vs_size(0, 3);
    any_vector<int>(n, vs_size(0, 3));
}
// integers of every length: the padding does not disturb the values
ENTRY(wide_int)
{
    Arr<int> a(1, 3);
    const Matrix<int> m = mat(a);
    {
        std::ofstream f(FN);
        f << m;
    }
    Matrix<int> b;
    std::ifstream f(FN);
    f >> b;
    VS_ASSERT(!f.fail());
    SAME_MAT(b, a);
}
// a view is written as the matrix it shows
ENTRY(views)
{
    Arr<double> a(3, 3);
    Matrix<double> m = mat(a);
    size_t r0 = vs_size(0, 2), r1 = r0 + 1 + vs_size(0, 2 - r0), c0 = vs_size(0, 2), c1 = c0 + 1 + vs_size(0, 2 - c0);
    Arr<double> s(r1 - r0, c1 - c0, false), k(2, 2, false);
    for (size_t i = 0; i < s.r; ++i)
        for (size_t j = 0; j < s.c; ++j) s(i, j) = a(r0 + i, c0 + j);
    for (size_t i = 0; i < 2; ++i)
        for (size_t j = 0; j < 2; ++j) k(i, j) = a(i < r0 ? i : i + 1, j < c0 ? j : j + 1);
    auto v = View<Matrix<double>>(&m, Range{r0, r1}, Range{c0, c1});
    auto f = CofactorView<Matrix<double>>(&m, r0, c0);
    {
        std::ofstream o(FN);
        o.precision(17);
        o << v << f;
    }
    Matrix<double> x(3, 3), y;
    std::ifstream i(FN);
    i >> x >> y;
    VS_ASSERT(!i.fail());
    SAME_MAT(x, s);
    SAME_MAT(y, k);
}
// several objects, one after the other
ENTRY(sequence)
{
    size_t kind[2], r[2], c[2];
    for (int i = 0; i < 2; ++i) {
        kind[i] = vs_size(0, 1);
        r[i] = kind[i] ? 1 : vs_size(0, 2);
        c[i] = vs_size(0, VS_TIER(2, 3));
        if (r[i] == 0 || c[i] == 0) r[i] = c[i] = 0;
    }
    Arr<double> a0(r[0], c[0]), a1(r[1], c[1]);
    const Arr<double> *a[2] = {&a0, &a1};
    {
        std::ofstream f(FN);
        f.precision(17);
        for (int i = 0; i < 2; ++i) {
            if (kind[i]) {
                f << vec(*a[i]);
            } else {
                f << mat(*a[i]);
            }
        }
    }
    std::ifstream f(FN);
    Matrix<double> m(2, 1);
    Vector<double> v(1);
    for (int i = 0; i < 2; ++i) {
        if (kind[i]) {
            f >> v;
            VS_ASSERT(!f.fail());
            SAME_VEC(v, *a[i]);
        } else {
            f >> m;
            VS_ASSERT(!f.fail());
            SAME_MAT(m, *a[i]);
        }
    }
}
ENTRY(chain)
{
    Arr<double> a(2, 2), v(1, 3), b(1, 2), w(1, 1), c(3, 1), d(2, 3);
    {
        std::ofstream f(FN);
        f.precision(20);
        f << mat(a) << vec(v) << mat(b) << vec(w) << mat(c) << mat(d);
    }
    Matrix<double> ma, mb, mc, md;
    Vector<double> vv, vw;
    std::ifstream f(FN);
    f >> ma >> vv >> mb >> vw >> mc >> md;
    VS_ASSERT(!f.fail());
    SAME_MAT(ma, a);
    SAME_MAT(mb, b);
    SAME_MAT(mc, c);
    SAME_MAT(md, d);
    SAME_VEC(vv, v);
    SAME_VEC(vw, w);
}
// larger ones: headers of two digits
ENTRY(larger)
{
    static const size_t S[][2] = { { 1, 12 }, { 13, 1 }, { 10, 11 }, { 3, 10 }, { 11, 2 } };
    size_t w = vs_size(0, 4);
    one_matrix<double>(S[w][0], S[w][1], vs_size(0, 1) * 3, 2);
}
ENTRY(larger_complex) { one_matrix<cd>(vs_size(0, 1) ? 10 : 2, 10, 1, 1); }
ENTRY(larger_vector)
{
    size_t n = vs_size(0, 1) ? 10 : 23;
    any_vector<double>(n, vs_size(0, 1) * 30);
}
ENTRY(larger_vector_complex) { any_vector<cd>(12, vs_size(0, 1) * 30); }
ENTRY(larger_vector_int)
{
    Arr<int> a(1, 11, false);
    for (size_t i = 0; i < 11; ++i) a[i] = int(i * 7 % 13) * (i % 2 ? 100 : -1);
    a[3] = vs_int(-99, 9);
    a[10] = vs_int(-9, 99);
    {
        std::ofstream f(FN);
        f << vec(a);
    }
    Vector<int> b(vs_size(0, 1) * 30);
    std::ifstream f(FN);
    f >> b;
    VS_ASSERT(!f.fail());
    SAME_VEC(b, a);
}
// 64-bit integers beyond the range of an int, unsigned ones, truth values
template <typename T>
static void kinds(T (*one)())
{
    size_t r = vs_size(1, 2), c = vs_size(1, 2);
    Arr<T> a(r, c, false);
    for (size_t i = 0; i < r * c; ++i) a[i] = one();
    const Matrix<T> m = mat(a);
    const Vector<T> v = vec(a);
    {
        std::ofstream f(FN);
        f << m << v;
    }
    Matrix<T> b;
    Vector<T> w;
    std::ifstream f(FN);
    f >> b >> w;
    VS_ASSERT(!f.fail());
    SAME_MAT(b, a);
    SAME_VEC(w, a);
}
static long far() { return (1L << 40) + vs_int(0, 9); }
static long low() { return -(1L << 40) + vs_int(-9, 0); }
static unsigned high() { return 3000000000u + unsigned(vs_int(0, 9)); }
static bool truth() { return vs_bool(); }
ENTRY(kinds_far) { kinds<long>(far); }
ENTRY(kinds_low) { kinds<long>(low); }
ENTRY(kinds_unsigned) { kinds<unsigned>(high); }
ENTRY(kinds_bool) { kinds<bool>(truth); }
