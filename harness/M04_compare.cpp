//B matrices 0..2 x 0..2 with every entry arbitrary (== and != on doubles: up to 2 entries, thorough 4), up to 4x5 with one arbitrary position, vectors 0..4 and 17; double, int, bool-valued results, complex; exact arithmetic, relative tolerance 1e-6
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
static bool nearly(double a, double b)
{
    double d = a > b ? a - b : b - a;
    double x = a < 0 ? -a : a, y = b < 0 ? -b : b;
    return d <= 1e-06 * (x > y ? x : y);
}
#define CHECK(EXPR, WANT)                                  \
    do {                                                   \
        auto res_ = (EXPR);                                \
        VS_ASSERT(std::is_same_v<decltype(res_), Matrix<bool>>); \
        VS_IEQ(res_.rows(), r);                            \
        VS_IEQ(res_.cols(), c);                            \
        for (size_t i = 0; i < r; ++i)                     \
            for (size_t j = 0; j < c; ++j) VS_IEQ(res_(i, j), (WANT)); \
    } while (0)
#define CHECKV(EXPR, WANT)                                 \
    do {                                                   \
        auto res_ = (EXPR);                                \
        VS_ASSERT(std::is_same_v<decltype(res_), Vector<bool>>); \
        VS_IEQ(res_.size(), n);                            \
        for (size_t i = 0; i < n; ++i) VS_IEQ(res_[i], (WANT)); \
    } while (0)
ENTRY(order_mm)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<double> a(r, c), b(r, c);
    const Matrix<double> A = mat(a), B = mat(b);
    CHECK(A < B, a(i, j) < b(i, j));
    CHECK(A <= B, a(i, j) <= b(i, j));
    CHECK(A > B, a(i, j) > b(i, j));
    CHECK(A >= B, a(i, j) >= b(i, j));
}
ENTRY(order_ms)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<double> a(r, c);
    const Matrix<double> A = mat(a);
    double s = vs_real();
    CHECK(A < s, a(i, j) < s);
    CHECK(A <= s, a(i, j) <= s);
    CHECK(A > s, a(i, j) > s);
    CHECK(A >= s, a(i, j) >= s);
}
ENTRY(order_int)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<int> a(r, c), b(r, c);
    const Matrix<int> A = mat(a), B = mat(b);
    int s = vs_int(-1000, 1000);
    CHECK(A < B, a(i, j) < b(i, j));
    CHECK(A >= B, a(i, j) >= b(i, j));
    CHECK(A <= s, a(i, j) <= s);
    CHECK(A > s, a(i, j) > s);
}
// integers compare exactly, whatever their size
template <typename T>
static void exact()
{
    size_t r = vs_size(1, 2), c = 1, n = r;
    Arr<T> a(r, c), b(r, c);
    const Matrix<T> A = mat(a), B = mat(b);
    const Vector<T> v = vec(a), w = vec(b);
    T s = vs_any<T>();
    CHECK(A == B, a(i, j) == b(i, j));
    CHECK(A != B, a(i, j) != b(i, j));
    CHECK(A < B, a(i, j) < b(i, j));
    CHECK(A >= B, a(i, j) >= b(i, j));
    CHECK(A == s, a(i, j) == s);
    CHECK(A != s, a(i, j) != s);
    CHECK(A > s, a(i, j) > s);
    CHECK(A <= s, a(i, j) <= s);
    CHECKV(v == w, a[i] == b[i]);
    CHECKV(v != w, a[i] != b[i]);
    CHECKV(v == s, a[i] == s);
    CHECKV(v != s, a[i] != s);
}
ENTRY(exact_l) { exact<long>(); }
ENTRY(exact_ul) { exact<ul>(); }
ENTRY(exact_u) { exact<unsigned>(); }
ENTRY(exact_sc) { exact<sc>(); }
ENTRY(order_mixed)
{
    size_t r = vs_size(1, 2), c = 1;
    Arr<int> a(r, c);
    Arr<double> b(r, c);
    const Matrix<int> A = mat(a);
    const Matrix<double> B = mat(b);
    CHECK(A < B, double(a(i, j)) < b(i, j));
    CHECK(A <= B, double(a(i, j)) <= b(i, j));
    CHECK(B > A, double(a(i, j)) < b(i, j));
    CHECK(B >= A, double(a(i, j)) <= b(i, j));
    CHECK(A < b[0], double(a(i, j)) < b[0]);
    CHECK(A >= b[0], double(a(i, j)) >= b[0]);
}
// an arbitrary scalar against the elements of a larger matrix
ENTRY(big_scalar)
{
    size_t r = vs_size(1, 5), c = vs_size(3, 6);
    Arr<double> a(r, c, false);
    for (size_t i = 0; i < r * c; ++i) a[i] = double(i % 4) - 1;
    const Matrix<double> A = mat(a);
    double s = vs_real();
    CHECK(A < s, a(i, j) < s);
    CHECK(A <= s, a(i, j) <= s);
    CHECK(A > s, a(i, j) > s);
    CHECK(A >= s, a(i, j) >= s);
    CHECK(A == s, nearly(a(i, j), s));
    CHECK(A != s, !nearly(a(i, j), s));
}
ENTRY(big_int)
{
    size_t r = vs_size(1, 5), c = vs_size(3, 6);
    Arr<int> a(r, c, false), b(r, c, false);
    for (size_t i = 0; i < r * c; ++i) {
        a[i] = int(i % 4) - 1;
        b[i] = int(i % 3) - 1;
    }
    const Matrix<int> A = mat(a), B = mat(b);
    int s = vs_int(-1000, 1000);
    CHECK(A < s, a(i, j) < s);
    CHECK(A <= s, a(i, j) <= s);
    CHECK(A > s, a(i, j) > s);
    CHECK(A >= s, a(i, j) >= s);
    CHECK(A == s, a(i, j) == s);
    CHECK(A != s, a(i, j) != s);
    CHECK(A < B, a(i, j) < b(i, j));
    CHECK(A <= B, a(i, j) <= b(i, j));
    CHECK(A > B, a(i, j) > b(i, j));
    CHECK(A >= B, a(i, j) >= b(i, j));
    CHECK(A == B, a(i, j) == b(i, j));
    CHECK(A != B, a(i, j) != b(i, j));
}
ENTRY(big_complex)
{
    size_t r = vs_size(1, 4), c = vs_size(2, 4), k = vs_size(0, 2) * (r * c - 1) / 2;
    Arr<cd> a(r, c, false), b(r, c, false);
    for (size_t i = 0; i < r * c; ++i) {
        a[i] = cd(double(i % 3) - 1, double(i % 2));
        b[i] = cd(double(i % 4) - 1, double(i % 2));
    }
    a[k] = cd(vs_real(), 1);
    const Matrix<cd> A = mat(a), B = mat(b);
    CHECK(A == B, nearly(a(i, j).real(), b(i, j).real()) && nearly(a(i, j).imag(), b(i, j).imag()));
    CHECK(A != B, !nearly(a(i, j).real(), b(i, j).real()) || !nearly(a(i, j).imag(), b(i, j).imag()));
    CHECK(A == cd(1, 1), nearly(a(i, j).real(), 1) && nearly(a(i, j).imag(), 1));
    CHECK(A != cd(1, 1), !nearly(a(i, j).real(), 1) || !nearly(a(i, j).imag(), 1));
}
// one arbitrary position in a larger matrix, every comparison
ENTRY(big)
{
    size_t r = vs_size(3, 4), c = vs_size(3, 5), k = vs_size(0, r * c - 1);
    Arr<double> a(r, c, false), b(r, c, false);
    for (size_t i = 0; i < r * c; ++i) {
        a[i] = double(i % 3) - 1;
        b[i] = double(i % 4) - 1;
    }
    a[k] = vs_real();
    b[k] = vs_real();
    const Matrix<double> A = mat(a), B = mat(b);
    CHECK(A < B, a(i, j) < b(i, j));
    CHECK(A <= B, a(i, j) <= b(i, j));
    CHECK(A > B, a(i, j) > b(i, j));
    CHECK(A >= B, a(i, j) >= b(i, j));
    CHECK(A == B, nearly(a(i, j), b(i, j)));
    CHECK(A != B, !nearly(a(i, j), b(i, j)));
}
ENTRY(eq_mm)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    if (r * c > VS_TIER(2, 4)) return;
    Arr<double> a(r, c), b(r, c);
    const Matrix<double> A = mat(a), B = mat(b);
    CHECK(A == B, nearly(a(i, j), b(i, j)));
    CHECK(A != B, !nearly(a(i, j), b(i, j)));
}
ENTRY(eq_ms)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    if (r * c > VS_TIER(2, 4)) return;
    Arr<double> a(r, c);
    const Matrix<double> A = mat(a);
    double s = vs_real();
    CHECK(A == s, nearly(a(i, j), s));
    CHECK(A != s, !nearly(a(i, j), s));
}
ENTRY(eq_int)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<int> a(r, c), b(r, c);
    const Matrix<int> A = mat(a), B = mat(b);
    int s = vs_int(-1000, 1000);
    CHECK(A == B, a(i, j) == b(i, j));
    CHECK(A != B, a(i, j) != b(i, j));
    CHECK(A == s, a(i, j) == s);
    CHECK(A != s, a(i, j) != s);
}
ENTRY(eq_mixed)
{
    size_t r = 1, c = vs_size(1, VS_TIER(1, 2));
    Arr<int> a(r, c);
    Arr<double> b(r, c);
    const Matrix<int> A = mat(a);
    const Matrix<double> B = mat(b);
    CHECK(A == B, nearly(a(i, j), b(i, j)));
    CHECK(B != A, !nearly(a(i, j), b(i, j)));
    CHECK(A == b[0], nearly(a(i, j), b[0]));
    CHECK(B == a[0], nearly(a[0], b(i, j)));
    CHECK(B != a[0], !nearly(a[0], b(i, j)));
}
ENTRY(eq_complex)
{
    size_t r = vs_size(0, 1), c = vs_size(0, 1);
    Arr<cd> a(r, c), b(r, c);
    const Matrix<cd> A = mat(a), B = mat(b);
    CHECK(A == B, nearly(a(i, j).real(), b(i, j).real()) && nearly(a(i, j).imag(), b(i, j).imag()));
    CHECK(A != B, !nearly(a(i, j).real(), b(i, j).real()) || !nearly(a(i, j).imag(), b(i, j).imag()));
}
ENTRY(eq_complex_scalar)
{
    size_t r = vs_size(0, 1), c = vs_size(0, 1);
    Arr<cd> a(r, c);
    const Matrix<cd> A = mat(a);
    cd s = vs_any<cd>();
    CHECK(A == s, nearly(a(i, j).real(), s.real()) && nearly(a(i, j).imag(), s.imag()));
    CHECK(A != s, !nearly(a(i, j).real(), s.real()) || !nearly(a(i, j).imag(), s.imag()));
}
ENTRY(vec_eq)
{
    size_t n = vs_size(0, VS_TIER(2, 3));
    Arr<double> a(1, n), b(1, n);
    const Vector<double> v = vec(a), w = vec(b);
    CHECKV(v == w, nearly(a[i], b[i]));
    CHECKV(v != w, !nearly(a[i], b[i]));
}
ENTRY(vec_eq_scalar)
{
    size_t n = vs_size(0, VS_TIER(2, 3));
    Arr<double> a(1, n);
    const Vector<double> v = vec(a);
    double s = vs_real();
    CHECKV(v == s, nearly(a[i], s));
    CHECKV(v != s, !nearly(a[i], s));
}
ENTRY(vec_int)
{
    size_t n = vs_size(0, 4);
    Arr<int> a(1, n), b(1, n);
    const Vector<int> v = vec(a), w = vec(b);
    int s = vs_int(-1000, 1000);
    CHECKV(v == w, a[i] == b[i]);
    CHECKV(v != w, a[i] != b[i]);
    CHECKV(v == s, a[i] == s);
    CHECKV(v != s, a[i] != s);
}
ENTRY(vec_complex)
{
    size_t n = vs_size(0, 1);
    Arr<cd> a(1, n), b(1, n);
    const Vector<cd> v = vec(a), w = vec(b);
    CHECKV(v == w, nearly(a[i].real(), b[i].real()) && nearly(a[i].imag(), b[i].imag()));
    CHECKV(v != w, !nearly(a[i].real(), b[i].real()) || !nearly(a[i].imag(), b[i].imag()));
}
ENTRY(vec_big_scalar)
{
    size_t n = vs_size(5, 17);
    Arr<double> a(1, n, false);
    for (size_t i = 0; i < n; ++i) a[i] = double(i % 4) - 1;
    const Vector<double> v = vec(a);
    double s = vs_real();
    CHECKV(v == s, nearly(a[i], s));
    CHECKV(v != s, !nearly(a[i], s));
}
ENTRY(vec_big)
{
    size_t n = 17, k = vs_size(0, n - 1);
    Arr<double> a(1, n, false), b(1, n, false);
    for (size_t i = 0; i < n; ++i) {
        a[i] = double(i % 3) - 1;
        b[i] = double(i % 4) - 1;
    }
    a[k] = vs_real();
    b[k] = vs_real();
    const Vector<double> v = vec(a), w = vec(b);
    CHECKV(v == w, nearly(a[i], b[i]));
    CHECKV(v != w, !nearly(a[i], b[i]));
}
// operands of two types: the comparison is that of their values
template <typename T1, typename T2>
static void mixed_order()
{
    size_t r = 1, c = vs_size(1, 2);
    Arr<T1> a(r, c);
    Arr<T2> b(r, c);
    const Matrix<T1> A = mat(a);
    const Matrix<T2> B = mat(b);
    T2 s = b[0];
    CHECK(A < B, a(i, j) < b(i, j));
    CHECK(A <= B, a(i, j) <= b(i, j));
    CHECK(A > B, a(i, j) > b(i, j));
    CHECK(A >= B, a(i, j) >= b(i, j));
    CHECK(A < s, a(i, j) < s);
    CHECK(A <= s, a(i, j) <= s);
    CHECK(A > s, a(i, j) > s);
    CHECK(A >= s, a(i, j) >= s);
}
template <typename T1, typename T2>
static void mixed_exact()
{
    size_t r = 1, c = vs_size(1, 2), n = c;
    Arr<T1> a(r, c);
    Arr<T2> b(r, c);
    const Matrix<T1> A = mat(a);
    const Matrix<T2> B = mat(b);
    const Vector<T1> v = vec(a);
    const Vector<T2> w = vec(b);
    T2 s = b[0];
    CHECK(A == B, a(i, j) == b(i, j));
    CHECK(A != B, a(i, j) != b(i, j));
    CHECK(A == s, a(i, j) == s);
    CHECK(A != s, a(i, j) != s);
    CHECKV(v == w, a[i] == b[i]);
    CHECKV(v != w, a[i] != b[i]);
    CHECKV(v == s, a[i] == s);
    CHECKV(v != s, a[i] != s);
}
template <typename T1, typename T2>
static void mixed_close()
{
    size_t r = 1, c = 1, n = 1;
    Arr<T1> a(r, c);
    Arr<T2> b(r, c);
    T2 s = b[0];
    size_t k = vs_size(0, 3);
    if (k == 0) CHECK(mat(a) == mat(b), nearly(double(a(i, j)), double(b(i, j))));
    if (k == 0) CHECK(mat(a) != mat(b), !nearly(double(a(i, j)), double(b(i, j))));
    if (k == 1) CHECK(mat(a) == s, nearly(double(a(i, j)), double(s)));
    if (k == 1) CHECK(mat(a) != s, !nearly(double(a(i, j)), double(s)));
    if (k == 2) CHECKV(vec(a) == vec(b), nearly(double(a[i]), double(b[i])));
    if (k == 2) CHECKV(vec(a) != vec(b), !nearly(double(a[i]), double(b[i])));
    if (k == 3) CHECKV(vec(a) == s, nearly(double(a[i]), double(s)));
    if (k == 3) CHECKV(vec(a) != s, !nearly(double(a[i]), double(s)));
}
ENTRY(mixed_order_id) { mixed_order<int, double>(); }
ENTRY(mixed_order_di) { mixed_order<double, int>(); }
ENTRY(mixed_order_fd) { mixed_order<float, double>(); }
ENTRY(mixed_order_il) { mixed_order<int, long>(); }
ENTRY(mixed_order_li) { mixed_order<long, int>(); }
ENTRY(mixed_order_du) { mixed_order<double, unsigned>(); }
ENTRY(mixed_exact_il) { mixed_exact<int, long>(); }
ENTRY(mixed_exact_li) { mixed_exact<long, int>(); }
ENTRY(mixed_exact_si) { mixed_exact<short, int>(); }
ENTRY(mixed_close_id) { mixed_close<int, double>(); }
ENTRY(mixed_close_di) { mixed_close<double, int>(); }
ENTRY(mixed_close_df) { mixed_close<double, float>(); }
// windows of constant complex matrices
ENTRY(view_complex)
{
    size_t r = 1, c = 1, p = vs_size(0, 1), q = vs_size(0, 1), k = vs_size(0, 2);
    Arr<cd> o(2, 2, false), a(1, 1), b(1, 1);
    o(p, q)            = a[0];
    const Matrix<cd> O = mat(o), B = mat(b);
    auto A             = O(Range{ p, p + 1 }, Range{ q, q + 1 });
    CofactorView<const Matrix<cd>> F(&O, 1 - p, 1 - q);
    cd s = b[0];
    if (k == 0) {
        CHECK(A == B, nearly(a(i, j).real(), b(i, j).real()) && nearly(a(i, j).imag(), b(i, j).imag()));
        CHECK(B != A, !nearly(a(i, j).real(), b(i, j).real()) || !nearly(a(i, j).imag(), b(i, j).imag()));
    }
    if (k == 1) {
        CHECK(A == s, nearly(a(i, j).real(), s.real()) && nearly(a(i, j).imag(), s.imag()));
        CHECK(A != s, !nearly(a(i, j).real(), s.real()) || !nearly(a(i, j).imag(), s.imag()));
    }
    if (k == 2) {
        CHECK(F == B, nearly(a(i, j).real(), b(i, j).real()) && nearly(a(i, j).imag(), b(i, j).imag()));
        CHECK(F != B, !nearly(a(i, j).real(), b(i, j).real()) || !nearly(a(i, j).imag(), b(i, j).imag()));
    }
}
