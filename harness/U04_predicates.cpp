//B shapes 1..3 x 1..3 with every entry arbitrary (up to 4x4 with two entries arbitrary, the others equal to a matrix of the class)
//B also: up to 9x9 with one or two arbitrary entries (see the entries named large, larger, long, many, tall)
#include "common.hpp"
namespace u = malg::utility;
template <typename T>
static void shape()
{
    size_t r = vs_size(1, 5), c = vs_size(1, 5);
    Matrix<T> m(r, c);
    VS_ASSERT(u::is_square(m) == (r == c));
    VS_ASSERT(u::is_column_vector(m) == (c == 1));
    VS_ASSERT(u::is_row_vector(m) == (r == 1));
    if (r != c) {
        VS_ASSERT(!u::is_symmetric(m));
        VS_ASSERT(!u::is_skew_symmetric(m));
        VS_ASSERT(!u::is_diagonal(m));
        VS_ASSERT(!u::is_lower_triangular(m));
        VS_ASSERT(!u::is_upper_triangular(m));
        VS_ASSERT(!u::is_identity(m));
    }
}
ENTRY(shape_d) { shape<double>(); }
ENTRY(shape_i) { shape<int>(); }
template <typename T>
static void judge(const Arr<T> &a, int which)
{
    size_t n    = a.r;
    Matrix<T> m = mat(a);
    bool e      = true, g;
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) switch (which) {
            case 0: e = e & (a(i, j) == a(j, i)); break;
            case 1: e = e & (a(i, j) == -a(j, i)); break;
            case 2: e = e & (i == j || a(i, j) == T(0)); break;
            case 3: e = e & (i >= j || a(i, j) == T(0)); break;
            case 4: e = e & (i <= j || a(i, j) == T(0)); break;
            case 5: e = e & (a(i, j) == (i == j ? T(1) : T(0))); break;
            case 6: e = e & (a(i, j) == T(0)); break;
            case 7: e = e & (a(i, j) == a(0, 0)); break;
            }
    switch (which) {
    case 0: g = u::is_symmetric(m); break;
    case 1: g = u::is_skew_symmetric(m); break;
    case 2: g = u::is_diagonal(m); break;
    case 3: g = u::is_lower_triangular(m); break;
    case 4: g = u::is_upper_triangular(m); break;
    case 5: g = u::is_identity(m); break;
    case 6: g = u::is_zero(m); break;
    default: g = u::is_constant(m); break;
    }
    VS_ASSERT(g == e);
    SAME_MAT(m, a);
}
ENTRY(small_d)
{
    int w    = (int)vs_size(0, 7);
    size_t n = vs_size(1, 3);
    Arr<double> a(n, n);
    judge(a, w);
}
ENTRY(small_i)
{
    int w    = (int)vs_size(0, 7);
    size_t n = vs_size(1, 2);
    Arr<int> a(n, n);
    judge(a, w);
}
// larger: a matrix of the class, disturbed at two arbitrary places
ENTRY(large)
{
    int w    = (int)vs_size(0, 7);
    size_t n = vs_size(4, 5);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double x = 1 + 7.0 * (i < j ? i : j) + (i < j ? j : i);
            if (w == 1) x = i < j ? x : i > j ? -x : 0;
            if (w == 2) x = i == j ? x : 0;
            if (w == 3) x = i >= j ? x : 0;
            if (w == 4) x = i <= j ? x : 0;
            if (w == 5) x = i == j;
            if (w == 6) x = 0;
            if (w == 7) x = 3;
            a(i, j) = x;
        }
    size_t i = vs_size(0, n - 1), j = vs_size(0, n - 1), k = vs_size(0, n - 1);
    a(i, j) = vs_real();
    a(j, k) = vs_real();
    judge(a, w);
}
// larger still: one place, near an edge or in the middle
ENTRY(larger)
{
    int w    = (int)vs_size(0, 7);
    size_t n = vs_size(6, 9);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double x = 1 + 7.0 * (i < j ? i : j) + (i < j ? j : i);
            if (w == 1) x = i < j ? x : i > j ? -x : 0;
            if (w == 2) x = i == j ? x : 0;
            if (w == 3) x = i >= j ? x : 0;
            if (w == 4) x = i <= j ? x : 0;
            if (w == 5) x = i == j;
            if (w == 6) x = 0;
            if (w == 7) x = 3;
            a(i, j) = x;
        }
    size_t i = vs_size(0, 3), j = vs_size(0, 3);
    i = i == 3 ? n - 1 : i == 2 ? n - 2 : i * 4;
    j = j == 3 ? n - 1 : j == 2 ? n - 2 : j * 4;
    a(i, j) = vs_real();
    judge(a, w);
}
ENTRY(rect_large)
{
    size_t r = vs_size(1, 3), c = 9 - 2 * (r - 1);
    if (r == 3) r = 9, c = 2;
    Arr<double> a(r, c, false);
    bool zero = vs_bool();
    for (size_t i = 0; i < r * c; ++i) a[i] = zero ? 0 : 4;
    size_t k = vs_size(0, r * c - 1);
    a[k] = vs_real();
    Matrix<double> m = mat(a);
    VS_ASSERT(u::is_zero(m) == (zero && a[k] == 0));
    VS_ASSERT(u::is_constant(m) == (a[k] == (zero ? 0 : 4)));
}
ENTRY(rect)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3);
    Arr<double> a(r, c);
    Matrix<double> m = mat(a);
    bool z = true, k = true;
    for (size_t i = 0; i < r * c; ++i) {
        z = z & (a[i] == 0);
        k = k & (a[i] == a[0]);
    }
    VS_ASSERT(u::is_zero(m) == z);
    VS_ASSERT(u::is_constant(m) == k);
}
// singular / regular, exact for the sizes with a closed form
ENTRY(invertible)
{
    size_t n = vs_size(1, 3);
    Arr<double> a(n, n);
    Matrix<double> m = mat(a);
    double d         = n == 1 ? a[0] : n == 2 ? a[0] * a[3] - a[1] * a[2] : a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
    bool r           = !(d == 0);
    VS_ASSERT(u::is_invertible(m) == r);
    VS_ASSERT(u::is_linearly_independent(m) == r);
    VS_ASSERT(u::is_linearly_dependent(m) == !r);
}
// rotations and permutations are orthogonal, a matrix that is clearly not is refused
ENTRY(orthogonal)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3);
    if (r != c) {
        VS_ASSERT(!u::is_orthogonal(Matrix<double>(r, c)));
        return;
    }
    if (r == 2) {
        double t = vs_real(); // the rational circle
        double w = 1 + t * t;
        Matrix<double> m = { { (1 - t * t) / w, -2 * t / w }, { 2 * t / w, (1 - t * t) / w } };
        VS_ASSERT(u::is_orthogonal(m));
        Matrix<double> f = { { (1 - t * t) / w, 2 * t / w }, { 2 * t / w, -(1 - t * t) / w } };
        VS_ASSERT(u::is_orthogonal(f));
    }
    Arr<double> a(r, r);
    size_t i = vs_size(0, r - 1), j = vs_size(0, r - 1);
    double s = 0;
    for (size_t k = 0; k < r; ++k) s += a(i, k) * a(j, k);
    s -= i == j;
    if (r > 2) // one arbitrary row and column are enough for the refusal
        for (size_t k = 0; k < r; ++k)
            for (size_t l = 0; l < r; ++l)
                if (k != i && k != j) a(k, l) = k == l;
    vs_assume(s > 0.01 || s < -0.01);
    Matrix<double> m = mat(a);
    VS_ASSERT(!u::is_orthogonal(m));
}
// larger: a permutation with one rotated plane, then one element too far off
ENTRY(orthogonal_large)
{
    size_t n = vs_size(4, 9), s = vs_size(0, 3), p = vs_size(0, n - 1), q = (p + s + 1) % n;
    if (p == q) return;
    double t = vs_real(), w = 1 + t * t;
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i) a(i, (i + s) % n) = i % 2 ? -1 : 1;
    for (size_t i = 0; i < n; ++i) {
        double x = a(p, i), y = a(q, i);
        a(p, i) = ((1 - t * t) * x - 2 * t * y) / w;
        a(q, i) = (2 * t * x + (1 - t * t) * y) / w;
    }
    VS_ASSERT(u::is_orthogonal(mat(a)));
    size_t l = (p + 2) % n == q ? (p + 3) % n : (p + 2) % n; // a row left alone
    if (l == p || l == q) return;
    double e = vs_real();
    vs_assume(e > 0.1 || e < -0.1);
    double &o = vs_bool() ? a(l, (l + s) % n) : a(l, (l + s + 1) % n); // the length of one row, or the angle of two
    o *= e * e + 2;
    if (o == 0) o = e;
    VS_ASSERT(!u::is_orthogonal(mat(a)));
}
