// vs: path_s=100 timeout_ms=20000
//B element-wise: shapes 0..4 x 0..4 and 2x17, double, int, complex, views; e^x an uninterpreted function
//B matrix exponential: zero matrices 0..4, strictly triangular ones up to 4x4 (norm up to 4), and x M for arbitrary x in [-2,2] (|x| up to 1 for 2x2) and fixed 1x1 and 2x2 M (diagonal, rotation, shear plus identity), accuracy 1e-2 and 1e-3, compared with a Taylor polynomial of degree 14
//B finer: 1x1 on [-1,1] at accuracy 1e-6 and 1e-9, on [-5,5] at 1e-6, fixed 1x1..3x3 matrices of norm up to 19 at 1e-9; thorough: 2x2 on [-1,1] at 1e-6
//B also: 2x2 nilpotent matrices of norm up to 3000 (see the entries named large, larger, long, many, tall)
#include "common.hpp"
using malg::linalg::expm;
namespace L = malg::linalg;
ENTRY(elem_d)
{
    size_t r = sizes(0, 4, 2, 9), c = sizes(0, 4, 17, 2);
    Arr<double> a(r, c);
    const Matrix<double> A = mat(a);
    auto E = L::exp(A);
    VS_IEQ(E.rows(), r);
    VS_IEQ(E.cols(), c);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) VS_EQ(E(i, j), std::exp(a(i, j)));
    SAME_MAT(A, a);
}
ENTRY(elem_i)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3);
    Arr<int> a(r, c, false);
    for (size_t i = 0; i < r * c; ++i) a[i] = vs_int(-20, 20);
    auto E = L::exp(mat(a));
    VS_IEQ(E.rows(), r);
    VS_IEQ(E.cols(), c);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) VS_EQ(E(i, j), std::exp(double(a(i, j))));
}
ENTRY(elem_view)
{
    Arr<double> a(4, 5);
    size_t r0 = vs_size(0, 3), r1 = vs_size(r0 + 1, 4), c0 = vs_size(0, 4), c1 = vs_size(c0 + 1, 5);
    Matrix<double> A = mat(a);
    const Matrix<double> &K = A;
    auto E = L::exp(A({ r0, r1 }, { c0, c1 }));
    auto F = L::exp(K({ r0, r1 }, { c0, c1 }));
    VS_IEQ(E.rows(), r1 - r0);
    VS_IEQ(F.cols(), c1 - c0);
    for (size_t i = r0; i < r1; ++i)
        for (size_t j = c0; j < c1; ++j) {
            VS_EQ(E(i - r0, j - c0), std::exp(a(i, j)));
            VS_EQ(F(i - r0, j - c0), std::exp(a(i, j)));
        }
    SAME_MAT(A, a);
}
ENTRY(zero)
{
    size_t n = vs_size(1, 4);
    Arr<double> z(n, n, false), id(n, n, false);
    for (size_t i = 0; i < n; ++i) id(i, i) = 1;
    SAME_MAT(expm(mat(z), 1e-5), id);
    Arr<int> y(n, n, false);
    SAME_MAT(expm(mat(y), 1e-5), id);
}
ENTRY(not_square)
{
    size_t r = vs_size(1, 3), c = vs_size(1, 3);
    if (r == c) return;
    Arr<double> a(r, c, false);
    a[0] = vs_bool() ? 1 : 0;
    VS_THROWS(std::invalid_argument, expm(mat(a), 1e-5));
}
// sum of the power series of a nilpotent matrix
static Arr<double> series(const Arr<double> &a, size_t terms)
{
    size_t n = a.r;
    Arr<double> s(n, n, false), p(n, n, false);
    for (size_t i = 0; i < n; ++i) s(i, i) = p(i, i) = 1;
    for (size_t k = 1; k <= terms; ++k) {
        Arr<double> q(n, n, false);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                double v = 0;
                for (size_t l = 0; l < n; ++l) v += p(i, l) * a(l, j);
                q(i, j) = v / double(k);
                s(i, j) += q(i, j);
            }
        p = q;
    }
    return s;
}
ENTRY(nilpotent)
{
    size_t n = vs_size(2, 3), up = vs_size(0, 1);
    double x = vs_real_in(-2, 2);
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) (up ? a(i, j) : a(j, i)) = x * double(1 + i + 2 * j) / 8;
    const Matrix<double> A = mat(a);
    SAME_MAT(expm(A, 1e-5), series(a, n));
    SAME_MAT(A, a);
}
ENTRY(nilpotent_any)
{
    Arr<double> a(2, 2, false);
    size_t up = vs_size(0, 1);
    (up ? a[1] : a[2]) = vs_real_in(-4, 4);
    SAME_MAT(expm(mat(a), 1e-5), series(a, 2));
}
ENTRY(nilpotent_int)
{
    Arr<int> a(3, 3, false);
    Arr<double> d(3, 3, false);
    d(0, 1) = a(0, 1) = int(vs_size(0, 4)) - 2;
    d(1, 2) = a(1, 2) = int(vs_size(0, 2)) - 1;
    d(0, 2) = a(0, 2) = 1;
    SAME_MAT(expm(mat(a), 1e-5), series(d, 3));
    Matrix<int> M = mat(a);
    const Matrix<int> &K = M;
    SAME_MAT(expm(K({ 0, 3 }, { 0, 3 }), 1e-5), series(d, 3));
}
// accuracy: relative to the norm of the result
static void close_to(const Matrix<double> &E, const Arr<double> &s, double tol)
{
    VS_IEQ(E.rows(), s.r);
    VS_IEQ(E.cols(), s.c);
    for (size_t i = 0; i < s.r; ++i)
        for (size_t j = 0; j < s.c; ++j) {
            VS_ASSERT(E(i, j) - s(i, j) <= tol);
            VS_ASSERT(s(i, j) - E(i, j) <= tol);
        }
}
ENTRY(scalar)
{
    double acc = vs_size(0, 1) ? 1e-2 : 1e-3;
    Arr<double> a(1, 1, false);
    a[0] = vs_real_in(-2, 2);
    close_to(expm(mat(a), acc), series(a, 14), acc * 8);
}
ENTRY(two)
{
    size_t k = vs_size(0, VS_TIER(1, 3));
    double x = vs_real_in(-1, 1);
    Arr<double> a(2, 2, false);
    if (k == 0) a[0] = x;                    // diag(x, 0)
    if (k == 1) a[1] = -x, a[2] = x;         // rotation
    if (k == 2) a[0] = a[3] = x, a[1] = x;   // shear
    if (k == 3) a[0] = x, a[3] = -x;
    close_to(expm(mat(a), 1e-2), series(a, 14), 0.05);
}
// many squarings
ENTRY(nilpotent_large)
{
    Arr<double> a(2, 2, false);
    size_t up = vs_size(0, 1), k = vs_size(0, 3);
    static const double N[4] = { 200, 256, 600, 3000 };
    double x = vs_real_in(-1, 1);
    vs_assume(x > 0.9 || x < -0.9);
    (up ? a[1] : a[2]) = N[k] * x;
    SAME_MAT(expm(mat(a), 1e-5), series(a, 2));
}
// finer accuracies
ENTRY(scalar_fine)
{
    double acc = vs_size(0, 1) ? 1e-6 : 1e-9;
    Arr<double> a(1, 1, false);
    a[0] = vs_real_in(-1, 1);
    close_to(expm(mat(a), acc), series(a, 20), acc * 8);
}
// several squarings: compared with the series summed well beyond the accuracy, relative to the norm of the result
ENTRY(several_squarings)
{
    size_t k = vs_size(0, 7);
    size_t n = k < 3 ? 1 : k < 6 ? 2 : 3;
    Arr<double> a(n, n, false);
    if (k == 0) a[0] = 3.25;
    if (k == 1) a[0] = 9;
    if (k == 2) a[0] = 17.5;
    if (k == 3) a[0] = a[3] = 9;
    if (k == 4) a[0] = -3, a[1] = 1, a[3] = -2;
    if (k == 5) a[0] = 1, a[1] = -4, a[2] = 4, a[3] = 0.5;
    if (k == 6) a[0] = 5, a[4] = -1, a[8] = 2.5;
    if (k == 7) a[0] = 1, a[1] = 2, a[2] = -3, a[3] = 0.5, a[4] = -1, a[5] = 2, a[6] = 4, a[7] = 1, a[8] = -2;
    double big = n;
    for (size_t i = 0; i < n * n; ++i) big += a[i] < 0 ? -a[i] : a[i];
    Arr<double> s = series(a, 30 + 4 * size_t(big));
    double m = 1;
    for (size_t i = 0; i < n * n; ++i) m = s[i] > m ? s[i] : -s[i] > m ? -s[i] : m;
    close_to(expm(mat(a), 1e-9), s, m * 1e-6);
}
#ifdef VS_THOROUGH // minutes
ENTRY(two_fine)
{
    size_t k = vs_size(0, 3);
    double x = vs_real_in(-1, 1), acc = 1e-6;
    Arr<double> a(2, 2, false);
    if (k == 0) a[0] = x;
    if (k == 1) a[1] = -x, a[2] = x;
    if (k == 2) a[0] = a[3] = x, a[1] = x;
    if (k == 3) a[0] = x, a[3] = -x;
    close_to(expm(mat(a), acc), series(a, 18), acc * 8);
}
#endif
ENTRY(scalar_wide)
{
    Arr<double> a(1, 1, false);
    size_t k = vs_size(0, 1);
    a[0] = k ? vs_real_in(2, 5) : vs_real_in(-5, -2);
    double s = series(a, 40)[0];
    close_to(expm(mat(a), 1e-6), series(a, 40), (s > 1 ? s : 1) * 1e-4);
}
