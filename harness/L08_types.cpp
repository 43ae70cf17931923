//B also: element-wise and matrix exponentials of single and extended precision, complex and 64-bit integer elements (nilpotent matrices up to 3x3)
#include "common.hpp"
using malg::linalg::expm;
template <typename T, typename R> static void nilpotent(T (*any)())
{
    size_t n = vs_size(1, 3), up = vs_size(0, 1), k = vs_size(0, 1);
    Arr<T> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = i + 1; j < n; ++j) (up ? a(i, j) : a(j, i)) = T(int(1 + i + 2 * j) % 3) - T(1);
    if (n > 1) (up ? a(n - 2, n - 1) : a(n - 1, n - 2)) = any();
    Arr<R> s(n, n, false), p(n, n, false);
    for (size_t i = 0; i < n; ++i) s(i, i) = p(i, i) = R(1);
    for (size_t m = 1; m <= n; ++m) {
        Arr<R> q(n, n, false);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j) {
                R v = R(0);
                for (size_t l = 0; l < n; ++l) v += p(i, l) * R(a(l, j));
                q(i, j) = v / R(int(m));
                s(i, j) += q(i, j);
            }
        p = q;
    }
    const Matrix<T> A = mat(a);
    Matrix<R> E = k == 0 ? typed<R>(expm(A, 1e-5)) : typed<R>(expm(A(Range{ 0, n }, Range{ 0, n }), 1e-5));
    if constexpr (std::is_same_v<T, float>) { // up to the spacing of the type
        VS_IEQ(E.rows(), n);
        VS_IEQ(E.cols(), n);
        for (size_t i = 0; i < n * n; ++i) {
            VS_ASSERT(double(E[i]) - double(s[i]) <= 1e-4);
            VS_ASSERT(double(s[i]) - double(E[i]) <= 1e-4);
        }
    } else
        SAME_MAT(E, s);
    SAME_MAT(A, a);
}
static float some_f() { return float(vs_real_in(-2, 2)); }
static long double some_ld() { return vs_real_in(-2, 2); }
static cd some_c()
{
    double x = vs_real_in(-1, 1), y = vs_bool() ? 1 : 0;
    return cd(x, y);
}
static long some_l() { return long(vs_size(0, 6)) - 3; }
ENTRY(types_f) { nilpotent<float, float>(some_f); }
ENTRY(types_ld) { nilpotent<long double, long double>(some_ld); }
ENTRY(types_c) { nilpotent<cd, cd>(some_c); }
ENTRY(types_l) { nilpotent<long, double>(some_l); }
