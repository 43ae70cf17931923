// vs: path_s=100 timeout_ms=20000 steps=40000000
//B also, far beyond the other bounds with a few arbitrary elements: element-wise 34x4 and 3x40; exponentials of nilpotent 6x6 and 8x8 (thorough 12x12) matrices
#include "common.hpp"
namespace L = malg::linalg;
ENTRY(huge_elem)
{
    bool t = vs_bool();
    Arr<double> a = filled<double>(t ? 34 : 3, t ? 4 : 40, 3, 3);
    const Matrix<double> A = mat(a);
    auto E = L::exp(A);
    VS_IEQ(E.rows(), a.r);
    VS_IEQ(E.cols(), a.c);
    for (size_t i = 0; i < a.r * a.c; ++i) VS_EQ(E[i], std::exp(a[i]));
    SAME_MAT(A, a);
}
ENTRY(huge_nilpotent)
{
    // pairs (i, i + h) of coordinates: the square of the matrix is zero
    size_t n = vs_bool() ? VS_TIER(8, 12) : 6, h = n / 2;
    double x = vs_real_in(-2, 2);
    Arr<double> a(n, n, false), e(n, n, false);
    for (size_t i = 0; i < n; ++i) e(i, i) = 1;
    for (size_t i = 0; i < h; ++i)
        for (size_t j = 0; j < h; ++j)
            if ((i * 3 + j) % 4 == 0) a(i, h + j) = e(i, h + j) = (i + j) % 2 ? -0.5 : 0.75;
    a(h - 1, n - 1) = e(h - 1, n - 1) = x;
    const Matrix<double> A = mat(a);
    SAME_MAT(L::expm(A, 1e-5), e);
    SAME_MAT(A, a);
}
ENTRY(huge_jordan)
{
    // a shift by one: x^k / k! on the k-th diagonal
    size_t n = 5;
    double x = vs_real_in(-1, 1);
    Arr<double> a(n, n, false), e(n, n, false);
    for (size_t i = 0; i + 1 < n; ++i) a(i, i + 1) = i ? 1 : x;
    for (size_t i = 0; i < n; ++i) {
        double f = 1;
        e(i, i) = 1;
        for (size_t j = i + 1; j < n; ++j) {
            f *= a(j - 1, j) / double(j - i);
            e(i, j) = f;
        }
    }
    SAME_MAT(L::expm(mat(a), 1e-5), e);
}
