// vs: path_s=100 timeout_ms=60000 steps=40000000
//B also, far beyond the other bounds with a few arbitrary elements: cofactors of 40x3, 3x40 and 34x34, adjoint and inverse of structured 12x12
#include "common.hpp"
using namespace malg::linalg;
ENTRY(huge_cofactor)
{
    size_t k = vs_size(0, 2), r = k == 0 ? 3 : k == 1 ? 40 : 34, c = k == 0 ? 40 : k == 1 ? 3 : 34, p = vs_size(0, 2), q = vs_size(0, 2);
    p = p == 0 ? 0 : p == 1 ? r / 2 : r - 1;
    q = q == 0 ? 0 : q == 1 ? c / 2 : c - 1;
    Arr<double> a = filled<double>(r, c, 3), e(r - 1, c - 1, false);
    for (size_t i = 0; i < r - 1; ++i)
        for (size_t j = 0; j < c - 1; ++j) e(i, j) = a(i < p ? i : i + 1, j < q ? j : j + 1);
    const Matrix<double> A = mat(a);
    SAME_MAT(malg::linalg::cofactor(A, p, q), e);
    SAME_MAT(A, a);
}
ENTRY(huge_inverse)
{
    size_t n = 12, s = vs_bool() ? 5 : 0;
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i) {
        a(i, (i + s) % n) = i % 2 ? 2.0 : -0.5;
        if (i + 1 < n) a(i, (i + 1 + s) % n) = double(i % 3);
    }
    double x = vs_real();
    vs_assume(x != 0);
    a(n - 1, (n - 1 + s) % n) = x;
    a(0, (n - 1 + s) % n) = vs_real();
    const Matrix<double> A = mat(a);
    Matrix<double> X = inverse(A);
    auto J = adjoint(A);
    double d = determinant(A);
    VS_IEQ(X.rows(), n);
    VS_IEQ(X.cols(), n);
    VS_IEQ(J.rows(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            double t = 0, u = 0;
            for (size_t k = 0; k < n; ++k) {
                t += a(i, k) * X(k, j);
                u += a(i, k) * J(k, j);
            }
            VS_EQ(t, i == j ? 1.0 : 0.0);
            VS_EQ(u, i == j ? d : 0.0);
        }
    SAME_MAT(A, a);
}
