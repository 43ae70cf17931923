//B also, far beyond the other bounds with a few arbitrary elements: matrices of 34x4 and 3x40, vectors of 136 and 120, a complex matrix of 12x12
#include "common.hpp"
ENTRY(huge)
{
    bool t = vs_bool();
    size_t r = t ? 34 : 3, c = t ? 4 : 40, n = r * c;
    Arr<double> a = filled<double>(r, c, 3), b = filled<double>(r, c, 4), e(r, c, false), g(r, c, false), p(r, c, false), l(r, c, false);
    double k = vs_real();
    size_t calls = 0;
    auto f = [&](double x) { ++calls; return k * x + 3; };
    auto h = [](double x, double y) { return 2 * x - 5 * y; };
    for (size_t i = 0; i < n; ++i) {
        e[i] = k * a[i] + 3;
        g[i] = 2 * a[i] - 5 * b[i];
        p[i] = a[i] * b[i];
        l[i] = a[i] * k + b[i] * 3;
    }
    const Matrix<double> A = mat(a), B = mat(b);
    SAME_MAT(malg::element_wise_function(A, f), e);
    VS_IEQ(calls, n);
    SAME_VEC(malg::element_wise_function(vec(a), f), e);
    SAME_MAT(malg::element_wise_binary_function(A, B, h), g);
    SAME_VEC(malg::element_wise_binary_function(vec(a), vec(b), h), g);
    SAME_MAT(malg::element_wise_product(A, B), p);
    SAME_MAT(malg::linear_combination(A, k, B, 3.0), l);
    auto R = malg::sign(A);
    auto V = malg::sign(vec(a));
    auto P = malg::abs(A);
    auto Q = malg::abs(vec(a));
    VS_IEQ(R.rows(), r);
    VS_IEQ(P.cols(), c);
    VS_IEQ(V.size(), n);
    VS_IEQ(Q.size(), n);
    for (size_t i = 0; i < n; ++i) {
        double m = a[i] < 0 ? -a[i] : a[i];
        VS_ASSERT(a[i] > 0 ? R[i] == 1 : a[i] < 0 ? R[i] == -1 : (R[i] == 1 || R[i] == -1));
        VS_ASSERT(V[i] == R[i]);
        VS_ASSERT(P[i] == m);
        VS_ASSERT(Q[i] == m);
    }
    SAME_MAT(A, a);
    SAME_MAT(B, b);
}
ENTRY(huge_parts)
{
    Arr<cd> a(12, 12);
    const Matrix<cd> A = mat(a);
    auto R = malg::real(A);
    auto I = malg::imag(A);
    auto rv = malg::real(vec(a));
    auto iv = malg::imag(vec(a));
    VS_IEQ(R.rows(), 12);
    VS_IEQ(I.cols(), 12);
    VS_IEQ(rv.size(), 144);
    VS_IEQ(iv.size(), 144);
    for (size_t i = 0; i < 144; ++i) {
        VS_EQ(std::real(R[i]), a[i].real());
        VS_EQ(std::imag(R[i]), 0.0);
        VS_EQ(std::real(I[i]), a[i].imag());
        VS_EQ(std::imag(I[i]), 0.0);
        VS_EQ(std::real(rv[i]), a[i].real());
        VS_EQ(std::real(iv[i]), a[i].imag());
    }
}
