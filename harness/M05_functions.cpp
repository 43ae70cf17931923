//B matrices 0..3 x 0..3 and 2x17/9x2, vectors 0..4 and 17, arbitrary entries (double, int, complex); exact arithmetic
#include "common.hpp"
static double mag(double x) { return x < 0 ? -x : x; }
ENTRY(abs_d)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<double> a(r, c);
    const Matrix<double> A = mat(a);
    Arr<double> e(r, c, false);
    for (size_t i = 0; i < r * c; ++i) e[i] = mag(a[i]);
    SAME_MAT(malg::abs(A), e);
    SAME_VEC(malg::abs(vec(a)), e);
    SAME_MAT(A, a);
}
ENTRY(abs_i)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<int> a(r, c);
    const Matrix<int> A = mat(a);
    auto R = malg::abs(A);
    auto V = malg::abs(vec(a));
    VS_IEQ(R.rows(), r);
    VS_IEQ(R.cols(), c);
    for (size_t i = 0; i < r * c; ++i) {
        VS_ASSERT(R[i] == (a[i] < 0 ? -a[i] : a[i]));
        VS_ASSERT(V[i] == (a[i] < 0 ? -a[i] : a[i]));
    }
}
// |z| >= 0 and |z|^2 = re^2 + im^2
ENTRY(abs_c)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<cd> a(r, c);
    auto R = malg::abs(mat(a));
    auto V = malg::abs(vec(a));
    VS_IEQ(R.rows(), r);
    VS_IEQ(R.cols(), c);
    VS_IEQ(V.size(), r * c);
    for (size_t i = 0; i < r * c; ++i) {
        double n = a[i].real() * a[i].real() + a[i].imag() * a[i].imag();
        double x = std::real(R[i]), y = std::real(V[i]);
        VS_ASSERT(x >= 0 && y >= 0);
        VS_EQ(x * x, n);
        VS_EQ(y * y, n);
        VS_EQ(std::imag(R[i]), 0.0);
    }
}
ENTRY(sign)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<double> a(r, c);
    auto R = malg::sign(mat(a));
    auto V = malg::sign(vec(a));
    VS_IEQ(R.rows(), r);
    VS_IEQ(R.cols(), c);
    VS_IEQ(V.size(), r * c);
    for (size_t i = 0; i < r * c; ++i) {
        if (a[i] > 0) {
            VS_ASSERT(R[i] == 1);
            VS_ASSERT(V[i] == 1);
        } else if (a[i] < 0) {
            VS_ASSERT(R[i] == -1);
            VS_ASSERT(V[i] == -1);
        } else {
            VS_ASSERT(R[i] == -1 || R[i] == 1);
            VS_ASSERT(V[i] == R[i]);
        }
    }
}
ENTRY(sign_c)
{
    size_t r = vs_size(0, 1), c = vs_size(0, 2);
    Arr<cd> a(r, c);
    auto R = malg::sign(mat(a));
    auto V = malg::sign(vec(a));
    // a part equal to zero has the sign of the real number zero
    double z = double(malg::sign(Matrix<double>(1, 1, 0.0))[0]);
    VS_IEQ(R.rows(), r);
    VS_IEQ(R.cols(), c);
    VS_IEQ(V.size(), r * c);
    for (size_t i = 0; i < r * c; ++i) {
        double p = a[i].real(), q = a[i].imag();
        cd e(p > 0 ? 1 : p < 0 ? -1 : z, q > 0 ? 1 : q < 0 ? -1 : z);
        VS_CEQ(R[i], e);
        VS_CEQ(V[i], e);
    }
}
// larger shapes: every element is treated the same way
ENTRY(sign_large)
{
    size_t r = vs_size(1, 9), c = r == 9 ? 2 : 17 / r, k = vs_size(0, 3) * (r * c - 1) / 3;
    Arr<double> a(r, c, false);
    for (size_t i = 0; i < r * c; ++i) a[i] = double(i % 3) - 1;
    a[k] = vs_real();
    const Matrix<double> A = mat(a);
    auto R = malg::sign(A);
    auto V = malg::sign(vec(a));
    auto P = malg::abs(A);
    auto Q = malg::abs(vec(a));
    VS_IEQ(R.rows(), r);
    VS_IEQ(R.cols(), c);
    for (size_t i = 0; i < r * c; ++i) {
        VS_ASSERT(a[i] > 0 ? R[i] == 1 : a[i] < 0 ? R[i] == -1 : (R[i] == 1 || R[i] == -1));
        VS_ASSERT(V[i] == R[i]);
        VS_ASSERT(P[i] == mag(a[i]));
        VS_ASSERT(Q[i] == mag(a[i]));
    }
}
ENTRY(parts)
{
    size_t r = sizes(0, 3, 9, 2), c = sizes(0, 3, 2, 17);
    Arr<cd> a(r, c);
    const Matrix<cd> A = mat(a);
    const Vector<cd> v = vec(a);
    auto R = malg::real(A);
    auto I = malg::imag(A);
    auto rv = malg::real(v);
    auto iv = malg::imag(v);
    VS_IEQ(R.rows(), r);
    VS_IEQ(R.cols(), c);
    VS_IEQ(I.rows(), r);
    VS_IEQ(I.cols(), c);
    VS_IEQ(rv.size(), r * c);
    VS_IEQ(iv.size(), r * c);
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            VS_EQ(std::real(R(i, j)), a(i, j).real());
            VS_EQ(std::imag(R(i, j)), 0.0);
            VS_EQ(std::real(I(i, j)), a(i, j).imag());
            VS_EQ(std::imag(I(i, j)), 0.0);
        }
    for (size_t i = 0; i < r * c; ++i) {
        VS_EQ(std::real(rv[i]), a[i].real());
        VS_EQ(std::real(iv[i]), a[i].imag());
    }
    SAME_MAT(A, a);
}
// any function is applied to each element once and the results are kept in place
ENTRY(unary)
{
    size_t r = sizes(0, 3, 9, 2), c = sizes(0, 3, 2, 17);
    Arr<double> a(r, c), e(r, c, false);
    double k = vs_real();
    size_t calls = 0;
    auto f = [&](double x) { ++calls; return k * x + 3; };
    for (size_t i = 0; i < r * c; ++i) e[i] = k * a[i] + 3;
    const Matrix<double> A = mat(a);
    SAME_MAT(malg::element_wise_function(A, f), e);
    VS_IEQ(calls, r * c);
    SAME_VEC(malg::element_wise_function(vec(a), f), e);
    SAME_MAT(A, a);
}
ENTRY(unary_convert)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 3);
    Arr<int> a(r, c);
    Arr<double> e(r, c, false);
    auto f = [](int x) { return x * 0.5; };
    for (size_t i = 0; i < r * c; ++i) e[i] = a[i] * 0.5;
    SAME_MAT(malg::element_wise_function(mat(a), f), e);
    SAME_VEC(malg::element_wise_function(vec(a), f), e);
}
ENTRY(binary)
{
    size_t r = sizes(0, 3, 9, 2), c = sizes(0, 3, 2, 17);
    Arr<double> a(r, c), b(r, c), e(r, c, false);
    auto f = [](double x, double y) { return 2 * x - 5 * y; };
    for (size_t i = 0; i < r * c; ++i) e[i] = 2 * a[i] - 5 * b[i];
    SAME_MAT(malg::element_wise_binary_function(mat(a), mat(b), f), e);
    SAME_VEC(malg::element_wise_binary_function(vec(a), vec(b), f), e);
}
#define LC(NAME, TA, TB, TS, TR)                                    \
    ENTRY(NAME)                                                     \
    {                                                               \
        size_t r = vs_size(0, 3), c = vs_size(0, 3);                \
        Arr<TA> a(r, c);                                            \
        Arr<TB> b(r, c);                                            \
        TS s = vs_any<TS>(), t = vs_any<TS>();                      \
        Arr<TR> e(r, c, false), p(r, c, false);                     \
        for (size_t i = 0; i < r * c; ++i) {                        \
            e[i] = TR(a[i]) * TR(s) + TR(b[i]) * TR(t);             \
            p[i] = TR(a[i]) * TR(b[i]);                             \
        }                                                           \
        const Matrix<TA> A = mat(a);                                \
        const Matrix<TB> B = mat(b);                                \
        SAME_MAT(malg::linear_combination(A, s, B, t), e);          \
        SAME_MAT(malg::element_wise_product(A, B), p);              \
        SAME_MAT(A, a);                                             \
        SAME_MAT(B, b);                                             \
    }
LC(linear_d, double, double, double, double)
LC(linear_i, int, int, int, int)
LC(linear_c, cd, cd, double, cd)
LC(linear_cs, cd, cd, cd, cd)
