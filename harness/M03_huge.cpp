//B also, far beyond the other bounds with a few arbitrary elements: shapes that differ by one in dimensions around 16, 32, 64 and 128, or only in their arrangement
#include "common.hpp"
#define BAD(...) VS_THROWS(std::invalid_argument, __VA_ARGS__)
ENTRY(huge)
{
    static const size_t S[][4] = { { 64, 2, 65, 2 }, { 2, 64, 2, 63 }, { 16, 16, 16, 17 }, { 8, 32, 32, 8 }, { 128, 1, 1, 128 }, { 4, 33, 12, 11 }, { 12, 12, 36, 4 } };
    size_t w = vs_size(0, 6);
    Arr<double> a = filled<double>(S[w][0], S[w][1], 1), b = filled<double>(S[w][2], S[w][3], 2);
    Matrix<double> A = mat(a);
    const Matrix<double> B = mat(b);
    BAD(A + B);
    BAD(A - B);
    BAD(A += B);
    BAD(A -= B);
    BAD(A == B);
    BAD(A != B);
    BAD(A < B);
    BAD(A <= B);
    BAD(A > B);
    BAD(A >= B);
    BAD(malg::element_wise_product(A, B));
    BAD(malg::linear_combination(A, 2.0, B, 3.0));
    if (A.cols() != B.rows()) {
        BAD(A * B);
    }
    SAME_MAT(A, a);
    SAME_MAT(B, b);
}
ENTRY(huge_vec)
{
    static const size_t S[][2] = { { 64, 65 }, { 33, 32 }, { 130, 2 }, { 17, 34 }, { 300, 44 } };
    size_t w = vs_size(0, 4);
    Arr<double> a = filled<double>(1, S[w][0], 1), b = filled<double>(1, S[w][1], 2);
    Vector<double> v = vec(a);
    const Vector<double> x = vec(b);
    BAD(v + x);
    BAD(v - x);
    BAD(v += x);
    BAD(v -= x);
    BAD(v * x);
    BAD(malg::dot(v, x));
    BAD(v == x);
    SAME_VEC(v, a);
    SAME_VEC(x, b);
    Matrix<double> m(2, S[w][0]);
    BAD(m * x);
    BAD(malg::dot(m, x));
}
