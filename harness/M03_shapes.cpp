//B matrices 0..3 x 0..3 with differing shapes, vectors 0..4 of different sizes; arbitrary entries
#include "common.hpp"
#define BAD(...) VS_THROWS(std::invalid_argument, __VA_ARGS__)
ENTRY(matrix_matrix)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3), r2 = vs_size(0, 3), c2 = vs_size(0, 3);
    if (r == r2 && c == c2) return;
    Arr<double> a(r, c), b(r2, c2);
    Matrix<double> A = mat(a);
    const Matrix<double> B = mat(b);
    BAD(A + B);
    BAD(A - B);
    BAD(A += B);
    SAME_MAT(A, a);
    BAD(A -= B);
    SAME_MAT(A, a);
    BAD(A == B);
    BAD(A != B);
    BAD(A < B);
    BAD(A <= B);
    BAD(A > B);
    BAD(A >= B);
    BAD(malg::element_wise_product(A, B));
    BAD(malg::linear_combination(A, 2.0, B, 3.0));
    SAME_MAT(A, a);
    SAME_MAT(B, b);
}
ENTRY(matrix_matrix_int)
{
    size_t r = vs_size(1, 2), c = vs_size(1, 2), r2 = vs_size(1, 2), c2 = vs_size(1, 2);
    if (r == r2 && c == c2) return;
    Arr<int> a(r, c);
    Arr<double> b(r2, c2);
    const Matrix<int> A = mat(a);
    Matrix<double> B = mat(b);
    BAD(A + B);
    BAD(B - A);
    BAD(B += A);
    BAD(B -= A);
    BAD(A == B);
    BAD(A != B);
    BAD(A < B);
    SAME_MAT(B, b);
}
ENTRY(product)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3), r2 = vs_size(0, 3), c2 = vs_size(0, 3);
    Arr<double> a(r, c), b(r2, c2);
    Matrix<double> A = mat(a);
    const Matrix<double> B = mat(b);
    if (c != r2) BAD(A * B);
    if (c != r2 || c2 != c) BAD(A *= B);
    else VS_NOTHROW(A *= B);
    if (c != r2 || c2 != c) SAME_MAT(A, a);
    SAME_MAT(B, b);
}
ENTRY(matrix_vector)
{
    size_t r = vs_size(0, 3), c = vs_size(0, 3), n = vs_size(0, 4);
    if (n == c) return;
    Arr<double> a(r, c), b(1, n);
    const Matrix<double> A = mat(a);
    const Vector<double> v = vec(b);
    BAD(A * v);
    BAD(malg::dot(A, v));
}
ENTRY(vector_vector)
{
    size_t n = vs_size(0, 4), m = vs_size(0, 4);
    if (n == m) return;
    Arr<double> a(1, n), b(1, m);
    Vector<double> v = vec(a);
    const Vector<double> w = vec(b);
    BAD(v + w);
    BAD(v - w);
    BAD(v * w);
    BAD(v += w);
    SAME_VEC(v, a);
    BAD(v -= w);
    SAME_VEC(v, a);
    BAD(v == w);
    BAD(v != w);
    BAD(malg::dot(v, w));
    BAD(malg::projection(v, w));
    SAME_VEC(v, a);
    SAME_VEC(w, b);
}
ENTRY(views)
{
    size_t c = vs_size(1, 3);
    Arr<double> a(3, 3), b(2, 2);
    Matrix<double> A = mat(a), B = mat(b);
    View<Matrix<double>> V(&A, Range{ 0, 2 }, Range{ 0, c });
    if (c != 2) {
        BAD(V + B);
        BAD(B - V);
        BAD(V += B);
        BAD(B += V);
        BAD(V == B);
        BAD(V *B);
    } else {
        VS_NOTHROW(V + B);
        VS_NOTHROW(V * B);
    }
    SAME_MAT(A, a);
    SAME_MAT(B, b);
}
// functions defined for square matrices only
ENTRY(square_only)
{
    size_t r = vs_size(1, 4), c = vs_size(1, 4);
    if (r == c) return;
    Arr<double> a(r, c);
    const Matrix<double> A = mat(a);
    BAD(malg::linalg::determinant(A));
    BAD(malg::linalg::inverse(A));
    BAD(malg::linalg::powm(A, 2));
    BAD(malg::sub_norm(A));
    BAD(malg::linalg::lu_decomposition(A));
    SAME_MAT(A, a);
}
