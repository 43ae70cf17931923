//B also: determinant, inverse, adjoint, cofactor, powers, LU, quotient, characteristic polynomial, controllability, observability and pole placement of windows and cofactor views, of constant matrices too, up to 3x3
#include "common.hpp"
#include <malg/control/control.hpp>
using namespace malg::linalg;
using namespace malg::control;
template <typename X, typename Y> static void same(const X &x, const Y &y)
{
    VS_IEQ(x.rows(), y.rows());
    VS_IEQ(x.cols(), y.cols());
    for (size_t i = 0; i < x.rows(); ++i)
        for (size_t j = 0; j < x.cols(); ++j) VS_EQ(x(i, j), y(i, j));
}
template <typename X, typename Y> static void samev(const X &x, const Y &y)
{
    VS_IEQ(x.size(), y.size());
    for (size_t i = 0; i < x.size(); ++i) VS_EQ(x[i], y[i]);
}
// v has the elements of m; MT is Matrix<double>, constant or not
template <typename MT, typename V> static void functions(const Matrix<double> &m, const V &v, size_t how)
{
    size_t n = m.rows();
    if (how == 0) VS_EQ(determinant(v), determinant(m));
    if (how == 1) same(adjoint(v), adjoint(m));
    if (how == 2 && n > 1) same(malg::linalg::cofactor(v, n - 1, 0), malg::linalg::cofactor(m, n - 1, 0));
    if (how == 3) same(powm(v, 3), powm(m, 3));
    if (how == 4) {
        vs_assume(m(0, 0) != 0 && (n < 2 || m(0, 0) * m(1, 1) != m(0, 1) * m(1, 0)));
        auto lu = lu_decomposition(v);
        auto pq = lu_decomposition(m);
        same(lu.first, pq.first);
        same(lu.second, pq.second);
    }
    if (how == 5) samev(poly(v), poly(m));
    if (how == 6) {
        double d = n == 1 ? m(0, 0) : m(0, 0) * m(1, 1) - m(0, 1) * m(1, 0);
        if (n > 2) return;
        vs_assume(d > 1 || d < -1);
        same(inverse(v), inverse(m));
        same(malg::linalg::div(v, v), malg::linalg::div(m, m));
    }
    Arr<double> b(n, 2), c(2, n);
    MT B = mat(b), C = mat(c);
    View<MT> w(&B, Range{ 0, n }, Range{ 1, 2 }), x(&C, Range{ 1, 2 }, Range{ 0, n });
    Matrix<double> W(w), X(x);
    if (how == 7) same(ctrb(v, w), ctrb(m, W));
    if (how == 8) same(obsv(v, x), obsv(m, X));
    if (how == 9) samev(poly(x), poly(X));
    if (how == 10) {
        if (n > 2) return;
        double d = n == 1 ? W[0] : W[0] * (m[2] * W[0] + m[3] * W[1]) - W[1] * (m[0] * W[0] + m[1] * W[1]);
        vs_assume(d > 1 || d < -1);
        same(acker(v, w, x), acker(m, W, X));
    }
}
template <typename MT> static void windows()
{
    size_t n = vs_size(1, 3), R = n + vs_size(0, 1), C = n + vs_size(0, 1), r0 = vs_size(0, R - n), c0 = vs_size(0, C - n), how = vs_size(0, 10);
    Arr<double> a(R, C), b(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) b(i, j) = a(r0 + i, c0 + j);
    MT m = mat(a);
    View<MT> v(&m, Range{ r0, r0 + n }, Range{ c0, c0 + n });
    functions<MT>(mat(b), v, how);
    SAME_MAT(m, a);
}
template <typename MT> static void cofactors()
{
    size_t n = vs_size(1, 3), p = vs_size(0, n), q = vs_size(0, n), how = vs_size(0, 10);
    Arr<double> a(n + 1, n + 1), b(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) b(i, j) = a(i + (i >= p), j + (j >= q));
    MT m = mat(a);
    CofactorView<MT> v(&m, p, q);
    functions<MT>(mat(b), v, how);
    SAME_MAT(m, a);
}
ENTRY(functions_window) { windows<Matrix<double>>(); }
ENTRY(functions_window_const) { windows<const Matrix<double>>(); }
ENTRY(functions_cofactor) { cofactors<Matrix<double>>(); }
ENTRY(functions_cofactor_const) { cofactors<const Matrix<double>>(); }
