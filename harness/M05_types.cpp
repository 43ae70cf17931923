//B also: 64-bit integers, characters, single precision, mixed precisions
#include "common.hpp"
template <typename T>
static void signs()
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<T> a(r, c);
    const Matrix<T> A = mat(a);
    const Vector<T> v = vec(a);
    auto s = malg::sign(A), S = s;
    auto t = malg::sign(v);
    auto x = malg::abs(A);
    auto y = malg::abs(v);
    VS_IEQ(s.rows(), r);
    VS_IEQ(s.cols(), c);
    VS_IEQ(x.rows(), r);
    VS_IEQ(x.cols(), c);
    VS_IEQ(t.size(), r * c);
    VS_IEQ(y.size(), r * c);
    for (size_t i = 0; i < r * c; ++i) {
        VS_SAME(s[i], a[i] > 0 ? 1 : -1);
        VS_SAME(t[i], a[i] > 0 ? 1 : -1);
        T w = a[i] < 0 ? T(-a[i]) : a[i];
        VS_SAME(x[i], w);
        VS_SAME(y[i], w);
    }
    SAME_MAT(A, a);
}
ENTRY(types_sign_l) { signs<long>(); }
ENTRY(types_sign_f) { signs<float>(); }
ENTRY(types_sign_sc) { signs<sc>(); }
ENTRY(types_parts)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<cf> a(r, c);
    const Matrix<cf> A = mat(a);
    const Vector<cf> v = vec(a);
    auto x = malg::real(A), y = malg::imag(A);
    auto p = malg::real(v), q = malg::imag(v);
    for (size_t i = 0; i < r * c; ++i) {
        VS_EQ(std::real(x[i]), a[i].real());
        VS_EQ(std::real(y[i]), a[i].imag());
        VS_EQ(std::real(p[i]), a[i].real());
        VS_EQ(std::real(q[i]), a[i].imag());
    }
}
template <typename A, typename B, typename C>
static void products()
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2);
    Arr<A> a(r, c);
    Arr<B> b(r, c);
    A s = vs_any<A>();
    B t = vs_any<B>();
    const Matrix<A> x = mat(a);
    const Matrix<B> y = mat(b);
    auto p = typed<C>(malg::element_wise_product(x, y));
    auto l = typed<C>(malg::linear_combination(x, s, y, t));
    VS_IEQ(p.rows(), r);
    VS_IEQ(l.cols(), c);
    for (size_t i = 0; i < r * c; ++i) {
        VS_SAME(p[i], C(a[i]) * C(b[i]));
        VS_SAME(l[i], C(a[i]) * C(s) + C(b[i]) * C(t));
    }
}
ENTRY(types_product_fd) { products<float, double, double>(); }
ENTRY(types_product_df) { products<double, float, double>(); }
ENTRY(types_product_cfd) { products<cf, double, cd>(); }
ENTRY(types_product_dcf) { products<double, cf, cd>(); }
ENTRY(types_product_id) { products<int, double, double>(); }
