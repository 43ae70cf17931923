//B any one of the first 8 allocations of one of 24 operations fails (shapes up to 3x3, contents arbitrary); sizes and shapes whose storage cannot be addressed (12 sizes, 10 shapes)
#include "common.hpp"
#include <new>
using malg::utility::hstack;
using malg::utility::vstack;
// whatever happened, the object is consistent: readable, and usable afterwards
static void usable(Matrix<double> &m)
{
    VS_IEQ(m.size(), m.rows() * m.cols());
    size_t n = 0;
    for (auto &x : m) {
        VS_ASSERT(x == x);
        ++n;
    }
    VS_IEQ(n, m.size());
    m.resize(m.rows() + 1, m.cols() + 1);
    for (size_t i = 0; i < m.rows(); ++i) m(i, m.cols() - 1) = 1;
    for (size_t j = 0; j < m.cols(); ++j) m(m.rows() - 1, j) = 2;
    Arr<double> f(2, 2);
    m = mat(f);
    SAME_MAT(m, f);
}
static void usable(Vector<double> &v)
{
    size_t n = 0;
    for (auto &x : v) {
        VS_ASSERT(x == x);
        ++n;
    }
    VS_IEQ(n, v.size());
    v.resize(v.size() + 2);
    v[v.size() - 1] = 4;
    Arr<double> f(3, 1);
    v = vec(f);
    SAME_VEC(v, f);
}
ENTRY(out_of_memory)
{
    Arr<double> a(2, 3), b(2, 3), s(3, 3), x(3, 1), y(2, 1);
    Matrix<double> m = mat(a), t = mat(s);
    const Matrix<double> B = mat(b), S = mat(s);
    Vector<double> v = vec(x);
    const Vector<double> w = vec(y);
    size_t op = vs_size(0, 23), k = vs_size(1, 8);
    bool same = false; // a growth that fails leaves the object as it was
    vs_fail_alloc(k);
    try {
        switch (op) {
        case 0: m = B; break;
        case 1: m = S; break;
        case 2: m.resize(3, 3); break;
        case 3: m.resize(4, 3); same = true; break;
        case 4: v.resize(5); same = true; break;
        case 5: v.resize(2); same = true; break;
        case 6: v = w; break;
        case 7: m = m + B; same = true; break;
        case 8: m += B; break;
        case 9: m *= S; break;
        case 10: m = vstack(m, B); same = true; break;
        case 11: m = hstack(m, w); same = true; break;
        case 12: m = malg::linalg::transpose(B); same = true; break;
        case 13: m = m(Range{ 0, 2 }, Range{ 1, 3 }); break;
        case 14: v = malg::utility::concatenate(v, w); break;
        case 15: malg::utility::remove_row(m, 0); break;
        case 16: malg::utility::remove_column(m, 1); break;
        case 17: m = { { 1, 2 }, { 3, 4 }, { 5, 6 } }; break;
        case 18: { Matrix<double> c(B); m = std::move(c); break; }
        case 19: { Vector<double> c(w); v = std::move(c); break; }
        case 20: t *= S; break;
        case 21: m = B * S; same = true; break;
        case 22: { Matrix<int> c(2, 2, 1); m = c; break; }
        case 23: v = v + v; break;
        }
        vs_fail_alloc(0);
    } catch (const std::bad_alloc &) {
        vs_fail_alloc(0);
        vs_reach();
        if (same) {
            SAME_MAT(m, a);
            SAME_VEC(v, x);
            SAME_MAT(t, s);
        }
    }
    SAME_MAT(B, b);
    SAME_MAT(S, s);
    SAME_VEC(w, y);
    usable(m);
    usable(v);
    usable(t);
}
ENTRY(huge_vector)
{
    static const size_t N[] = { SIZE_MAX, SIZE_MAX - 1, SIZE_MAX / 8 + 1, SIZE_MAX / 8 + 2, SIZE_MAX / 8 + 5, SIZE_MAX / 4 + 1, SIZE_MAX / 4 + 3, SIZE_MAX / 2 + 1, SIZE_MAX / 2 + 2, SIZE_MAX / 2 + 4, SIZE_MAX / 8, size_t(1) << 50 };
    size_t n = N[vs_size(0, 11)], how = vs_size(0, 1);
    Arr<double> x(3, 1);
    Vector<double> v = vec(x);
    bool thrown = false;
    try {
        if (how) v.resize(n);
        else Vector<double> w(n);
    } catch (const std::exception &) {
        thrown = true;
    }
    VS_ASSERT(thrown);
    SAME_VEC(v, x);
    usable(v);
}
ENTRY(huge_matrix)
{
    const size_t Q = size_t(1) << 32, H = size_t(1) << 63;
    const size_t R[] = { Q, H, 2, 3, 2 * Q, SIZE_MAX, SIZE_MAX, Q + 1, 1, Q }, C[] = { Q, 2, H, SIZE_MAX / 3 + 1, H / Q + 1, SIZE_MAX, 3, Q, SIZE_MAX, Q / 2 };
    size_t k = vs_size(0, 9), how = vs_size(0, 2);
    Arr<double> a(2, 2);
    Matrix<double> m = mat(a), e;
    bool thrown = false;
    try {
        if (how == 0) m.resize(R[k], C[k]);
        if (how == 1) Matrix<double> z(R[k], C[k]);
        if (how == 2) e.reshape(R[k], C[k]);
    } catch (const std::exception &) {
        thrown = true;
    }
    VS_ASSERT(thrown);
    SAME_MAT(m, a);
    VS_IEQ(e.size(), 0);
    usable(m);
    usable(e);
}
