// vs: path_s=100 timeout_ms=20000 steps=40000000
//B also, far beyond the other bounds with a few arbitrary elements: 40 and 130 steps of a system with one state and of one with 4 states, 1..3 steps of one with 12 states; the initial state and the last inputs arbitrary
#include "common.hpp"
#include <malg/control/control.hpp>
using namespace malg::control;
ENTRY(huge)
{
    size_t w = vs_size(0, 3), n = w == 0 ? 1 : w == 1 ? 4 : w == 2 ? 12 : 1, in = w == 0 ? 40 : w == 1 ? 40 : w == 2 ? 3 : 130, m = w == 2 ? 5 : 1, q = w == 2 ? 5 : 2;
    Arr<double> a(n, n, false), b(n, m, false), c(q, n, false), d(q, m, false);
    // a shift with a small feedback: the values do not grow
    for (size_t i = 0; i < n; ++i) a(i, (i + 1) % n) = i == 0 && n > 1 ? 0 : 1;
    for (size_t i = 0; i < n * m; ++i) b[i] = double(i % 2) - 0.5;
    for (size_t i = 0; i < q * n; ++i) c[i] = double((i * 3) % 5) - 2;
    for (size_t i = 0; i < q * m; ++i) d[i] = double((i * 2) % 3) - 1;
    const DiscreteStateSpace<double> s(mat(a), mat(b), mat(c), mat(d), 0.5);
    size_t extra = vs_size(0, 2), want = in + extra - 1;
    Arr<double> x0(n, 1), all(in, m, false);
    for (size_t i = 0; i < in * m; ++i) all[i] = double((i * 7) % 5) - 2;
    all[in * m - 1] = vs_real();
    all[0] = vs_real();
    std::vector<Vector<double>> u;
    for (size_t k = 0; k < in; ++k) {
        Vector<double> v(m);
        for (size_t j = 0; j < m; ++j) v[j] = all(k, j);
        u.push_back(v);
    }
    const std::vector<Vector<double>> &cu = u;
    auto r = simulate(s, cu, 0.5 * double(want), vec(x0));
    const auto &t = std::get<0>(r);
    const auto &x = std::get<1>(r);
    const auto &y = std::get<2>(r);
    size_t steps = in < want ? in : want;
    VS_IEQ(t.size(), steps + 1);
    VS_IEQ(x.size(), steps + 1);
    VS_IEQ(y.size(), steps);
    Arr<double> cur = x0;
    for (size_t k = 0; k < steps; ++k) {
        Arr<double> nx(n, 1, false), o(q, 1, false);
        for (size_t i = 0; i < n; ++i) {
            nx[i] = a(i, (i + 1) % n) * cur[(i + 1) % n];
            for (size_t j = 0; j < m; ++j) nx[i] += b(i, j) * all(k, j);
        }
        for (size_t i = 0; i < q; ++i) {
            for (size_t j = 0; j < n; ++j) o[i] += c(i, j) * cur[j];
            for (size_t j = 0; j < m; ++j) o[i] += d(i, j) * all(k, j);
        }
        VS_EQ(t[k], double(k) * 0.5);
        SAME_VEC(x[k], cur);
        SAME_VEC(y[k], o);
        cur = nx;
    }
    VS_EQ(t[steps], double(steps) * 0.5);
    SAME_VEC(x[steps], cur);
}
ENTRY(huge_zeros)
{
    size_t n = 34, m = 17;
    DiscreteStateSpace<double> s(Matrix<double>(n, n, 1.0), Matrix<double>(n, m, 2.0), Matrix<double>(3, n, 1.0), Matrix<double>(3, m, 1.0), 0.5);
    auto u = generate_input_zero(s);
    auto x = generate_state_zero(s);
    VS_IEQ(u.size(), m);
    VS_IEQ(x.size(), n);
    for (size_t i = 0; i < m; ++i) VS_EQ(u[i], 0.0);
    for (size_t i = 0; i < n; ++i) VS_EQ(x[i], 0.0);
}
