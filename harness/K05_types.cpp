//B also: single precision systems of 1..2 states, inputs and outputs; complex ones
#include "common.hpp"
#include <malg/control/control.hpp>
using namespace malg::control;
template <typename T>
static void types()
{
    size_t n = vs_size(1, 2), m = vs_size(1, 2), q = vs_size(1, 2);
    Arr<T> a(n, n), b(n, m), c(q, n), d(q, m), x(n, 1), u(m, 1);
    const DiscreteStateSpace<T> s(mat(a), mat(b), mat(c), mat(d), T(1));
    auto r = simulate_step(s, vec(x), vec(u));
    VS_IEQ(r.first.size(), n);
    VS_IEQ(r.second.size(), q);
    for (size_t i = 0; i < n; ++i) {
        T t = T(0);
        for (size_t j = 0; j < n; ++j) t += a(i, j) * x[j];
        for (size_t j = 0; j < m; ++j) t += b(i, j) * u[j];
        VS_SAME(r.first[i], t);
    }
    for (size_t i = 0; i < q; ++i) {
        T t = T(0);
        for (size_t j = 0; j < n; ++j) t += c(i, j) * x[j];
        for (size_t j = 0; j < m; ++j) t += d(i, j) * u[j];
        VS_SAME(r.second[i], t);
    }
}
ENTRY(types_f) { types<float>(); }
ENTRY(types_ld) { types<ld>(); }
ENTRY(types_c) { types<cd>(); }
