// vs: path_s=60 timeout_ms=20000
//B 1..2 states, inputs and outputs (3 states with one input), 0..3 inputs (thorough 5), simulated time 0..4 sample times, sample time 1, 0.5 or 0.25; every matrix, input and initial state arbitrary; arbitrary real sample time and duration for one state; 9 and 18 inputs with fixed A and B; exact arithmetic
#include "common.hpp"
#include <malg/control/control.hpp>
using namespace malg::control;
struct Sys {
    Arr<double> a, b, c, d;
    Sys(size_t n, size_t m, size_t q) : a(n, n), b(n, m), c(q, n), d(q, m) {}
    DiscreteStateSpace<double> get(double h) const { return DiscreteStateSpace<double>(mat(a), mat(b), mat(c), mat(d), h); }
};
static Arr<double> lin(const Arr<double> &a, const Arr<double> &x, const Arr<double> &b, const Arr<double> &u)
{
    Arr<double> y(a.r, 1, false);
    for (size_t i = 0; i < a.r; ++i) {
        for (size_t j = 0; j < a.c; ++j) y[i] += a(i, j) * x[j];
        for (size_t j = 0; j < b.c; ++j) y[i] += b(i, j) * u[j];
    }
    return y;
}
ENTRY(step)
{
    size_t n = vs_size(1, 3), m = vs_size(1, 3), q = vs_size(1, 3);
    Sys s(n, m, q);
    Arr<double> x(n, 1), u(m, 1);
    const auto d = s.get(1.0);
    const Vector<double> X = vec(x), U = vec(u);
    auto r = simulate_step(d, X, U);
    SAME_VEC(r.first, lin(s.a, x, s.b, u));
    SAME_VEC(r.second, lin(s.c, x, s.d, u));
    SAME_VEC(X, x);
    SAME_VEC(U, u);
    SAME_MAT(d.A, s.a);
    SAME_MAT(d.D, s.d);
}
static void run(size_t n, size_t m, size_t q, size_t inputs, size_t want, double h, double time, bool fixed = false)
{
    Sys s(n, m, q);
    if (fixed) {
        for (size_t i = 0; i < n * n; ++i) s.a[i] = double(i % 3) / 2 - 0.25;
        for (size_t i = 0; i < n * m; ++i) s.b[i] = double(i % 2) - 0.5;
    }
    const auto d = s.get(h);
    Arr<double> x0(n, 1), all(inputs + 1, m);
    std::vector<Vector<double>> u;
    for (size_t k = 0; k < inputs; ++k) {
        Vector<double> v(m);
        for (size_t j = 0; j < m; ++j) v[j] = all(k, j);
        u.push_back(v);
    }
    const std::vector<Vector<double>> &cu = u;
    auto r = simulate(d, cu, time, vec(x0));
    const auto &t = std::get<0>(r);
    const auto &x = std::get<1>(r);
    const auto &y = std::get<2>(r);
    size_t steps = inputs < want ? inputs : want;
    VS_IEQ(t.size(), steps + 1);
    VS_IEQ(x.size(), steps + 1);
    VS_IEQ(y.size(), steps);
    Arr<double> cur = x0;
    for (size_t k = 0; k < steps; ++k) {
        Arr<double> uk(m, 1, false);
        for (size_t j = 0; j < m; ++j) uk[j] = all(k, j);
        VS_EQ(t[k], double(k) * h);
        SAME_VEC(x[k], cur);
        SAME_VEC(y[k], lin(s.c, cur, s.d, uk));
        cur = lin(s.a, cur, s.b, uk);
        SAME_VEC(u[k], uk);
    }
    VS_EQ(t[steps], double(steps) * h);
    SAME_VEC(x[steps], cur);
}
ENTRY(simulate_all)
{
    size_t n = vs_size(1, 2), m = vs_size(1, 2), q = vs_size(1, 2), in = vs_size(0, VS_TIER(3, 5)), k = vs_size(0, 4), hk = vs_size(0, 2);
    double h = hk == 0 ? 1 : hk == 1 ? 0.5 : 0.25;
    run(n, m, q, in, k, h, h * double(k) + h / 4);
}
ENTRY(simulate_exact)
{
    // durations that are exact multiples of the sample time
    size_t in = vs_size(0, 4), k = vs_size(0, 5);
    run(1, 1, 1, in, k, 0.5, 0.5 * double(k));
}
ENTRY(simulate_three)
{
    size_t in = vs_size(2, VS_TIER(4, 8));
    run(3, 1, 1, in, in, 0.5, 0.5 * double(in));
}
ENTRY(simulate_long)
{
    size_t n = vs_size(1, 2), in = vs_size(0, 1) ? 18 : 9, k = vs_size(0, 2);
    run(n, 1, 2, in, in + k - 1, 0.5, 0.5 * double(in + k - 1), true);
}
ENTRY(simulate_time)
{
    // any sample time and any duration
    size_t in = vs_size(0, 3), k = vs_size(0, 3);
    double h = vs_real_in(0.001, 10), frac = vs_real();
    vs_assume(frac >= 0 && frac < 1);
    run(1, 1, 1, in, k, h, h * (double(k) + frac));
}
ENTRY(zeros)
{
    size_t n = vs_size(1, 4), m = vs_size(1, 4), q = vs_size(1, 2);
    Sys s(n, m, q);
    auto d = s.get(0.5);
    StateSpace<double> c(mat(s.a), mat(s.b), mat(s.c), mat(s.d));
    Arr<double> zu(m, 1, false), zx(n, 1, false);
    SAME_VEC(generate_input_zero(d), zu);
    SAME_VEC(generate_state_zero(d), zx);
    SAME_VEC(generate_input_zero(c), zu);
    SAME_VEC(generate_state_zero(c), zx);
    SAME_MAT(c.A, s.a);
    SAME_MAT(c.B, s.b);
    SAME_MAT(c.C, s.c);
    SAME_MAT(c.D, s.d);
    SAME_MAT(d.B, s.b);
    SAME_MAT(d.C, s.c);
    VS_EQ(d.sample_time, 0.5);
    DiscreteStateSpace<double> e;
    VS_EQ(e.sample_time, 0.0);
    VS_IEQ(e.A.size(), 0);
    VS_IEQ(e.D.size(), 0);
}
// states and inputs of another size than the system's are rejected
ENTRY(rejected)
{
    size_t n = vs_size(1, 3), m = vs_size(1, 3), dn = vs_size(0, n + 2), dm = vs_size(0, m + 2), late = vs_size(0, 1);
    vs_assume(dn != n || dm != m);
    Sys s(n, m, 1);
    auto d = s.get(1.0);
    Arr<double> x(1, dn), u(1, dm), good(1, m);
    VS_THROWS(std::exception, simulate_step(d, vec(x), vec(u)));
    std::vector<Vector<double>> in;
    if (late && dn == n) in.push_back(vec(good));
    in.push_back(vec(u));
    VS_THROWS(std::exception, simulate(d, in, 2.0, vec(x)));
}
