// vs: path_s=60 timeout_ms=20000
//B shapes 0..3 x 0..3 (thorough 0..4), vectors 0..5; every pair of bounds min <= max (any reals; ints within +-100000), every outcome of every draw; double, int, complex<double> and complex<int>
//B also: shapes up to 9x10 and 1x40, every draw arbitrary (see the entries named large, larger, long, many, tall)
//A the distributions of the standard library return values within the range they are built with (trusted): they are replaced by arbitrary values of that range, and a range that is not ordered is a violation
#include "vs.h"
#include <algorithm>
#include <random>
static const int DRAWS = 128;
static double vs_drawn_real[DRAWS];
static long vs_drawn_int[DRAWS];
static int vs_draws;
namespace std
{
template <typename T>
struct vs_param {
    T lo, hi;
    explicit vs_param(T a, T b) : lo(a), hi(b) {}
    T a() const { return lo; }
    T b() const { return hi; }
};
template <typename T = double>
struct vs_real_distribution {
    using result_type = T;
    using param_type = vs_param<T>;
    T lo, hi;
    explicit vs_real_distribution(T a = 0, T b = 1) : lo(a), hi(b) {}
    explicit vs_real_distribution(const param_type &p) : lo(p.lo), hi(p.hi) {}
    template <typename G>
    T operator()(G &)
    {
        VS_ASSERT(lo <= hi);
        double x = vs_real();
        vs_assume(x >= lo);
        vs_assume(x <= hi);
        vs_drawn_real[vs_draws++] = x;
        return T(x);
    }
    template <typename G>
    T operator()(G &g, const param_type &p)
    {
        lo = p.lo;
        hi = p.hi;
        return (*this)(g);
    }
    void reset() {}
    T a() const { return lo; }
    T b() const { return hi; }
    T min() const { return lo; }
    T max() const { return hi; }
    param_type param() const { return param_type(lo, hi); }
};
template <typename T = int>
struct vs_int_distribution {
    using result_type = T;
    using param_type = vs_param<T>;
    T lo, hi;
    explicit vs_int_distribution(T a = 0, T b = 2000000) : lo(a), hi(b) {}
    explicit vs_int_distribution(const param_type &p) : lo(p.lo), hi(p.hi) {}
    template <typename G>
    T operator()(G &)
    {
        VS_ASSERT(lo <= hi);
        int x = vs_int(-2000000, 2000000);
        vs_assume(x >= lo);
        vs_assume(x <= hi);
        vs_drawn_int[vs_draws++] = x;
        return T(x);
    }
    template <typename G>
    T operator()(G &g, const param_type &p)
    {
        lo = p.lo;
        hi = p.hi;
        return (*this)(g);
    }
    void reset() {}
    T a() const { return lo; }
    T b() const { return hi; }
    T min() const { return lo; }
    T max() const { return hi; }
    param_type param() const { return param_type(lo, hi); }
};
} // namespace std
#define uniform_real_distribution vs_real_distribution
#define uniform_int_distribution vs_int_distribution
#include "common.hpp"
// every draw is used once: whatever the outcomes, the elements add up to them
template <typename R>
static void reals(const R &m, size_t n, double lo, double hi)
{
    double s = 0, t = 0, s2 = 0, t2 = 0;
    for (size_t i = 0; i < n; ++i) {
        VS_ASSERT(m[i] >= lo);
        VS_ASSERT(m[i] <= hi);
        s += m[i];
        s2 += m[i] * m[i];
    }
    VS_IEQ(vs_draws, n);
    for (int i = 0; i < vs_draws; ++i) {
        t += vs_drawn_real[i];
        t2 += vs_drawn_real[i] * vs_drawn_real[i];
    }
    VS_EQ(s, t);
    VS_EQ(s2, t2);
}
template <typename R>
static void ints(const R &m, size_t n, int lo, int hi)
{
    long s = 0, t = 0;
    for (size_t i = 0; i < n; ++i) {
        VS_ASSERT(m[i] >= lo);
        VS_ASSERT(m[i] <= hi);
        s += m[i];
    }
    VS_IEQ(vs_draws, n);
    for (int i = 0; i < vs_draws; ++i) t += vs_drawn_int[i];
    VS_IEQ(s, t);
}
template <typename R>
static void complexes(const R &m, size_t n, double lo, double hi)
{
    double s = 0, t = 0, s2 = 0, t2 = 0;
    for (size_t i = 0; i < n; ++i) {
        for (double x : {m[i].real(), m[i].imag()}) {
            VS_ASSERT(x >= lo);
            VS_ASSERT(x <= hi);
            s += x;
            s2 += x * x;
        }
    }
    VS_IEQ(vs_draws, 2 * n);
    for (int i = 0; i < vs_draws; ++i) {
        t += vs_drawn_real[i];
        t2 += vs_drawn_real[i] * vs_drawn_real[i];
    }
    VS_EQ(s, t);
    VS_EQ(s2, t2);
}
#define BOUNDS double lo = vs_real(), w = vs_real(), hi = lo + w; vs_assume(w >= 0)
#define IBOUNDS int lo = vs_int(-100000, 100000); int w = vs_int(0, 100000); int hi = lo + w
#define SHAPE size_t r = vs_size(0, VS_TIER(3, 4)); size_t c = vs_size(0, VS_TIER(3, 4))
#define IS_SHAPE(m) do { VS_IEQ((m).rows(), r); VS_IEQ((m).cols(), c); VS_IEQ((m).size(), r * c); } while (0)
ENTRY(matrix_real)
{
    BOUNDS;
    SHAPE;
    vs_draws = 0;
    auto m = malg::utility::rand_matrix<double>(r, c, lo, hi);
    IS_SHAPE(m);
    reals(m, r * c, lo, hi);
}
ENTRY(matrix_int)
{
    IBOUNDS;
    SHAPE;
    vs_draws = 0;
    auto m = malg::utility::rand_matrix<int>(r, c, lo, hi);
    IS_SHAPE(m);
    ints(m, r * c, lo, hi);
}
ENTRY(matrix_complex)
{
    BOUNDS;
    SHAPE;
    vs_draws = 0;
    auto m = malg::utility::rand_matrix<cd>(r, c, lo, hi);
    IS_SHAPE(m);
    complexes(m, r * c, lo, hi);
}
// the bounds may be of another type
ENTRY(matrix_mixed)
{
    IBOUNDS;
    SHAPE;
    vs_draws = 0;
    auto m = malg::utility::rand_matrix<double>(r, c, lo, hi);
    IS_SHAPE(m);
    reals(m, r * c, lo, hi);
}
ENTRY(vector_real)
{
    BOUNDS;
    size_t n = vs_size(0, 5);
    vs_draws = 0;
    auto v = malg::utility::rand_vector<double>(n, lo, hi);
    VS_IEQ(v.size(), n);
    reals(v, n, lo, hi);
}
ENTRY(vector_int)
{
    IBOUNDS;
    size_t n = vs_size(0, 5);
    vs_draws = 0;
    auto v = malg::utility::rand_vector<int>(n, lo, hi);
    VS_IEQ(v.size(), n);
    ints(v, n, lo, hi);
}
ENTRY(vector_complex)
{
    BOUNDS;
    size_t n = vs_size(0, 5);
    vs_draws = 0;
    auto v = malg::utility::rand_vector<cd>(n, lo, hi);
    VS_IEQ(v.size(), n);
    complexes(v, n, lo, hi);
}
ENTRY(larger)
{
    static const size_t S[][2] = { { 2, 11 }, { 11, 2 }, { 9, 10 }, { 1, 40 } };
    size_t k = vs_size(0, 3), r = S[k][0], c = S[k][1];
    BOUNDS;
    vs_draws = 0;
    auto m = malg::utility::rand_matrix<double>(r, c, lo, hi);
    IS_SHAPE(m);
    reals(m, r * c, lo, hi);
    vs_draws = 0;
    auto v = malg::utility::rand_vector<double>(r * c, lo, hi);
    VS_IEQ(v.size(), r * c);
    reals(v, r * c, lo, hi);
}
ENTRY(larger_int)
{
    static const size_t S[][2] = { { 2, 11 }, { 11, 2 }, { 9, 10 }, { 1, 40 } };
    size_t k = vs_size(0, 3), r = S[k][0], c = S[k][1];
    IBOUNDS;
    vs_draws = 0;
    auto m = malg::utility::rand_matrix<int>(r, c, lo, hi);
    IS_SHAPE(m);
    ints(m, r * c, lo, hi);
    vs_draws = 0;
    auto v = malg::utility::rand_vector<int>(r * c, lo, hi);
    VS_IEQ(v.size(), r * c);
    ints(v, r * c, lo, hi);
}
ENTRY(larger_complex)
{
    static const size_t S[][2] = { { 2, 11 }, { 11, 2 }, { 7, 7 }, { 1, 40 } };
    size_t k = vs_size(0, 3), r = S[k][0], c = S[k][1];
    BOUNDS;
    vs_draws = 0;
    auto m = malg::utility::rand_matrix<cd>(r, c, lo, hi);
    IS_SHAPE(m);
    complexes(m, r * c, lo, hi);
    vs_draws = 0;
    auto v = malg::utility::rand_vector<cd>(r * c, lo, hi);
    VS_IEQ(v.size(), r * c);
    complexes(v, r * c, lo, hi);
}
