//B every pair of complex/real operands over double and int; exact arithmetic; int operands in -1000..1000
//B also: single and extended precision, 64-bit (to 2^61) and unsigned integers, characters, where they apply
#include "common.hpp"
#include <malg/complex_math.hpp>
// z = x op y, checked on real and imaginary parts; division by  q*y == x
#define OPS(NAME, TX, TY) OPST(NAME, TX, TY, cd)
#define OPST(NAME, TX, TY, TR)                             \
    ENTRY(NAME)                                            \
    {                                                      \
        TX x = vs_any<TX>();                               \
        TY y = vs_any<TY>();                               \
        double xr = std::real(x), xi = std::imag(x), yr = std::real(y), yi = std::imag(y); \
        auto s = ::operator+(x, y);                        \
        auto d = ::operator-(x, y);                        \
        auto m = ::operator*(x, y);                        \
        VS_ASSERT(std::is_same_v<decltype(s), TR>); \
        VS_EQ(s.real(), xr + yr);                          \
        VS_EQ(s.imag(), xi + yi);                          \
        VS_EQ(d.real(), xr - yr);                          \
        VS_EQ(d.imag(), xi - yi);                          \
        VS_EQ(m.real(), xr * yr - xi * yi);                \
        VS_EQ(m.imag(), xr * yi + xi * yr);                \
        vs_assume(!(yr == 0 && yi == 0));                  \
        auto q = ::operator/(x, y);                        \
        VS_ASSERT(std::is_same_v<decltype(q), TR>); \
        double n = yr * yr + yi * yi;                      \
        VS_EQ(q.real() * n, xr * yr + xi * yi);            \
        VS_EQ(q.imag() * n, xi * yr - xr * yi);            \
    }
OPS(cc, cd, cd)
OPS(cr, cd, double)
OPS(rc, double, cd)
OPS(c_int, cd, int)
OPS(int_c, int, cd)
OPS(cf_c, cf, cd)
OPS(c_cf, cd, cf)
OPS(cf_r, cf, double)
OPS(r_cf, double, cf)
OPS(f_c, float, cd)
OPS(c_f, cd, float)
OPS(l_c, long, cd)
OPS(c_u, cd, unsigned)
OPST(cf_int, cf, int, cf)
OPST(int_cf, int, cf, cf)
// as reached through matrices and vectors of mixed types
ENTRY(through_containers)
{
    cd z = vs_any<cd>();
    double x = vs_real();
    Matrix<cd> Z(1, 1, z);
    Matrix<double> X(1, 1, x);
    VS_CEQ((Z + X)[0], cd(z.real() + x, z.imag()));
    VS_CEQ((X + Z)[0], cd(z.real() + x, z.imag()));
    VS_CEQ((Z - X)[0], cd(z.real() - x, z.imag()));
    VS_CEQ((X - Z)[0], cd(x - z.real(), -z.imag()));
    VS_CEQ((Z * X)[0], cd(z.real() * x, z.imag() * x));
    VS_CEQ((X * Z)[0], cd(z.real() * x, z.imag() * x));
    VS_CEQ((X * z)[0], cd(z.real() * x, z.imag() * x));
    VS_CEQ((X + z)[0], cd(z.real() + x, z.imag()));
    VS_CEQ((X - z)[0], cd(x - z.real(), -z.imag()));
}
