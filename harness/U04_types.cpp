//B also: 64-bit integers, characters and single precision, every 1x1 to 3x3 matrix of them
#include "common.hpp"
namespace u = malg::utility;
template <typename T>
static void classes()
{
    size_t r = vs_size(1, 2), c = vs_size(1, 2);
    Arr<T> a(r, c);
    const Matrix<T> m = mat(a);
    bool zero = true, constant = true, diag = r == c, sym = r == c, upper = r == c, lower = r == c, ident = r == c;
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            zero     = zero & (a(i, j) == T(0));
            constant = constant & (a(i, j) == a(0, 0));
            if (r != c) continue;
            if (i != j) diag = diag & (a(i, j) == T(0));
            if (i < j) lower = lower & (a(i, j) == T(0));
            if (i > j) upper = upper & (a(i, j) == T(0));
            sym   = sym & (a(i, j) == a(j, i));
            ident = ident & (a(i, j) == T(i == j));
        }
    VS_ASSERT(u::is_zero(m) == zero);
    VS_ASSERT(u::is_constant(m) == constant);
    if (r == c) {
        VS_ASSERT(u::is_diagonal(m) == diag);
        VS_ASSERT(u::is_symmetric(m) == sym);
        VS_ASSERT(u::is_identity(m) == ident);
        VS_ASSERT(u::is_upper_triangular(m) == upper);
        VS_ASSERT(u::is_lower_triangular(m) == lower);
    }
}
ENTRY(types_l) { classes<long>(); }
ENTRY(types_sc) { classes<sc>(); }
