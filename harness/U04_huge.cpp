//B also, far beyond the other bounds with a few arbitrary elements: matrices of 20x20 and 34x34 of each class, disturbed at one arbitrary place among the last rows and columns
#include "common.hpp"
namespace u = malg::utility;
ENTRY(huge)
{
    int w    = (int)vs_size(0, 7);
    size_t n = vs_bool() ? 34 : 20;
    Arr<double> a(n, n, false);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j) {
            int s   = i < j ? 1 : i > j ? -1 : 0;
            size_t l = i < j ? i : j, h = i < j ? j : i;
            double x = double(l * 7 + h * 3 + 1);
            switch (w) {
            case 0: break;
            case 1: x = x * s; break;
            case 2: x = s ? 0 : x; break;
            case 3: x = s > 0 ? 0 : x; break;
            case 4: x = s < 0 ? 0 : x; break;
            case 5: x = s ? 0 : 1; break;
            case 6: x = 0; break;
            default: x = 4; break;
            }
            a(i, j) = x;
        }
    static const size_t P[6][2] = { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 1, 0 }, { 0, 1 }, { 2, 17 } };
    size_t p = vs_size(0, 5), r = n - 1 - P[p][1] % n, c = n - 1 - P[p][0] % n;
    if (P[p][0] == 0) c = 0;
    if (P[p][1] == 0) r = 0;
    double x = vs_real(), old = a(r, c);
    a(r, c) = x;
    bool e = x == old;
    if ((w == 0 || w == 2) && r == c) e = w == 0 ? true : true;
    if (w == 3) e = r < c ? x == 0 : true;
    if (w == 4) e = r > c ? x == 0 : true;
    // classes of the harness: 3 keeps the entries on and below the diagonal, 4 those on and above it
    Matrix<double> m = mat(a);
    bool g = false;
    switch (w) {
    case 0: g = u::is_symmetric(m); break;
    case 1: g = u::is_skew_symmetric(m); break;
    case 2: g = u::is_diagonal(m); break;
    case 3: g = u::is_lower_triangular(m); break;
    case 4: g = u::is_upper_triangular(m); break;
    case 5: g = u::is_identity(m); break;
    case 6: g = u::is_zero(m); break;
    default: g = u::is_constant(m); break;
    }
    VS_ASSERT(g == e);
    SAME_MAT(m, a);
}
ENTRY(huge_shape)
{
    bool t = vs_bool();
    size_t n = vs_size(0, 1) ? 40 : 300;
    Matrix<double> m(t ? n : 1, t ? 1 : n), s(n == 40 ? 40 : 2, n == 40 ? 39 : 300);
    VS_ASSERT(u::is_column_vector(m) == t);
    VS_ASSERT(u::is_row_vector(m) == !t);
    VS_ASSERT(!u::is_square(m));
    VS_ASSERT(!u::is_square(s));
    VS_ASSERT(!u::is_column_vector(s));
    VS_ASSERT(!u::is_row_vector(s));
    VS_ASSERT(!u::is_symmetric(s));
    VS_ASSERT(!u::is_identity(s));
    VS_ASSERT(u::is_zero(s));
}
