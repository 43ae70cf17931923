// vs: path_s=100 timeout_ms=60000 steps=20000000
//B also, far beyond the other bounds with a few arbitrary elements: structured matrices with 17, 20 and 34 rows
#include "common.hpp"
using malg::linalg::determinant;
template <typename T>
static void huge(bool low)
{
    size_t w = vs_size(0, 2), n = w == 0 ? 17 : w == 1 ? 20 : 34, s = vs_size(0, 2);
    if (s == 2) s = n - 1;
    Arr<T> a(n, n, false);
    T d = T(1);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < n; ++j)
            if (low ? j <= i : j >= i) {
                size_t row = (i + s) % n;
                a(row, j) = T(double((i * 3 + j * 5) % 7) - 3);
                if (i == j) {
                    a(row, j) = T(i % 3 == 0 ? -1.0 : i % 3 == 1 ? 2.0 : 0.5);
                    d *= a(row, j);
                }
            }
    size_t p = (n - 1 + s) % n;
    d = d / a(p, n - 1);
    a(p, n - 1) = vs_any<T>();
    d = d * a(p, n - 1);
    if (s % 2 && n % 2 == 0) d = -d;
    VS_SAME(determinant(mat(a)), d);
}
ENTRY(huge_up) { huge<double>(false); }
ENTRY(huge_low) { huge<double>(true); }
ENTRY(huge_singular)
{
    size_t n = vs_bool() ? 34 : 17, i = vs_bool() ? n - 1 : 1;
    Arr<double> a(n, n, false);
    for (size_t k = 0; k < n; ++k) {
        a(k, k) = double(k % 3) + 1;
        a(k, (k + 1) % n) = 1;
    }
    // two equal rows
    for (size_t j = 0; j < n; ++j) a(i, j) = a(0, j);
    VS_EQ(determinant(mat(a)), 0.0);
}
