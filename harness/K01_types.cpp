//B also: single precision and complex systems of 1..2 states with 1..2 inputs and outputs
#include "common.hpp"
using namespace malg::control;
template <typename T>
static void types()
{
    size_t n = vs_size(1, 2), m = vs_size(1, 2);
    Arr<T> a(n, n), b(n, m), c(m, n);
    const Matrix<T> A = mat(a), B = mat(b), C = mat(c);
    auto R = typed<T>(ctrb(A, B)), O = typed<T>(obsv(A, C));
    VS_IEQ(R.rows(), n);
    VS_IEQ(R.cols(), n * m);
    VS_IEQ(O.rows(), n * m);
    VS_IEQ(O.cols(), n);
    for (size_t i = 0; i < n; ++i)
        for (size_t j = 0; j < m; ++j) {
            VS_SAME(R(i, j), b(i, j));
            VS_SAME(O(j, i), c(j, i));
            if (n == 1) continue;
            T s = T(0), t = T(0);
            for (size_t k = 0; k < n; ++k) {
                s += a(i, k) * b(k, j);
                t += c(j, k) * a(k, i);
            }
            VS_SAME(R(i, m + j), s);
            VS_SAME(O(m + j, i), t);
        }
}
ENTRY(types_f) { types<float>(); }
ENTRY(types_c) { types<cd>(); }
ENTRY(types_ld) { types<ld>(); }
