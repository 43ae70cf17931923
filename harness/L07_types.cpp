//B also: powers of single and extended precision and 64-bit integer matrices up to 2x2, exponents up to 4
#include "common.hpp"
template <typename T>
static void types(T (*one)())
{
    size_t n = vs_size(1, 2), k = vs_size(0, 4);
    Arr<T> a(n, n, false), p(n, n, false);
    for (size_t i = 0; i < n * n; ++i) a[i] = one();
    for (size_t i = 0; i < n; ++i) p(i, i) = T(1);
    for (size_t t = 0; t < k; ++t) {
        Arr<T> q(n, n, false);
        for (size_t i = 0; i < n; ++i)
            for (size_t j = 0; j < n; ++j)
                for (size_t l = 0; l < n; ++l) q(i, j) += p(i, l) * a(l, j);
        p = q;
    }
    const Matrix<T> A = mat(a);
    SAME_MAT(typed<T>(malg::linalg::powm(A, k)), p);
    SAME_MAT(A, a);
}
static long some() { return vs_int(-9000, 9000); }
ENTRY(types_f) { types<float>(vs_any<float>); }
ENTRY(types_ld) { types<ld>(vs_any<ld>); }
ENTRY(types_l) { types<long>(some); }
ENTRY(types_cf) { types<cf>(vs_any<cf>); }
ENTRY(types_factorial)
{
    // 20! is the largest that 64 bits hold
    long f = 1;
    for (long n = 0; n <= 20; ++n) {
        if (n) f *= n;
        VS_IEQ(malg::linalg::factorial(n), f);
        VS_ASSERT(std::is_same_v<decltype(malg::linalg::factorial(n)), long>);
    }
}
