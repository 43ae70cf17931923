//B also: sequences of single precision
#include "common.hpp"
namespace u = malg::utility;
ENTRY(types_f)
{
    unsigned n = unsigned(vs_size(0, 6));
    float a = vs_float();
    float b = vs_float();
    vs_assume(!malg::feq::approximately_equal(a, b));
    auto v = typed<float>(u::linspace(a, b, n));
    VS_IEQ(v.size(), n);
    if (n > 1)
        for (unsigned k = 0; k < n; ++k) VS_SAME(v[k], float(a + float(k) * (b - a) / float(n - 1)));
}
