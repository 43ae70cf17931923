//B also, far beyond the other bounds with a few arbitrary elements: blocks of 40 and 33 rows or columns, vectors of 130 and 67
#include "common.hpp"
namespace u = malg::utility;
ENTRY(huge)
{
    bool t = vs_bool();
    size_t R = t ? 40 : 3, C = t ? 3 : 40;
    Arr<double> a = filled<double>(R, C, 3), b = filled<double>(t ? 33 : 3, t ? 3 : 33, 4);
    Matrix<double> m = mat(a), k = mat(b);
    if (t) {
        auto s = u::vstack(m, k);
        VS_IEQ(s.rows(), 73);
        VS_IEQ(s.cols(), 3);
        for (size_t i = 0; i < 73; ++i)
            for (size_t j = 0; j < 3; ++j) VS_EQ(s(i, j), i < 40 ? a(i, j) : b(i - 40, j));
        VS_THROWS(std::invalid_argument, u::hstack(m, k));
        Vector<double> x = vec(filled<double>(1, 40, 5));
        auto h = u::hstack(m, x);
        VS_IEQ(h.cols(), 4);
        for (size_t i = 0; i < 40; ++i)
            for (size_t j = 0; j < 4; ++j) VS_EQ(h(i, j), j < 3 ? a(i, j) : x[i]);
    } else {
        auto s = u::hstack(m, k);
        VS_IEQ(s.rows(), 3);
        VS_IEQ(s.cols(), 73);
        for (size_t i = 0; i < 3; ++i)
            for (size_t j = 0; j < 73; ++j) VS_EQ(s(i, j), j < 40 ? a(i, j) : b(i, j - 40));
        VS_THROWS(std::invalid_argument, u::vstack(m, k));
        Vector<double> x = vec(filled<double>(1, 40, 5));
        auto h = u::vstack(m, x);
        VS_IEQ(h.rows(), 4);
        for (size_t i = 0; i < 4; ++i)
            for (size_t j = 0; j < 40; ++j) VS_EQ(h(i, j), i < 3 ? a(i, j) : x[j]);
    }
}
ENTRY(huge_concat)
{
    Arr<double> a = filled<double>(1, 130, 3), b = filled<double>(1, 67, 4);
    Vector<double> v = vec(a), w = vec(b);
    auto c = u::concatenate(v, w);
    VS_IEQ(c.size(), 197);
    for (size_t i = 0; i < 197; ++i) VS_EQ(c[i], i < 130 ? a[i] : b[i - 130]);
}
