// vs: path_s=60 timeout_ms=20000
//B also, far beyond the other bounds with a few arbitrary elements: 34x4, 3x40, 17x33 and 64x3 stored by columns
// The library as it is when the line that asks for storage by rows is commented out.
#include <malg/matrix_base.hpp>
#undef ROW_MAJOR
#include "common.hpp"
#ifdef ROW_MAJOR
static size_t pos(size_t, size_t c, size_t i, size_t j) { return i * c + j; }
#else
static size_t pos(size_t r, size_t, size_t i, size_t j) { return j * r + i; }
#endif

ENTRY(huge)
{
    static const size_t S[][2] = { { 34, 4 }, { 3, 40 }, { 17, 33 }, { 64, 3 } };
    size_t w = vs_size(0, 3), r = S[w][0], c = S[w][1];
    Arr<double> a = filled<double>(r, c, 4, 3);
    Matrix<double> m = mat(a);
    const auto &k = m;
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            size_t p = pos(r, c, i, j);
            VS_EQ(k(i, j), a(i, j));
            VS_EQ(m[p], a(i, j));
            VS_EQ(k.at(i, j), a(i, j));
            VS_EQ(m.data()[p], a(i, j));
        }
    Matrix<double> copy(m), other(2, 2);
    SAME_MAT(copy, a);
    other = static_cast<const MatrixBase<double> &>(m);
    SAME_MAT(other, a);
    auto v = m(Range{ 1, r }, Range{ 1, c - 1 });
    Matrix<double> x(v);
    VS_IEQ(x.rows(), r - 1);
    VS_IEQ(x.cols(), c - 2);
    for (size_t i = 0; i < r - 1; ++i)
        for (size_t j = 0; j < c - 2; ++j) {
            VS_EQ(x(i, j), a(i + 1, j + 1));
            VS_EQ(v[pos(r - 1, c - 2, i, j)], a(i + 1, j + 1));
        }
    m.resize(r - 1, c + 1);
    for (size_t i = 0; i < r - 1; ++i)
        for (size_t j = 0; j < c + 1; ++j) VS_EQ(m(i, j), (j < c ? a(i, j) : 0.0));
}
