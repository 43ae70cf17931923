//B also, far beyond the other bounds with a few arbitrary elements: 3x130, 130x3, 34x35, 70x3, 1x1 resized into each other; 6x70 and 35x12 reshaped
#include "common.hpp"
ENTRY(huge_resize)
{
    static const size_t S[5][2] = { { 3, 130 }, { 130, 3 }, { 34, 35 }, { 70, 3 }, { 1, 1 } };
    size_t k = vs_size(0, 3), t = vs_size(0, 4), r = S[k][0], c = S[k][1], R = S[t][0], C = S[t][1];
    Arr<double> a = filled<double>(r, c, 5, 3);
    Matrix<double> m = mat(a);
    m.resize(R, C);
    VS_IEQ(m.rows(), R);
    VS_IEQ(m.cols(), C);
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C; ++j) VS_EQ(m(i, j), (i < r && j < c ? a(i, j) : 0.0));
}
ENTRY(huge_reshape)
{
    static const size_t S[4][2] = { { 6, 70 }, { 35, 12 }, { 1, 420 }, { 420, 1 } };
    size_t k = vs_size(0, 3), t = vs_size(0, 3);
    Arr<double> a = filled<double>(S[k][0], S[k][1], 5, 3);
    Matrix<double> m = mat(a);
    m.reshape(S[t][0], S[t][1]);
    a.r = S[t][0];
    a.c = S[t][1];
    SAME_MAT(m, a);
    VS_THROWS(std::exception, m.reshape(67, 7));
    SAME_MAT(m, a);
}
