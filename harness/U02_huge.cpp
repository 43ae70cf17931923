//B also, far beyond the other bounds with a few arbitrary elements: matrices of 70x3, 3x70 and 36x36
#include "common.hpp"
namespace u = malg::utility;
ENTRY(huge)
{
    size_t w = vs_size(0, 2), R = w == 0 ? 70 : w == 1 ? 3 : 36, C = w == 0 ? 3 : w == 1 ? 70 : 36;
    Arr<double> a = filled<double>(R, C, 6, 3);
    Matrix<double> m = mat(a);
    size_t r0 = R / 3, c0 = C / 3;
    Matrix<double> x = u::extract(m, r0, R - 1, c0, C + 5);
    VS_IEQ(x.rows(), R - 1 - r0);
    VS_IEQ(x.cols(), C - c0);
    for (size_t i = r0; i < R - 1; ++i)
        for (size_t j = c0; j < C; ++j) VS_EQ(x(i - r0, j - c0), a(i, j));
    Vector<double> p = u::extract_row(m, R - 1), q = u::extract_column(m, C - 1);
    VS_IEQ(p.size(), C);
    VS_IEQ(q.size(), R);
    for (size_t j = 0; j < C; ++j) VS_EQ(p[j], a(R - 1, j));
    for (size_t i = 0; i < R; ++i) VS_EQ(q[i], a(i, C - 1));
    SAME_MAT(m, a);
    u::swap_rows(m, 1, R - 1);
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C; ++j) VS_EQ(m(i, j), a(i == 1 ? R - 1 : i == R - 1 ? 1 : i, j));
    u::swap_rows(m, 1, R - 1);
    u::swap_cols(m, C - 1, 1);
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C; ++j) VS_EQ(m(i, j), a(i, j == 1 ? C - 1 : j == C - 1 ? 1 : j));
    u::swap_cols(m, 1, C - 1);
    u::swap_rows(m, 0, R - 1, 1, C - 1);
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C; ++j)
            VS_EQ(m(i, j), a(j == 0 || j == C - 1 ? i : i == 0 ? R - 1 : i == R - 1 ? 0 : i, j));
}
ENTRY(huge_remove)
{
    bool t = vs_bool();
    size_t R = t ? 70 : 3, C = t ? 3 : 70, k = vs_size(0, 1) ? R - 1 : R / 2, l = vs_size(0, 1) ? C - 1 : C / 2;
    Arr<double> a = filled<double>(R, C, 7, 3);
    Matrix<double> m = mat(a), n = mat(a);
    u::remove_row(m, k);
    VS_IEQ(m.rows(), R - 1);
    for (size_t i = 0; i < R - 1; ++i)
        for (size_t j = 0; j < C; ++j) VS_EQ(m(i, j), a(i < k ? i : i + 1, j));
    u::remove_column(n, l);
    VS_IEQ(n.cols(), C - 1);
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C - 1; ++j) VS_EQ(n(i, j), a(i, j < l ? j : j + 1));
}
