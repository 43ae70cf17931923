//B matrices 1..4 x 1..4 with every start/stop pair in 0..6 and the default stop; 7x9 for the row and column operations
//B also: shapes 2x12, 12x2, 10x11 (see the entries named large, larger, long, many, tall)
#include "common.hpp"
namespace u = malg::utility;
static const size_t npos = size_t(-1);
ENTRY(extract)
{
    size_t R = vs_size(1, 3), C = vs_size(1, 3), r0 = vs_size(0, 4), r1 = vs_size(0, 5), c0 = vs_size(0, 4), c1 = vs_size(0, 5);
    if (r1 == 5) r1 = npos;
    if (c1 == 5) c1 = npos;
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    size_t e = r1 < R ? r1 : R, f = c1 < C ? c1 : C;
    if (r0 >= e || c0 >= f) { // selects nothing
        VS_THROWS(std::invalid_argument, u::extract(m, r0, r1, c0, c1));
        return;
    }
    Matrix<double> x = u::extract(m, r0, r1, c0, c1);
    VS_IEQ(x.rows(), e - r0);
    VS_IEQ(x.cols(), f - c0);
    for (size_t i = r0; i < e; ++i)
        for (size_t j = c0; j < f; ++j) VS_EQ(x(i - r0, j - c0), a(i, j));
    SAME_MAT(m, a);
}
ENTRY(line)
{
    size_t R = vs_size(1, 4), C = vs_size(1, 4), k = vs_size(0, 5), s = vs_size(0, 5), e = vs_size(0, 6);
    if (e == 6) e = npos;
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    size_t er = e < R ? e : R, ec = e < C ? e : C;
    if (k >= C || s >= er) {
        VS_THROWS(std::invalid_argument, u::extract_column(m, k, s, e));
    } else {
        Vector<double> v = u::extract_column(m, k, s, e);
        VS_IEQ(v.size(), er - s);
        for (size_t i = s; i < er; ++i) VS_EQ(v[i - s], a(i, k));
    }
    if (k >= R || s >= ec) {
        VS_THROWS(std::invalid_argument, u::extract_row(m, k, s, e));
    } else {
        Vector<double> v = u::extract_row(m, k, s, e);
        VS_IEQ(v.size(), ec - s);
        for (size_t i = s; i < ec; ++i) VS_EQ(v[i - s], a(k, i));
    }
}
ENTRY(defaults)
{
    size_t R = vs_size(1, 4), C = vs_size(1, 4), k = vs_size(0, 3);
    Arr<cd> a(R, C);
    Matrix<cd> m = mat(a);
    Matrix<cd> x = u::extract(m);
    SAME_MAT(x, a);
    if (k < C) {
        Vector<cd> v = u::extract_column(m, k);
        VS_IEQ(v.size(), R);
        for (size_t i = 0; i < R; ++i) VS_CEQ(v[i], a(i, k));
    }
    if (k < R) {
        Vector<cd> v = u::extract_row(m, k);
        VS_IEQ(v.size(), C);
        for (size_t i = 0; i < C; ++i) VS_CEQ(v[i], a(k, i));
    }
}
static void shape(size_t &R, size_t &C)
{
    R = vs_size(1, 5);
    if (R == 5)
        R = 7, C = 9;
    else
        C = vs_size(1, 4);
}
ENTRY(swap)
{
    size_t R, C;
    shape(R, C);
    bool rows = vs_bool();
    size_t n  = rows ? R : C, l = rows ? C : R, i = vs_size(0, n - 1), j = vs_size(0, n - 1), s = vs_size(0, l > 4 ? 2 : l - 1), e = vs_size(s, s + 4);
    if (e == s + 4) e = npos;
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    if (rows)
        u::swap_rows(m, i, j, s, e);
    else
        u::swap_cols(m, i, j, s, e);
    for (size_t k = s; k < l && k < e; ++k) {
        if (rows)
            std::swap(a(i, k), a(j, k));
        else
            std::swap(a(k, i), a(k, j));
    }
    SAME_MAT(m, a);
}
ENTRY(swap_all)
{
    size_t R, C;
    shape(R, C);
    size_t i = vs_size(0, R - 1), j = vs_size(0, R - 1), p = vs_size(0, C - 1), q = vs_size(0, C - 1);
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    u::swap_rows(m, i, j);
    for (size_t k = 0; k < C; ++k) std::swap(a(i, k), a(j, k));
    SAME_MAT(m, a);
    u::swap_cols(m, p, q);
    for (size_t k = 0; k < R; ++k) std::swap(a(k, p), a(k, q));
    SAME_MAT(m, a);
}
ENTRY(remove)
{
    size_t R, C;
    shape(R, C);
    bool rows = vs_bool();
    size_t k  = vs_size(0, (rows ? R : C) + 1);
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    if (k >= (rows ? R : C)) {
        if (rows)
            VS_THROWS(std::invalid_argument, u::remove_row(m, k));
        else
            VS_THROWS(std::invalid_argument, u::remove_column(m, k));
        SAME_MAT(m, a);
        return;
    }
    if (rows)
        u::remove_row(m, k);
    else
        u::remove_column(m, k);
    Arr<double> b(rows ? R - 1 : R, rows ? C : C - 1, false);
    for (size_t i = 0; i < b.r; ++i)
        for (size_t j = 0; j < b.c; ++j) b(i, j) = rows ? a(i + (i >= k), j) : a(i, j + (j >= k));
    SAME_MAT(m, b);
}
ENTRY(larger)
{
    static const size_t S[][2] = { { 2, 12 }, { 12, 2 }, { 10, 11 } };
    size_t w = vs_size(0, 2), R = S[w][0], C = S[w][1], k = vs_size(0, 2), l = vs_size(0, 2);
    size_t r0 = k == 2 ? R - 1 : k, c0 = l == 2 ? C - 1 : l;
    Arr<double> a(R, C);
    Matrix<double> m = mat(a);
    size_t r1 = vs_bool() ? npos : R, c1 = vs_bool() ? npos : C;
    Matrix<double> x = u::extract(m, r0, r1, c0, c1);
    VS_IEQ(x.rows(), R - r0);
    VS_IEQ(x.cols(), C - c0);
    for (size_t i = r0; i < R; ++i)
        for (size_t j = c0; j < C; ++j) VS_EQ(x(i - r0, j - c0), a(i, j));
    Vector<double> v = u::extract_column(m, c0, r0), h = u::extract_row(m, r0, c0);
    VS_IEQ(v.size(), R - r0);
    VS_IEQ(h.size(), C - c0);
    for (size_t i = r0; i < R; ++i) VS_EQ(v[i - r0], a(i, c0));
    for (size_t j = c0; j < C; ++j) VS_EQ(h[j - c0], a(r0, j));
    Matrix<double> y = m, z = m;
    u::remove_row(y, r0);
    u::remove_column(z, c0);
    Arr<double> b(R - 1, C, false), d(R, C - 1, false);
    for (size_t i = 0; i < R; ++i)
        for (size_t j = 0; j < C; ++j) {
            if (i != r0) b(i - (i > r0), j) = a(i, j);
            if (j != c0) d(i, j - (j > c0)) = a(i, j);
        }
    SAME_MAT(y, b);
    SAME_MAT(z, d);
    u::swap_rows(m, r0, R - 1);
    u::swap_cols(m, c0, C - 1);
    for (size_t j = 0; j < C; ++j) std::swap(a(r0, j), a(R - 1, j));
    for (size_t i = 0; i < R; ++i) std::swap(a(i, c0), a(i, C - 1));
    SAME_MAT(m, a);
}
