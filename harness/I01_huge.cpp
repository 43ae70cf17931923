// vs: path_s=100 timeout_ms=20000 steps=40000000
//B also, far beyond the other bounds with a few arbitrary elements: matrices of 34x4, 3x40, 100x1 and 1x101, vectors of 99, 100, 101 and 130
#include "common.hpp"
#include <malg/io.hpp>
using namespace malg;
static const char *FN = "vs_roundtrip_huge.txt";
template <typename T>
static void huge()
{
    static const size_t S[][2] = { { 34, 4 }, { 3, 40 }, { 100, 1 }, { 1, 101 } };
    size_t w = vs_size(0, 3);
    Arr<T> a = filled<T>(S[w][0], S[w][1], 3, 3), old = filled<T>(vs_bool() ? 2 : 40, 4, 1, 0);
    const Matrix<T> m = mat(a);
    {
        std::ofstream f(FN);
        f.precision(17);
        f << m;
    }
    Matrix<T> b = mat(old);
    std::ifstream f(FN);
    f >> b;
    VS_ASSERT(!f.fail());
    SAME_MAT(b, a);
    SAME_MAT(m, a);
}
ENTRY(huge_d) { huge<double>(); }
ENTRY(huge_c) { huge<cd>(); }
ENTRY(huge_v)
{
    static const size_t S[] = { 99, 100, 101, 130 };
    Arr<double> a = filled<double>(1, S[vs_size(0, 3)], 3, 3), old = filled<double>(1, vs_bool() ? 2 : 200, 1, 0);
    const Vector<double> m = vec(a);
    {
        std::ofstream f(FN);
        f.precision(17);
        f << m;
    }
    Vector<double> b = vec(old);
    std::ifstream f(FN);
    f >> b;
    VS_ASSERT(!f.fail());
    SAME_VEC(b, a);
    SAME_VEC(m, a);
}
