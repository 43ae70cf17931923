// vs: path_s=100 timeout_ms=20000 steps=40000000
//B also, far beyond the other bounds with a few arbitrary elements: int matrices of 34x4, 3x40 and 100x1, vectors of the same sizes, one element arbitrary
#include "common.hpp"
#include <malg/io.hpp>
#include <iomanip>
#include <sstream>
using namespace malg;
ENTRY(huge)
{
    static const size_t S[][2] = { { 34, 4 }, { 3, 40 }, { 100, 1 } };
    size_t k = vs_size(0, 2), r = S[k][0], c = S[k][1], n = r * c;
    Arr<int> a(r, c, false);
    for (size_t i = 0; i < n; ++i) a[i] = int(i % 10);
    size_t at = vs_bool() ? n - 1 : n / 2;
    a[at] = vs_int(-99999, 99999);
    size_t w = 1;
    {
        std::stringstream one;
        one << a[at];
        w = one.str().length();
    }
    std::stringstream m, v, x, sm, sv, y;
    for (size_t i = 0; i < r; ++i) {
        if (i) m << "\n";
        for (size_t j = 0; j < c; ++j) {
            if (j) m << " ";
            m << std::setw(int(w)) << a(i, j);
        }
    }
    for (size_t i = 0; i < n; ++i) {
        if (i) v << " ";
        v << std::setw(int(w)) << a[i];
    }
    x << "k = [";
    for (size_t i = 0; i < r; ++i) {
        x << "[";
        for (size_t j = 0; j < c; ++j) {
            if (j) x << " ";
            x << a(i, j);
        }
        x << "];";
    }
    x << "]";
    sm << mat(a);
    VS_TEXT_EXACT(sm.str(), m.str());
    sv << vec(a);
    VS_TEXT_EXACT(sv.str(), v.str());
    VS_TEXT_EXACT(to_matlab("k", mat(a)), x.str());
    y << "m = \n" << m.str();
    VS_TEXT_EXACT(dump_matrix("m", mat(a)), y.str());
}
