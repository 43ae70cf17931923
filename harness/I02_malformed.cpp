// vs: path_s=60 timeout_ms=20000
//B matrices up to 2x3 and 3x2 (thorough 3x3) and vectors up to 4, cut after any token or with any token replaced by a word, a sign or another type letter; targets of every previous shape up to 2x2; sizes whose storage cannot exist; every element value
//B also: files of up to 132 elements cut or broken at the start, in the middle and at the last element
#include "common.hpp"
#include <malg/io.hpp>
#include <iomanip>
using namespace malg;
static const char *FN = "vs_malformed.txt";
static const char *word(size_t k)
{
    static const char *w[] = {"word", "-", ";", "V", "M", "nan?"};
    return w[k];
}
// the tokens of an object, the one numbered bad replaced, those from cut on missing
struct Writer {
    std::ofstream f;
    size_t n = 0, bad, cut, kind;
    Writer(size_t b, size_t c, size_t k) : f(FN), bad(b), cut(c), kind(k) { f.precision(17); }
    bool skip()
    {
        if (n >= cut) {
            ++n;
            return true;
        }
        if (n == bad) {
            f << word(kind) << " ";
            ++n;
            return true;
        }
        return false;
    }
    template <typename T>
    void put(const T &x)
    {
        if (skip()) return;
        f << x << " ";
        ++n;
    }
};
static const size_t NONE = 1000;
// every element can be read, written and grown
static void usable(Matrix<double> &m)
{
    size_t r = m.rows(), c = m.cols();
    VS_IEQ(m.size(), r * c);
    double x = vs_real();
    for (size_t i = 0; i < r; ++i)
        for (size_t j = 0; j < c; ++j) {
            VS_ASSERT(m(i, j) == m[i * c + j]);
            m(i, j) = x;
        }
    for (size_t i = 0; i < r * c; ++i) VS_EQ(m[i], x);
    m.resize(r + 1, c + 1);
    VS_IEQ(m.size(), (r + 1) * (c + 1));
    m = Matrix<double>(1, 1, x);
    VS_EQ(m(0, 0), x);
}
static void usable(Vector<double> &v)
{
    size_t n = v.size();
    double x = vs_real();
    for (size_t i = 0; i < n; ++i) {
        VS_ASSERT(v[i] == v[i]);
        v[i] = x;
    }
    for (size_t i = 0; i < n; ++i) VS_EQ(v[i], x);
    v.resize(n + 1);
    VS_IEQ(v.size(), n + 1);
    v = Vector<double>(2, x);
    VS_EQ(v[1], x);
}
static void matrix(size_t r, size_t c, size_t bad, size_t cut, size_t kind, size_t pr, size_t pc)
{
    Arr<double> a(r, c), old(pr, pc), by(2, 2);
    {
        Writer w(bad, cut, kind);
        w.put('M');
        w.put(r);
        w.put(c);
        for (size_t i = 0; i < r * c; ++i) w.put(a[i]);
    }
    const Matrix<double> bystander = mat(by);
    Matrix<double> m = mat(old);
    std::ifstream f(FN);
    f >> m;
    size_t first = bad < cut ? bad : cut; // tokens before this one are intact
    if (first < 3 + r * c) {
        if (first == 0) {
            SAME_MAT(m, old);
            VS_ASSERT(f.fail() || !(kind == 4));
        } else {
            VS_ASSERT(f.fail());
        }
        if (first >= 3) {
            VS_IEQ(m.rows(), r);
            VS_IEQ(m.cols(), c);
            for (size_t i = 0; i < first - 3; ++i) VS_EQ(m[i], a[i]);
        }
    } else {
        VS_ASSERT(!f.fail());
        SAME_MAT(m, a);
    }
    usable(m);
    SAME_MAT(bystander, by);
}
ENTRY(matrix_cut)
{
    size_t r = vs_size(1, VS_TIER(2, 3)), c = vs_size(1, 3);
    size_t cut = vs_size(0, 3 + r * c), pr = vs_size(0, 2), pc = vs_size(0, 2);
    matrix(r, c, NONE, cut, 0, pr, pc);
}
ENTRY(matrix_word)
{
    size_t r = vs_size(1, VS_TIER(2, 3)), c = vs_size(1, 2), kind = vs_size(0, 3);
    size_t bad = vs_size(0, 2 + r * c), pr = vs_size(0, 1);
    matrix(r, c, bad, NONE, kind, pr, 2);
}
static void vector(size_t n, size_t bad, size_t cut, size_t kind, size_t p)
{
    Arr<double> a(n, 1), old(p ? 1 : 0, p), by(3, 1);
    {
        Writer w(bad, cut, kind);
        w.put('V');
        w.put(n);
        for (size_t i = 0; i < n; ++i) w.put(a[i]);
    }
    const Vector<double> bystander = vec(by);
    Vector<double> v = vec(old);
    std::ifstream f(FN);
    f >> v;
    size_t first = bad < cut ? bad : cut;
    if (first < 2 + n) {
        if (first == 0) {
            SAME_VEC(v, old);
        } else {
            VS_ASSERT(f.fail());
        }
        if (first >= 2) {
            VS_IEQ(v.size(), n);
            for (size_t i = 0; i < first - 2; ++i) VS_EQ(v[i], a[i]);
        }
    } else {
        VS_ASSERT(!f.fail());
        SAME_VEC(v, a);
    }
    usable(v);
    SAME_VEC(bystander, by);
}
ENTRY(vector_cut)
{
    size_t n = vs_size(1, 4);
    size_t cut = vs_size(0, 2 + n), p = vs_size(0, 3);
    vector(n, NONE, cut, 0, p);
}
ENTRY(vector_word)
{
    size_t n = vs_size(1, 3);
    static const size_t kinds[] = {0, 1, 2, 4};
    size_t bad = vs_size(0, 1 + n), k = vs_size(0, 3), p = vs_size(0, 2);
    vector(n, bad, NONE, kinds[k], p);
}
// another kind of object, an empty file, a file that does not exist: nothing is changed
ENTRY(other)
{
    size_t r = vs_size(0, 2), c = vs_size(0, 2), n = vs_size(0, 2), k = vs_size(0, 3);
    Arr<double> a(r, c), v(n ? 1 : 0, n);
    {
        std::ofstream f(FN);
        f.precision(17);
        if (k == 0) f << vec(v);
        if (k == 1) f << mat(a);
        if (k == 2) f << "   \n";
    }
    std::ifstream f(k == 3 ? "vs_no_such_file.txt" : FN);
    if (k != 1) {
        Matrix<double> m = mat(a);
        f >> m;
        SAME_MAT(m, a);
        VS_ASSERT(k == 0 || f.fail());
        usable(m);
    } else {
        Vector<double> w = vec(v);
        f >> w;
        SAME_VEC(w, v);
        usable(w);
    }
}
// a stream that already failed changes nothing
ENTRY(failed)
{
    Arr<double> a(2, 2), v(1, 3);
    {
        std::ofstream f(FN);
        f << "V word M 1 1 5";
    }
    Matrix<double> m = mat(a);
    Vector<double> w;
    std::ifstream f(FN);
    f >> w;
    VS_ASSERT(f.fail());
    f >> m;
    VS_ASSERT(f.fail());
    SAME_MAT(m, a);
    Vector<double> x = vec(v);
    f >> x;
    SAME_VEC(x, v);
}
// sizes that cannot be stored are refused and change nothing
ENTRY(huge)
{
    static const char *sizes[] = {"M 4294967296 4294967296 1 2 3", "M 9223372036854775807 2 1", "M 3 6148914691236517206 1 2", "M 18446744073709551615 18446744073709551615 1",
                                  "V 18446744073709551615 1 2", "V 2305843009213693952 1", "V 2305843009213693953 1 2"};
    size_t k = vs_size(0, 6);
    {
        std::ofstream f(FN);
        f << sizes[k];
    }
    Arr<double> a(2, 2), v(1, 3);
    std::ifstream f(FN);
    bool refused = false;
    if (k < 4) {
        Matrix<double> m = mat(a);
        try {
            f >> m;
        } catch (const std::exception &) {
            refused = true;
        }
        VS_ASSERT(refused || f.fail());
        SAME_MAT(m, a);
        usable(m);
    } else {
        Vector<double> w = vec(v);
        try {
            f >> w;
        } catch (const std::exception &) {
            refused = true;
        }
        VS_ASSERT(refused || f.fail());
        SAME_VEC(w, v);
        usable(w);
    }
}
// long files, broken near their end
ENTRY(long_matrix)
{
    static const size_t S[][2] = { { 12, 11 }, { 1, 40 }, { 40, 2 } };
    size_t w = vs_size(0, 2), r = S[w][0], c = S[w][1], n = 3 + r * c, at = vs_size(0, 3);
    size_t k = at == 0 ? n - 1 : at == 1 ? n / 2 : at == 2 ? 4 : n;
    if (vs_bool())
        matrix(r, c, NONE, k, 0, 2, 2);
    else
        matrix(r, c, k, NONE, 0, 13, 12);
}
ENTRY(long_vector)
{
    size_t n = vs_bool() ? 130 : 33, at = vs_size(0, 3);
    size_t k = at == 0 ? n + 1 : at == 1 ? n / 2 : at == 2 ? 3 : n + 2;
    if (vs_bool())
        vector(n, NONE, k, 0, 2);
    else
        vector(n, k, NONE, 0, 140);
}
// any first letter but the right one: nothing is read into the object
ENTRY(letters)
{
    size_t k = vs_size(33, 126);
    bool matrix = vs_bool();
    vs_assume(k != (matrix ? size_t('M') : size_t('V')));
    {
        std::ofstream f(FN);
        f << char(k) << (matrix ? " 1 2 5 6" : " 2 5 6");
    }
    Arr<double> a(2, 2), v(1, 3);
    std::ifstream f(FN);
    if (matrix) {
        Matrix<double> m = mat(a);
        f >> m;
        SAME_MAT(m, a);
        usable(m);
    } else {
        Vector<double> w = vec(v);
        f >> w;
        SAME_VEC(w, v);
        usable(w);
    }
}
