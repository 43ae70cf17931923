//B histories of 3 (quick) / 4 (thorough) operations out of 14 kinds on a matrix and a vector, starting shapes 1..2 x 1..2, element values unbounded
//B also: two operations on vectors of up to 140 elements and matrices of up to 24 rows or 40 columns
#include "common.hpp"
// After any history: the contents agree with the model, no out-of-bounds or released storage was touched, nothing leaked.
using malg::utility::hstack;
using malg::utility::vstack;
static Arr<double> sub(const Arr<double> &a, size_t r0, size_t r1, size_t c0, size_t c1)
{
    Arr<double> o(r1 - r0, c1 - c0, false);
    for (size_t i = r0; i < r1; ++i)
        for (size_t j = c0; j < c1; ++j) o(i - r0, j - c0) = a(i, j);
    return o;
}
ENTRY(history)
{
    size_t ar = vs_size(1, 2), ac = vs_size(1, 2);
    Arr<double> a(ar, ac), x(1, 2);
    Matrix<double> m = mat(a), keep;
    Arr<double> kept(0, 0);
    Vector<double> v = vec(x);
    for (int s = 0; s < VS_TIER(3, 4); ++s) {
        switch (vs_size(0, 13)) {
        case 0: { // grow rows
            m.resize(a.r + 1, a.c);
            Arr<double> t(a.r + 1, a.c, false);
            for (size_t i = 0; i < a.r; ++i)
                for (size_t j = 0; j < a.c; ++j) t(i, j) = a(i, j);
            a = t;
            break;
        }
        case 1: { // grow columns
            m.resize(a.r, a.c + 1);
            Arr<double> t(a.r, a.c + 1, false);
            for (size_t i = 0; i < a.r; ++i)
                for (size_t j = 0; j < a.c; ++j) t(i, j) = a(i, j);
            a = t;
            break;
        }
        case 2:
            if (a.r > 1) {
                malg::utility::remove_row(m, 0);
                a = sub(a, 1, a.r, 0, a.c);
            }
            break;
        case 3:
            if (a.c > 1) {
                malg::utility::remove_column(m, a.c - 1);
                a = sub(a, 0, a.r, 0, a.c - 1);
            }
            break;
        case 4: // replaced by a part of itself
            m = m(Range{ a.r / 2, a.r }, Range{ 0, (a.c + 1) / 2 });
            a = sub(a, a.r / 2, a.r, 0, (a.c + 1) / 2);
            break;
        case 5: { // stacked onto itself
            if (a.r * a.c > 12) break;
            m = vstack(m, m);
            Arr<double> t(2 * a.r, a.c, false);
            for (size_t i = 0; i < t.r; ++i)
                for (size_t j = 0; j < t.c; ++j) t(i, j) = a(i % a.r, j);
            a = t;
            break;
        }
        case 6: { // transposed
            m = malg::linalg::transpose(m);
            Arr<double> t(a.c, a.r, false);
            for (size_t i = 0; i < t.r; ++i)
                for (size_t j = 0; j < t.c; ++j) t(i, j) = a(j, i);
            a = t;
            break;
        }
        case 7: keep = m; kept = a; break;
        case 8:
            if (kept.r) {
                m = std::move(keep);
                a = kept;
                keep = Matrix<double>();
                kept = Arr<double>(0, 0);
            }
            break;
        case 9: m += m; for (size_t i = 0; i < a.r * a.c; ++i) a[i] = a[i] + a[i]; break;
        case 10: { // a write through a view
            double y = vs_real();
            m(Range{ a.r - 1, a.r }, Range::all())(0, a.c - 1) = y;
            a(a.r - 1, a.c - 1) = y;
            break;
        }
        case 11: // row swap
            malg::utility::swap_rows(m, 0, a.r - 1);
            for (size_t j = 0; j < a.c; ++j) std::swap(a(0, j), a.d[(a.r - 1) * a.c + j]);
            break;
        case 12: // flattened
            m = malg::utility::to_matrix(malg::utility::ravel(m), true);
            a.c = a.r * a.c;
            a.r = 1;
            break;
        case 13: // vector life
            v = malg::utility::concatenate(v, malg::utility::diag(m));
            {
                size_t n = a.r < a.c ? a.r : a.c;
                Arr<double> t(1, x.c + n, false);
                for (size_t i = 0; i < x.c; ++i) t[i] = x[i];
                for (size_t i = 0; i < n; ++i) t[x.c + i] = a(i, i);
                x = t;
            }
            break;
        }
    }
    SAME_MAT(m, a);
    SAME_MAT(keep, kept);
    SAME_VEC(v, x);
}
// a failed operation leaves its operands alone and releases what it took
ENTRY(failures)
{
    Arr<double> a(2, 3), b(3, 3), x(1, 2);
    Matrix<double> m = mat(a), k = mat(b);
    Vector<double> v = vec(x);
    size_t op        = vs_size(0, 7);
    try {
        switch (op) {
        case 0: m = m + k; break;
        case 1: m -= k; break;
        case 2: m = k * m; break;
        case 3: m = vstack(m, malg::linalg::transpose(m)); break;
        case 4: m = hstack(m, k); break;
        case 5: malg::utility::remove_row(m, 2); break;
        case 6: malg::utility::remove_column(m, 3); break;
        case 7: m.reshape(2, 2); break;
        }
        vs_check(false, "a shape error must be reported");
    } catch (const std::invalid_argument &) {
    }
    SAME_MAT(m, a);
    SAME_MAT(k, b);
    SAME_VEC(v, x);
}
// two steps over objects of quite different sizes
ENTRY(larger)
{
    static const size_t N[5] = { 0, 3, 9, 20, 70 };
    size_t n = N[vs_size(1, 4)];
    Vector<double> v(n), w(5);
    Arr<double> x(1, n, false), y(1, 5, false);
    for (size_t i = 0; i < 5; ++i) w[i] = y[i] = vs_real();
    size_t p = vs_size(0, 2), q = p == 0 ? 0 : p == 1 ? n / 2 : n - 1;
    v[q] = x[q] = vs_real();
    for (int s = 0; s < 2; ++s) {
        size_t op = vs_size(0, 8);
        if (op < 5) {
            v.resize(N[op]);
            Arr<double> t(1, N[op], false);
            for (size_t i = 0; i < N[op] && i < x.c; ++i) t[i] = x[i];
            x = t;
        }
        if (op == 5) {
            v = w;
            x = y;
        }
        if (op == 6) {
            w = v;
            y = x;
        }
        if (op == 7) {
            w = std::move(v);
            y = x;
            v = Vector<double>(3, 1.0);
            x = Arr<double>(1, 3, false);
            x[0] = x[1] = x[2] = 1;
        }
        if (op == 8) {
            v = malg::utility::concatenate(v, w);
            Arr<double> t(1, x.c + y.c, false);
            for (size_t i = 0; i < x.c; ++i) t[i] = x[i];
            for (size_t i = 0; i < y.c; ++i) t[x.c + i] = y[i];
            x = t;
        }
    }
    SAME_VEC(v, x);
    SAME_VEC(w, y);
    // every element of both can be written
    for (size_t i = 0; i < v.size(); ++i) v[i] = 1;
    for (size_t i = 0; i < w.size(); ++i) w[i] = 2;
}
ENTRY(larger_matrix)
{
    static const size_t S[4][2] = { { 1, 20 }, { 6, 7 }, { 12, 2 }, { 3, 3 } };
    size_t k = vs_size(0, 3), r = S[k][0], c = S[k][1];
    Arr<double> a(r, c, false);
    a(r - 1, c - 1) = vs_real();
    a(0, c - 1)     = vs_real();
    Matrix<double> m = mat(a), t(2, 2);
    for (int s = 0; s < 2; ++s) {
        size_t op = vs_size(0, 8), R = a.r, C = a.c;
        if (op < 4) R = S[op][0], C = S[op][1], m.resize(R, C);
        if (op == 4) R = 2 * a.r, m = vstack(m, m);
        if (op == 5) C = 2 * a.c, m = hstack(m, m);
        if (op == 6) t = m;
        if (op == 7) t = std::move(m), m = t;
        if (op == 8 && a.r > 1) R = a.r - 1, malg::utility::remove_row(m, 0);
        Arr<double> o(R, C, false);
        for (size_t i = 0; i < R; ++i)
            for (size_t j = 0; j < C; ++j) {
                size_t p = op == 8 && a.r > 1 ? i + 1 : op == 4 ? i % a.r : i, q = op == 5 ? j % a.c : j;
                o(i, j) = p < a.r && q < a.c ? a(p, q) : 0.0;
            }
        a = o;
        if (op == 6 || op == 7) SAME_MAT(t, a);
    }
    SAME_MAT(m, a);
    for (size_t i = 0; i < m.size(); ++i) m[i] = 1;
}
