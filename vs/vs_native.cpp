// Native side of the harness interface: reads the inputs of a counterexample.
#include <cmath>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <new>
#include <string>
#include <unistd.h>
#include <vector>
struct In { char k; std::string v; };
static std::vector<In> ins;
static size_t pos;
static int expect = 0;
static long live;
static bool counting, quiet;
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
static void mh(const volatile void *p, size_t) { if (counting && p) ++live; }
static void fh(const volatile void *p) { if (counting && p) --live; }
[[noreturn]] static void end(int c) { counting = false; if (quiet) { fprintf(stderr, "VS-VIOLATED heap blocks leaked\n"); c = 77; } fflush(nullptr); _exit(c); }
// inputs beyond the recorded ones (a path the symbolic executor could not follow to its end)
static unsigned long fillst;
static bool filling(char k, double lo, double hi, std::string &out) {
    if (!fillst || pos < ins.size()) return false;
    fillst = fillst * 6364136223846793005ul + 1442695040888963407ul;
    unsigned long x = fillst >> 33;
    char b[64];
    if (k == 'd') snprintf(b, sizeof b, "%a", double(long(x % 19) - 9) ? double(long(x % 19) - 9) : 5.0);
    else if (k == 'i') { long l = long(std::fmax(lo, -9)), h = long(std::fmin(hi, 9)); if (l > h) l = h = long(lo); snprintf(b, sizeof b, "%ld", l + long(x % (unsigned long)(h - l + 1))); }
    else if (k == 'b') snprintf(b, sizeof b, "%lu", x & 1);
    else { unsigned long l = (unsigned long)lo, h = (unsigned long)std::fmin(hi, lo + 1000); snprintf(b, sizeof b, "%lu", l + x % (h - l + 1)); }
    out = b;
    fprintf(stderr, "VS-INPUT %c %s\n", k, b);
    ins.push_back({k, out});
    ++pos;
    return true;
}
static const std::string &nx(char k) {
    if (pos >= ins.size() || ins[pos].k != k) { fprintf(stderr, "VS: input sequence diverges at %zu (want %c)\n", pos, k); end(99); }
    return ins[pos++].v;
}
extern "C" {
double vs_real() { std::string f; return strtod((filling('d', 0, 0, f) ? f : nx('d')).c_str(), nullptr); }
double vs_real_in(double lo, double hi) { std::string f; return fillst && pos >= ins.size() ? (fprintf(stderr, "VS-INPUT d %a\n", (lo + hi) / 2), ins.push_back({'d', ""}), ++pos, (lo + hi) / 2) : vs_real(); }
int vs_int(int lo, int hi) { std::string f; return atoi((filling('i', lo, hi, f) ? f : nx('i')).c_str()); }
long vs_long(long lo, long hi) { std::string f; return strtol((filling('i', double(lo), double(hi), f) ? f : nx('i')).c_str(), nullptr, 10); }
float vs_float() { return float(vs_real()); }
unsigned long vs_size(unsigned long lo, unsigned long hi) { std::string f; return strtoul((filling('u', lo, hi, f) ? f : nx('u')).c_str(), nullptr, 10); }
unsigned long vs_u64() { std::string f; return strtoul((filling('u', 0, 99, f) ? f : nx('u')).c_str(), nullptr, 10); }
bool vs_bool() { std::string f; return atoi((filling('b', 0, 1, f) ? f : nx('b')).c_str()); }
double vs_fp() { return vs_real(); }
void vs_assume(bool c) { if (!c) { fprintf(stderr, "VS: assumption not met natively\n"); end(98); } }
static void bad(const char *m) { if (quiet) return; fprintf(stderr, "VS-VIOLATED %s\n", m); end(77); }
void vs_check(bool c, const char *m) { if (!c) bad(m); }
void vs_check_eq(double a, double b, const char *m) {
    if (a == b || (std::isnan(a) && std::isnan(b))) return;
    if (!std::isfinite(a) || !std::isfinite(b)) { fprintf(stderr, "%.17g vs %.17g\n", a, b); bad(m); }
    double s = std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b)));
#ifdef VS_EXACT
    (void)s; fprintf(stderr, "%.17g vs %.17g\n", a, b); bad(m);
#else
    static const double tol = getenv("VS_TOL") ? atof(getenv("VS_TOL")) : 1e-7;
    if (!(std::fabs(a - b) <= tol * s)) { fprintf(stderr, "%.17g vs %.17g\n", a, b); bad(m); }
#endif
}
void vs_check_eqf(double a, double b, const char *m) { if (!(std::fabs(a - b) <= 1e-5 * std::fmax(1.0, std::fmax(std::fabs(a), std::fabs(b))))) vs_check_eq(a, b, m); }
void vs_check_eql(long double a, long double b, const char *m)
{
    if (!(std::fabs(a - b) <= 1e-17L * std::fmax(1.0L, std::fmax(std::fabs(a), std::fabs(b))))) vs_check(0, m);
}
void vs_extended(void) {}
void vs_check_ieq(long a, long b, const char *m) { if (a != b) { fprintf(stderr, "%ld vs %ld\n", a, b); bad(m); } }
void vs_reach() {}
void vs_expect_end(bool c) { expect = c ? 2 : 1; }
void vs_dbg(double x) { fprintf(stderr, "dbg %g\n", x); }
}
static std::string squeeze(const std::string &s) {
    std::string r;
    for (char c : s) if (c != ' ' || (!r.empty() && r.back() != ' ' && r.back() != '\n')) r += c;
    return r;
}
extern "C" void vs_text(const std::string &a, const std::string &b, bool exact, const char *m) {
    bool c = counting; counting = false;
    if (exact ? a != b : squeeze(a) != squeeze(b)) { fprintf(stderr, "<%s> vs <%s>\n", a.c_str(), b.c_str()); bad(m); }
    counting = c;
}
static unsigned long failing;
static bool fails() { return counting && failing && --failing == 0; }
extern "C" {
unsigned long vs_fail_alloc(unsigned long n) { unsigned long r = failing; failing = n; return r; }
void *__real_malloc(size_t);
void *__real_calloc(size_t, size_t);
void *__real_realloc(void *, size_t);
void *__real__Znwm(size_t);
void *__real__Znam(size_t);
void *__wrap_malloc(size_t n) { return fails() ? nullptr : __real_malloc(n); }
void *__wrap_calloc(size_t n, size_t m) { return fails() ? nullptr : __real_calloc(n, m); }
void *__wrap_realloc(void *p, size_t n) { return (n || !p) && fails() ? nullptr : __real_realloc(p, n); }
void *__wrap__Znwm(size_t n) { if (fails()) throw std::bad_alloc(); return __real__Znwm(n); }
void *__wrap__Znam(size_t n) { if (fails()) throw std::bad_alloc(); return __real__Znam(n); }
}
static void onsig(int s) {
    if (s == SIGABRT && expect == 2) end(0);
    if (s == SIGALRM) { fprintf(stderr, "VS-VIOLATED no termination within 20 s\n"); end(77); }
    fprintf(stderr, "VS-VIOLATED signal %d\n", s); end(77);
}
static void onexit() { if (expect == 2) end(0); counting = false; fprintf(stderr, "VS-VIOLATED the program called exit\n"); end(77); }
int main(int argc, char **argv) {
    if (argc < 3) return 99;
    std::vector<In> first; // a previous call
    FILE *f = fopen(argv[2], "r");
    char ln[512];
    while (f && fgets(ln, sizeof ln, f)) {
        if (ln[0] == '#' || ln[0] == '\n') continue;
        ln[strcspn(ln, "\n")] = 0;
        if (!strcmp(ln, "--")) { first.swap(ins); continue; }
        ins.push_back({ln[0], std::string(ln + 2)});
    }
    if (f) fclose(f);
    if (getenv("VS_FILL")) fillst = strtoul(getenv("VS_FILL"), nullptr, 10) * 2 + 1;
    auto fn = (void (*)())dlsym(nullptr, argv[1]);
    if (!fn) { fprintf(stderr, "VS: no entry %s\n", argv[1]); return 99; }
    static char obuf[4096];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf); // no allocation on the first output
    signal(SIGABRT, onsig); signal(SIGALRM, onsig); signal(SIGFPE, onsig);
    alarm(20);
    atexit(onexit);
    __sanitizer_install_malloc_and_free_hooks(mh, fh);
    if (!first.empty()) {
        first.swap(ins);
        unsigned long fs = fillst; fillst = 0;
        try { fn(); } catch (...) { fprintf(stderr, "VS: the previous call fails\n"); end(98); }
        fillst = fs;
        first.swap(ins);
        pos = 0;
    }
    counting = true;
    try { fn(); } catch (const std::exception &e) { counting = false; fprintf(stderr, "VS-VIOLATED uncaught exception %s\n", e.what()); end(77); }
    catch (...) { bad("uncaught exception"); }
    long l = live; counting = false;
    if (expect == 2) bad("the program was expected to stop but continued");
    if (l > 0 && !getenv("VS_NOLEAK")) { // memory kept for later calls does not grow with every call
        pos = 0; live = 0; counting = true; quiet = true;
        try { fn(); } catch (...) {}
        l = live; counting = false; quiet = false;
    }
    if (l > 0 && !getenv("VS_NOLEAK")) { fprintf(stderr, "VS-VIOLATED %ld heap blocks leaked\n", l); end(77); }
    end(0);
}
