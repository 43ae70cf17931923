// Harness interface.  The same harness source is executed symbolically (from its
// LLVM IR) and natively (to replay a counterexample).
#pragma once
#include <cstddef>
#include <cstdint>
#include <complex>
#include <stdexcept>
#include <string>
#include <type_traits>
extern "C" {
double vs_real(void);                       // any real number (exact arithmetic)
double vs_real_in(double lo, double hi);
int vs_int(int lo, int hi);                 // symbolic machine integer in [lo,hi]
long vs_long(long lo, long hi);             // symbolic 64-bit integer in [lo,hi]
float vs_float(void);                       // any number of single precision
unsigned long vs_size(unsigned long lo, unsigned long hi); // case split
bool vs_bool(void);
unsigned long vs_u64(void);                 // 64-bit bit-vector
double vs_fp(void);                         // any IEEE-754 binary64
void vs_assume(bool c);
void vs_check(bool c, const char *msg);
void vs_check_eq(double a, double b, const char *msg);
void vs_check_eqf(double a, double b, const char *msg); // single precision values
void vs_check_eql(long double a, long double b, const char *msg);
// from here on, double precision does not hold the values of extended precision
void vs_extended(void);
void vs_check_ieq(long a, long b, const char *msg);
void vs_reach(void);                        // reachability witness
void vs_expect_end(bool c);
void vs_text(const std::string &a, const std::string &b, bool exact, const char *msg); // the same text (not exact: up to runs of spaces)
unsigned long vs_fail_alloc(unsigned long n); // the n-th allocation from now on fails (0: none); returns what was left of the previous count
void vs_dbg(double);
}
#define VS_STR2(x) #x
#define VS_STR(x) VS_STR2(x)
#define VS_ASSERT(...) vs_check((__VA_ARGS__), VS_STR(__LINE__) ": " #__VA_ARGS__)
#define VS_EQ(a, b) vs_check_eq((a), (b), VS_STR(__LINE__) ": " #a " == " #b)
#define VS_LEQ(a, b) vs_check_eql((a), (b), VS_STR(__LINE__) ": " #a " == " #b)
#define VS_IEQ(a, b) vs_check_ieq((long)(a), (long)(b), VS_STR(__LINE__) ": " #a " == " #b)
#define VS_CEQ(a, b) do { auto vs_a_ = (a); auto vs_b_ = (b); VS_EQ(vs_a_.real(), vs_b_.real()); VS_EQ(vs_a_.imag(), vs_b_.imag()); } while (0)
#define VS_TEXT(a, b) vs_text((a), (b), false, VS_STR(__LINE__) ": " #a)
#define VS_TEXT_EXACT(a, b) vs_text((a), (b), true, VS_STR(__LINE__) ": " #a)
// the expression must throw EXC (a standard exception type)
#define VS_THROWS(EXC, ...) do { bool vs_t_ = false; try { __VA_ARGS__; } catch (const EXC &) { vs_t_ = true; } \
    vs_check(vs_t_, VS_STR(__LINE__) ": " #__VA_ARGS__ " must throw " #EXC); } while (0)
#define VS_NOTHROW(...) do { bool vs_t_ = false; try { __VA_ARGS__; } catch (const std::exception &) { vs_t_ = true; } \
    vs_check(!vs_t_, VS_STR(__LINE__) ": " #__VA_ARGS__ " must not throw"); } while (0)
#define ENTRY(name) extern "C" void H_##name(void)
#ifdef VS_THOROUGH
#define VS_TIER(q, t) (t)
#else
#define VS_TIER(q, t) (q)
#endif
template <typename T> inline T vs_any();
template <> inline double vs_any<double>() { return vs_real(); }
template <> inline int vs_any<int>() { return vs_int(-1000, 1000); }
template <> inline float vs_any<float>() { return vs_float(); }
template <> inline long double vs_any<long double>() { return vs_real(); }
template <> inline long vs_any<long>() { return vs_long(-(1L << 61), 1L << 61); }
template <> inline unsigned long vs_any<unsigned long>() { return (unsigned long)vs_long(0, 1L << 61); }
template <> inline long long vs_any<long long>() { return (long long)vs_long(-(1L << 61), 1L << 61); }
template <> inline unsigned long long vs_any<unsigned long long>() { return (unsigned long long)vs_long(0, 1L << 61); }
template <> inline unsigned vs_any<unsigned>() { return unsigned(vs_int(0, 1 << 30)); }
template <> inline short vs_any<short>() { return short(vs_int(-100, 100)); }
template <> inline signed char vs_any<signed char>() { return (signed char)(vs_int(-100, 100)); }
template <> inline unsigned char vs_any<unsigned char>() { return (unsigned char)(vs_int(0, 127)); }
template <> inline std::complex<float> vs_any<std::complex<float>>() { float a = vs_float(); float b = vs_float(); return std::complex<float>(a, b); }
template <> inline std::complex<int> vs_any<std::complex<int>>() { int a = vs_int(-1000, 1000); int b = vs_int(-1000, 1000); return std::complex<int>(a, b); }
template <> inline bool vs_any<bool>() { return vs_bool(); }
template <> inline std::complex<double> vs_any<std::complex<double>>() { double a = vs_real(); double b = vs_real(); return std::complex<double>(a, b); }
inline void vs_same(double a, double b, const char *m) { vs_check_eq(a, b, m); }
inline void vs_same(int a, int b, const char *m) { vs_check_ieq(a, b, m); }
inline void vs_same(bool a, bool b, const char *m) { vs_check_ieq(a, b, m); }
inline void vs_same(unsigned long a, unsigned long b, const char *m) { vs_check_ieq((long)a, (long)b, m); }
inline void vs_same(long a, long b, const char *m) { vs_check_ieq(a, b, m); }
inline void vs_same(long long a, long long b, const char *m) { vs_check_ieq(a, b, m); }
inline void vs_same(unsigned long long a, unsigned long long b, const char *m) { vs_check_ieq((long)a, (long)b, m); }
inline void vs_same(unsigned a, unsigned b, const char *m) { vs_check_ieq(a, b, m); }
inline void vs_same(short a, short b, const char *m) { vs_check_ieq(a, b, m); }
inline void vs_same(signed char a, signed char b, const char *m) { vs_check_ieq(a, b, m); }
inline void vs_same(unsigned char a, unsigned char b, const char *m) { vs_check_ieq(a, b, m); }
inline void vs_same(float a, float b, const char *m) { vs_check_eqf(a, b, m); }
inline void vs_same(long double a, long double b, const char *m) { vs_check_eq(double(a), double(b), m); }
template <typename T>
inline void vs_same(const std::complex<T> &a, const std::complex<T> &b, const char *m) { vs_same(a.real(), b.real(), m); vs_same(a.imag(), b.imag(), m); }
inline void vs_same(const std::complex<double> &a, const std::complex<double> &b, const char *m) { vs_check_eq(a.real(), b.real(), m); vs_check_eq(a.imag(), b.imag(), m); }
// a result of another element type than expected is compared by value
template <typename A, typename B, typename = std::enable_if_t<!std::is_same_v<A, B>>>
inline void vs_same(const A &a, const B &b, const char *m)
{
    if constexpr (std::is_arithmetic_v<A> && std::is_arithmetic_v<B>) vs_check_eq(double(a), double(b), m);
    else vs_same(std::complex<double>(a), std::complex<double>(b), m);
}
#define VS_SAME(a, b) vs_same((a), (b), VS_STR(__LINE__) ": " #a " == " #b)
