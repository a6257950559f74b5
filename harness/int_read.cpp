// C03, C04, C05: text to integers, round trips, overflow detection
#include "vf.h"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <type_traits>
#include <limits>
using namespace c4;
template<class T> using U = typename std::make_unsigned<T>::type;
template<class T, bool S = std::is_signed<T>::value> struct A;
template<class T> struct A<T, true> { static bool f(csubstr s, T *v) { return atoi(s, v); } };
template<class T> struct A<T, false> { static bool f(csubstr s, T *v) { return atou(s, v); } };
static unsigned rdx(unsigned pfx) { return pfx == 'x' || pfx == 'X' ? 16 : pfx == 'o' || pfx == 'O' ? 8 : pfx == 'b' || pfx == 'B' ? 2 : 10; }
static bool isdig(char c, unsigned r) { if(r == 16 && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return true; return c >= '0' && c < (char)('0' + (r > 10 ? 10 : r)); }
static unsigned digval(char c) { return c >= 'a' ? (unsigned)(c - 'a') + 10 : c >= 'A' ? (unsigned)(c - 'A') + 10 : (unsigned)(c - '0'); }
static bool ispfx(char c) { return c == 'x' || c == 'X' || c == 'o' || c == 'O' || c == 'b' || c == 'B'; }

// ---- C03. params: number of characters after sign and prefix, negative, prefix letter (0: none), function
template<class T> static void rd()
{
    size_t n = vf_param(0); bool neg = vf_param(1); unsigned pfx = (unsigned)vf_param(2), fn = (unsigned)vf_param(3), r = rdx(pfx);
    bool bare = fn >= 3; // read_dec/hex/oct/bin: no sign, no prefix
    size_t off = (neg ? 1 : 0) + (pfx && !bare ? 2 : 0), len = off + n;
    char *s = (char*)vf_alloc(len); size_t k = 0;
    if(neg) s[k++] = '-';
    if(pfx && !bare) { s[k++] = '0'; s[k++] = (char)pfx; }
    for( ; k < len; ++k) s[k] = vf_char();
    if(!bare && !pfx) { if(n >= 2) vf_assume(!(s[off] == '0' && ispfx(s[off+1]))); if(!neg && n) vf_assume(s[off] != '+' && s[off] != '-'); }
    bool ok = n >= 1; U<T> val = 0;
    for(size_t i = off; i < len; ++i) { if(!isdig(s[i], r)) ok = false; val = r <= 10 ? (U<T>)(val * r + (U<T>)((long)s[i] - '0')) : (U<T>)(val * r + digval(s[i])); }
    if(neg) val = (U<T>)(U<T>(0) - val);
    T v = (T)0x5a; bool got; csubstr str(s, len);
    if(fn == 0) got = from_chars(str, &v); else if(fn == 1) got = A<T>::f(str, &v); else if(fn == 2) got = atox(str, &v);
    else got = r == 10 ? read_dec(str, &v) : r == 16 ? read_hex(str, &v) : r == 8 ? read_oct(str, &v) : read_bin(str, &v);
    if(neg && !std::is_signed<T>::value) vf_assert(!got, "a minus is rejected for unsigned types");
    else
    {
        vf_assert(got == ok, "succeeds exactly for numerals");
        if(ok) vf_assert((U<T>)v == val, "the value of the numeral");
        vf_cover(ok || n == 0, "numeral");
    }
    vf_cover(true, "end");
}
// ---- C05. params: leading zeros, digits after them (first not zero), negative, prefix letter, function
template<class T> static void ovf()
{
    size_t nz = vf_param(0), n = vf_param(1); bool neg = vf_param(2); unsigned pfx = (unsigned)vf_param(3), fn = (unsigned)vf_param(4), r = rdx(pfx);
    size_t len = (neg ? 1 : 0) + (pfx ? 2 : 0) + nz + n, k = 0;
    char *s = (char*)vf_alloc(len);
    if(neg) s[k++] = '-';
    if(pfx) { s[k++] = '0'; s[k++] = (char)pfx; }
    for(size_t i = 0; i < nz; ++i) s[k++] = '0';
    uint64_t lim = (uint64_t)(U<T>)std::numeric_limits<T>::max() + (neg ? 1u : 0u), val = 0; bool over = false;
    if(neg && !std::is_signed<T>::value) lim = 0;
    for(size_t i = 0; i < n; ++i)
    {
        char c = vf_char(); vf_assume(isdig(c, r)); if(i == 0) vf_assume(c != '0'); s[k++] = c;
        unsigned d = r <= 10 ? (unsigned)(c - '0') : digval(c);
        if(val > lim / r || (val == lim / r && d > lim % r)) over = true;
        if(!over) val = val * r + d;
    }
    csubstr str(s, len);
    if(fn == 0) vf_assert(overflows<T>(str) == over, "overflows exactly when the value is out of range");
    else
    {
        T v = 0; bool ok = fn == 1 ? from_chars(str, fmt::overflow_checked(v)) : [&]{ auto w = fmt::overflow_checked(v); return from_chars(str, &w); }();
        vf_assert(ok == !over, "the checked reader fails exactly on overflow");
        if(ok) vf_assert(v == (T)(neg ? (U<T>)(U<T>(0) - (U<T>)val) : (U<T>)val), "value");
    }
    vf_cover(true, "end");
}
// any string, however short: stays inside the string
template<class T> static void ovfsafe() { size_t n = vf_param(0); char *s = vf_buf(n); bool b = overflows<T>(csubstr(s, n)); (void)b; if(n == 0) vf_assert(!b, "empty string"); vf_cover(true, "end"); }
// ---- C04. params: shift (0: decimal), number of digits, negative, padding
template<class T> static void rt()
{
    unsigned sh = (unsigned)vf_param(0); size_t n = vf_param(1), pad = vf_param(3); bool neg = vf_param(2); U<T> mag; size_t nb = sizeof(T) * 8;
    if(sh == 0)
    {
        uint64_t x = 0; size_t i = n & 1;
        if(i) { x = vf_u8(); vf_assume(x <= 9 && (n == 1 || x)); }
        for( ; i < n; i += 2) { uint8_t a = vf_u8(), b = vf_u8(); vf_assume(a <= 9 && b <= 9 && (i || a)); uint64_t qq = x; x = vf_mk100(qq, a, b); vf_assume(x == (qq * 10 + a) * 10 + b); } // (redundant fact)
        vf_assume(x <= (uint64_t)(U<T>)std::numeric_limits<T>::max() + (neg ? 1u : 0u));
        mag = (U<T>)x; if(neg) vf_assume(mag != 0);
    }
    else
    {
        U<T> bits = (U<T>)(sizeof(T) == 1 ? vf_u8() : sizeof(T) == 2 ? vf_u16() : sizeof(T) == 4 ? vf_u32() : vf_u64());
        vf_assume(neg == ((T)bits < T(0)));
        mag = neg ? (U<T>)(U<T>(0) - bits) : bits;
        vf_assume(n * sh >= nb || (U<T>)(mag >> (n * sh)) == 0); vf_assume(n == 1 || (U<T>)(mag >> ((n - 1) * sh)) != 0);
    }
    T v = neg ? (T)(U<T>(0) - mag) : (T)mag, w = 0;
    size_t L = (neg ? 1 : 0) + (sh ? 2 : 0) + (n > pad ? n : pad); char *b = (char*)vf_alloc(L); substr s(b, L);
    T radix = (T)(sh == 4 ? 16 : sh == 3 ? 8 : sh == 1 ? 2 : 10);
    size_t r = pad ? xtoa(s, v, radix, pad) : sh == 0 ? to_chars(s, v) : xtoa(s, v, radix);
    vf_assert(r == L, "size");
    bool ok = from_chars(csubstr(b, L), &w);
    vf_assert(ok && w == v, "the text reads back as the same value");
    vf_cover(true, "end");
}
#define T8(f, n) extern "C" void n##_i8() { f<int8_t>(); } extern "C" void n##_u8() { f<uint8_t>(); } extern "C" void n##_i16() { f<int16_t>(); } extern "C" void n##_u16() { f<uint16_t>(); } \
    extern "C" void n##_i32() { f<int32_t>(); } extern "C" void n##_u32() { f<uint32_t>(); } extern "C" void n##_i64() { f<int64_t>(); } extern "C" void n##_u64() { f<uint64_t>(); }
T8(rd, h_rd) T8(ovf, h_ovf) T8(ovfsafe, h_osafe) T8(rt, h_rt)
