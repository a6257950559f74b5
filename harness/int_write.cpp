// C01, C02: integers to text
#include "vf.h"
#include <c4/charconv.hpp>
#include <type_traits>
#include <limits>
using namespace c4;
template<class T> using U = typename std::make_unsigned<T>::type;
#define MAXL 80
struct Buf { char *b; char o[MAXL]; size_t L; Buf(size_t l) : b((char*)vf_alloc(l)), L(l) { for(size_t i = 0; i < l; i += 4) { put(i); put(i+1); put(i+2); put(i+3); } } void put(size_t i) { if(i < L) b[i] = o[i] = vf_char(); }
    void same(const char *w) { for(size_t i = 0; i < L; i += 4) { sm(i, w); sm(i+1, w); sm(i+2, w); sm(i+3, w); } } void sm(size_t i, const char *w) { if(i < L) vf_assert(b[i] == o[i], w); } };
template<class T, bool S = std::is_signed<T>::value> struct Rdx;
template<class T> struct Rdx<T, true> { static size_t f(substr b, T v, T r) { return itoa(b, v, r); } static size_t f(substr b, T v, T r, size_t n) { return itoa(b, v, r, n); } static size_t f(substr b, T v) { return itoa(b, v); } };
template<class T> struct Rdx<T, false> { static size_t f(substr b, T v, T r) { return utoa(b, v, r); } static size_t f(substr b, T v, T r, size_t n) { return utoa(b, v, r, n); } static size_t f(substr b, T v) { return utoa(b, v); } };
enum { WR, RDX, XTOA, NMODE };

// ---- radix 16, 8, 2. params: shift, mode, pad (0: unpadded entry point), number of digits, negative, buffer length
template<class T> static void pow2()
{
    unsigned sh = vf_param(0), mode = vf_param(1), pad = vf_param(2); size_t nd = vf_param(3), L = vf_param(5); bool neg = vf_param(4);
    size_t nb = sizeof(T) * 8;
    U<T> bits = (U<T>)(sizeof(T) == 1 ? vf_u8() : sizeof(T) == 2 ? vf_u16() : sizeof(T) == 4 ? vf_u32() : vf_u64());
    T v = (T)bits;
    vf_assume(neg == (v < T(0)));
    U<T> mag = neg ? (U<T>)(U<T>(0) - bits) : bits;
    vf_assume(nd * sh >= nb || (U<T>)(mag >> (nd * sh)) == 0);            // at most nd digits
    vf_assume(nd == 1 || (U<T>)(mag >> ((nd - 1) * sh)) != 0);            // at least nd digits
    Buf buf(L); substr s(buf.b, L);
    T radix = (T)(sh == 4 ? 16 : sh == 3 ? 8 : 2); char pfx = sh == 4 ? 'x' : sh == 3 ? 'o' : 'b';
    size_t r;
    if(mode == WR) { if(pad == 0) r = sh == 4 ? write_hex(s, v) : sh == 3 ? write_oct(s, v) : write_bin(s, v);
                     else r = sh == 4 ? write_hex(s, v, (size_t)pad) : sh == 3 ? write_oct(s, v, (size_t)pad) : write_bin(s, v, (size_t)pad); }
    else if(mode == RDX) r = pad == 0 ? Rdx<T>::f(s, v, radix) : Rdx<T>::f(s, v, radix, (size_t)pad);
    else r = pad == 0 ? xtoa(s, v, radix) : xtoa(s, v, radix, (size_t)pad);
    size_t pre = (neg ? 1 : 0) + (mode == WR ? 0 : 2), wid = nd > pad ? nd : pad, need = pre + wid;
    vf_assert(r == need, "returns the exact number of characters needed");
    if(need > L) buf.same("a buffer that is too small is left alone");
    else for(size_t i = 0; i < L; ++i)
    {
        char x = buf.o[i];
        if(i < need)
        {
            if(neg && i == 0) x = '-';
            else if(i < pre) x = i == pre - 2 ? '0' : pfx;
            else { size_t k = need - 1 - i; unsigned d = k * sh < nb ? (unsigned)((U<T>)(mag >> (k * sh)) & ((1u << sh) - 1)) : 0; x = (char)(d < 10 ? '0' + d : 'a' + (d - 10)); }
        }
        vf_assert(buf.b[i] == x, "sign, prefix and positional digits; nothing after them");
    }
    vf_cover(true, "end");
}
// the number built from k digits, the first not zero, lies in [10^(k-1), 10^k): a redundant fact which spares the solver
// from rediscovering it for each comparison in the code. Proved by h_lemma, which asserts it instead of assuming it.
static const uint64_t p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000, 100000000000, 1000000000000, 10000000000000, 100000000000000, 1000000000000000, 10000000000000000, 100000000000000000, 1000000000000000000, 10000000000000000000u};
static bool islem(uint64_t x, size_t k) { return x >= p10[k-1] && (k == 20 || x < p10[k]); }
static void lemma(uint64_t x, size_t k) { vf_assume(islem(x, k)); }
extern "C" void h_lemma() // one step of the induction: params: digits so far, digits after (2 more)
{
    size_t k = vf_param(0); uint64_t q = vf_u64(); uint8_t a = vf_u8(), b = vf_u8();
    vf_assume(k == 0 ? q == 0 && a != 0 : k == 1 ? q >= 1 && q <= 9 : islem(q, k));
    uint64_t x = vf_mk100(q, a, b);
    vf_assert(islem(x, k + 2), "range of a number of k digits");
    vf_cover(true, "end");
}
// ---- decimal. params: number of digits, mode, pad (0: unpadded entry), extra buffer room, negative
// Values are built from their digits, so the digits are the specification; vf_mk100 records the exact quotients
// (see lib/prelude.h) so that the solver does not have to rediscover Euclidean division.
template<class T> static void dec()
{
    size_t n = vf_param(0); unsigned mode = vf_param(1), pad = vf_param(2); size_t room = vf_param(3);
    uint8_t dg[20]; uint64_t x = 0;
    // (loops take several steps per iteration: the loops of the code under test iterate once per two digits, and
    // the unwinding bound, which multiplies their cost, has to cover these loops as well)
    size_t i = n & 1;
    if(i) { dg[0] = vf_u8(); vf_assume(dg[0] <= 9 && (n == 1 || dg[0] != 0)); x = dg[0]; }
    for( ; i < n; i += 2) { dg[i] = vf_u8(); dg[i+1] = vf_u8(); vf_assume(dg[i] <= 9 && dg[i+1] <= 9 && (i > 0 || dg[0] != 0)); x = vf_mk100(x, dg[i], dg[i+1]); lemma(x, i + 2); }
    bool neg = vf_param(4);
    vf_assume(x <= (uint64_t)(U<T>)std::numeric_limits<T>::max() + (neg ? 1u : 0u));
    if(neg) vf_assume(x != 0);
    T v = neg ? (T)(U<T>(0) - (U<T>)x) : (T)x;
    size_t wid = n > pad ? n : pad, need = wid + (neg ? 1 : 0), L = need + room;
    Buf buf(L); substr s(buf.b, L); size_t r;
    if(mode == WR) r = pad == 0 ? write_dec(s, v) : write_dec(s, v, (size_t)pad);
    else if(mode == RDX) r = pad == 0 ? Rdx<T>::f(s, v, T(10)) : Rdx<T>::f(s, v, T(10), (size_t)pad);
    else if(mode == XTOA) r = pad == 0 ? xtoa(s, v, T(10)) : xtoa(s, v, T(10), (size_t)pad);
    else if(mode == 3) r = Rdx<T>::f(s, v);
    else if(mode == 4) r = to_chars(s, v);
    else r = xtoa(s, v);
    vf_assert(r == need, "returns the exact number of characters needed");
    size_t ng = neg ? 1u : 0u;
    auto chk = [&](size_t j)
    {
        if(j >= L) return;
        char c = buf.o[j];
        if(j < wid + ng) c = ng && j == 0 ? '-' : j < ng + wid - n ? '0' : (char)('0' + dg[j - (ng + wid - n)]);
        vf_assert(buf.b[j] == c, "sign, padding and decimal digits; nothing after them");
    };
    for(size_t j = 0; j < L; j += 4) { chk(j); chk(j+1); chk(j+2); chk(j+3); }
    vf_cover(true, "end");
}
// ---- decimal into a buffer that is too small (or of any fixed size), any value
template<class T> static void dec_small()
{
    size_t L = vf_param(0); unsigned mode = vf_param(1), pad = vf_param(2);
    U<T> bits; { uint64_t x = sizeof(T) == 1 ? vf_u8() : sizeof(T) == 2 ? vf_u16() : sizeof(T) == 4 ? vf_u32() : vf_u64(); bits = (U<T>)x; }
    T v = (T)bits; bool neg = v < T(0); if(mode == WR) vf_assume(!neg);
    uint64_t mag = neg ? (U<T>)(U<T>(0) - bits) : bits;
    size_t nd = 1; auto st = [&](size_t k) { if(mag >= p10[k]) nd = k + 1; };
    st(1); st(2); st(3); st(4); st(5); st(6); st(7); st(8); st(9); st(10); st(11); st(12); st(13); st(14); st(15); st(16); st(17); st(18); st(19);
    size_t need = (nd > pad ? nd : pad) + (neg ? 1 : 0);
    vf_assume(need > L);
    Buf buf(L); substr s(buf.b, L); size_t r;
    if(mode == WR) r = pad == 0 ? write_dec(s, v) : write_dec(s, v, (size_t)pad);
    else if(mode == RDX) r = pad == 0 ? Rdx<T>::f(s, v, T(10)) : Rdx<T>::f(s, v, T(10), (size_t)pad);
    else if(mode == XTOA) r = pad == 0 ? xtoa(s, v, T(10)) : xtoa(s, v, T(10), (size_t)pad);
    else if(mode == 3) r = Rdx<T>::f(s, v);
    else if(mode == 4) r = to_chars(s, v);
    else r = xtoa(s, v);
    vf_assert(r == need, "returns the exact number of characters needed");
    buf.same("a buffer that is too small is left alone");
    vf_cover(true, "end");
}
#define T8(f, n) extern "C" void n##_i8() { f<int8_t>(); } extern "C" void n##_u8() { f<uint8_t>(); } extern "C" void n##_i16() { f<int16_t>(); } extern "C" void n##_u16() { f<uint16_t>(); } \
    extern "C" void n##_i32() { f<int32_t>(); } extern "C" void n##_u32() { f<uint32_t>(); } extern "C" void n##_i64() { f<int64_t>(); } extern "C" void n##_u64() { f<uint64_t>(); }
T8(pow2, h_p2) T8(dec, h_dec) T8(dec_small, h_small)
// pointers are written as the hexadecimal of their address
extern "C" void h_ptr()
{
    size_t L = vf_param(0); uint64_t x = vf_u64(); vf_assume(x < (1ull << 48)); size_t nd = 1; for(size_t k = 1; k < 12; ++k) if(x >> (4 * k)) nd = k + 1;
    Buf buf(L), buf2(L); 
    size_t r = to_chars(substr(buf.b, L), (int*)x);
    size_t r2 = xtoa(substr(buf2.b, L), (int*)x);
    vf_assert(r == nd + 2 && r2 == r, "size of 0x and the hexadecimal digits");
    if(r > L) buf.same("too small: left alone");
    else for(size_t w = 1; w <= 12; ++w) if(w == nd) for(size_t i = 0; i < L; ++i)
    { char c = buf.o[i]; if(i < w + 2) { if(i == 0) c = '0'; else if(i == 1) c = 'x'; else { unsigned d = (unsigned)(x >> (4 * (w + 1 - i))) & 15; c = (char)(d < 10 ? '0' + d : 'a' + d - 10); } } vf_assert(buf.b[i] == c, "hexadecimal address"); if(i < r) vf_assert(buf2.b[i] == c, "xtoa agrees"); }
    vf_cover(true, "end");
}
