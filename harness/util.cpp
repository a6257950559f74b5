// C31, C33: memory and bit utilities, size conversions, hashing
#include "vf.h"
#include <c4/types.hpp>
#include <c4/memory_util.cpp>
#include <c4/szconv.hpp>
#include <c4/hash.hpp>
#include <c4/blob.hpp>
using namespace c4;
#define ITY(f) f(u8, uint8_t) f(i8, int8_t) f(u16, uint16_t) f(i16, int16_t) f(u32, uint32_t) f(i32, int32_t) f(u64, uint64_t) f(i64, int64_t)
#define UTY(f) f(u8, uint8_t) f(u16, uint16_t) f(u32, uint32_t) f(u64, uint64_t)
// most and least significant bit
template<class I> static void bits()
{
    I v = (I)vf_u64(); vf_assume(v != 0); unsigned m = msb(v), l = lsb(v);
    vf_assert(m < 8 * sizeof(I) && (uint64_t(v) >> m) == 1, "msb: the highest bit set"); vf_assert(l < 8 * sizeof(I) && ((uint64_t(v) >> l) & 1) && (uint64_t(v) & ((uint64_t(1) << l) - 1)) == 0, "lsb: the lowest bit set");
    vf_cover(m == 8 * sizeof(I) - 1 && l == 0, "both ends"); vf_cover(m == l, "one bit");
}
#define B(n, t) extern "C" void h_bits_##n() { bits<t>(); }
UTY(B)
// masks. params: first
template<class I> static void mask()
{
    enum { N = 8 * sizeof(I) }; I a = (I)vf_param(0); unsigned bb = vf_u8(); vf_assume(bb <= N); I b = (I)bb; I m = contiguous_mask<I>(a, b);
    unsigned k = vf_u8(); vf_assume(k < N);
    vf_assert((((uint64_t)m >> k) & 1) == (k >= (unsigned)a && k < bb), "exactly the bits of the interval are set"); vf_cover(bb == N, "end"); vf_cover(bb == 0, "empty");
}
#define M(n, t) extern "C" void h_mask_##n() { mask<t>(); }
ITY(M)
// powers, modulo the width. params: exponent (biased by 16), with the base symbolic
template<class Bs> static uint64_t rpow(uint64_t b, unsigned e) { uint64_t r = 1; for(unsigned i = 0; i < e; ++i) r = (uint64_t)(Bs)(r * b); return r; }
template<class Bs, class E> static void pw()
{
    int e = (int)vf_param(0) - 16; if(!std::is_signed<E>::value && e < 0) return; Bs b = (Bs)vf_u64(); 
    // stay in range: the products of a signed type must not overflow
    int64_t lim = sizeof(Bs) == 1 ? 127 : sizeof(Bs) == 2 ? 32767 : INT32_MAX, p = 1;
    if(std::is_signed<Bs>::value || sizeof(Bs) < 4) { vf_assume((int64_t)b <= (e > 2 ? 9 : 100) && (int64_t)b >= -9); for(int i = 0; i < e; ++i) { p *= (int64_t)b; vf_assume(p <= lim && p >= -lim); } }
    else vf_assume(e < 2 || b <= (e == 2 ? 255 : 31));
    if(e >= 0) vf_assert(ipow(b, (E)e) == (Bs)rpow<Bs>((uint64_t)b, (unsigned)e), "power");
    else { vf_assume(b != 0 && b != (Bs)-1); vf_assert(ipow(b, (E)e) == (b == 1 ? 1 : 0), "negative power: the integer part of 1/b^e"); }
    vf_cover(b == 2, "two"); vf_cover(b == 0 || e < 0, "zero");
}
#define P(n, t) extern "C" void h_pow_##n() { pw<t, int>(); pw<t, uint8_t>(); }
ITY(P)
// all exponents, constant bases
template<class E> static void pwc()
{
    E e = (E)vf_u64(); vf_assume(e >= 0 && e <= 15); uint64_t t = 1, h = 1; for(unsigned i = 0; i < 15; ++i) if(i < (unsigned)e) { t *= 10; h *= 3; }
    vf_assert((ipow<uint64_t, 10>(e) == t), "10^e"); vf_assert((ipow<int32_t, 3>(e) == (int32_t)h), "3^e"); vf_assert((ipow<uint32_t, int, 2>(e) == (1u << (unsigned)e)), "2^e"); vf_assert((ipow<uint64_t, uint8_t, 10>(e) == t), "10^e in another type");
    if(std::is_signed<E>::value) { E m = (E)(E(0) - e); vf_assert((ipow<uint32_t, 2>(m) == (e == 0)), "2^-e"); vf_assert((ipow<int64_t, int, 5>(m) == (e == 0)), "5^-e"); vf_assert(ipow(uint64_t(7), m) == (e == 0), "7^-e"); }
    vf_cover(e == 15, "15"); vf_cover(e == 0, "0");
}
#define PC(n, t) extern "C" void h_powc_##n() { pwc<t>(); }
ITY(PC)
// overlap and alignment
extern "C" void h_overlap()
{
    enum { N = 32 }; static char mem[N]; size_t a = vf_upto(N), n = vf_upto(N), b = vf_upto(N), m = vf_upto(N); vf_assume(a + n <= N && b + m <= N && n && m);
    size_t k = vf_upto(N); bool both = k >= a && k < a + n && k >= b && k < b + m, ov = mem_overlaps(mem + a, mem + b, n, m);
    vf_assert(ov == mem_overlaps(mem + b, mem + a, m, n), "overlap is symmetric"); if(both) vf_assert(ov, "a common byte is an overlap"); size_t hi = a > b ? a : b; if(ov) vf_assert(hi < a + n && hi < b + m, "an overlap has a common byte");
    if(a + n <= b || b + m <= a) vf_assert(!ov, "disjoint"); vf_assert(!mem_overlaps(mem + a, mem + a + n, n, m), "adjacent");
    vf_cover(ov, "ov"); vf_cover(!ov, "no"); vf_cover(a + n == b, "adjacent");
}
extern "C" void h_aligned()
{
    uintptr_t p = vf_u64(); unsigned s = vf_u8(); vf_assume(s < 13); uintptr_t al = uintptr_t(1) << s; vf_assert(is_aligned((char*)p, al) == (p % al == 0), "is_aligned"); vf_assert(is_aligned((int*)p) == (p % 4 == 0) && is_aligned((double*)p) == (p % 8 == 0) && is_aligned((char*)p), "natural alignment"); vf_cover(p % al == 0 && s == 12, "yes"); vf_cover(p % al != 0, "no");
}
// params: pattern size, times
extern "C" void h_repeat()
{
    size_t n = vf_param(0), t = vf_param(1); char *p = vf_buf(n), *d = vf_buf(n * t + 2); char g0 = d[0], g1 = d[n * t + 1]; char *o = (char*)vf_alloc(n ? n : 1); for(size_t i = 0; i < n; ++i) o[i] = p[i];
    mem_repeat(d + 1, p, n, t);
    for(size_t i = 0, j = 0; i < n * t; ++i) { vf_assert(d[1 + i] == o[j], "the pattern, again and again"); if(++j == n) j = 0; }
    for(size_t i = 0; i < n; ++i) vf_assert(p[i] == o[i], "the pattern is unchanged"); vf_assert(d[0] == g0 && d[n * t + 1] == g1, "nothing outside is written"); vf_cover(true, "end");
}
// params: count
extern "C" void h_zero()
{
    size_t n = vf_param(0); char *d = vf_buf(4 * n + 8); char *o = (char*)vf_alloc(4 * n + 8); for(size_t i = 0; i < 4 * n + 8; ++i) o[i] = d[i];
    unsigned f = vf_u8(); size_t z = 0; if(f == 0) mem_zero((void*)(d + 4), z = n); else if(f == 1) { mem_zero((int32_t*)(d + 4), n); z = 4 * n; } else if(f == 2) { mem_zero((int32_t*)(d + 4)); z = 4; } else { mem_zero((int16_t*)(d + 4), n); z = 2 * n; }
    for(size_t i = 0; i < 4 * n + 8; ++i) vf_assert(d[i] == (i >= 4 && i < 4 + z ? 0 : o[i]), "exactly the given memory is zeroed"); vf_cover(f == 0, "0"); vf_cover(f == 1, "1");
}
// pairs of possibly empty types
struct E0 {}; struct E1 {}; struct S2 { int a; };
template<class A, class Bb> static void tp(A const& a, Bb const& b) { tight_pair<A, Bb> p(a, b); tight_pair<A, Bb> q(p), r; r = q; A const& ra = r.first(); Bb const& rb = r.second(); vf_assert(sizeof(A) == 1 || memcmp(&ra, &a, sizeof(A)) == 0, "first"); vf_assert(sizeof(Bb) == 1 || memcmp(&rb, &b, sizeof(Bb)) == 0, "second"); }
extern "C" void h_pair()
{
    int a = (int)vf_u32(), b = (int)vf_u32(); S2 s{a}, u{b}; tp(a, (short)b); tp(E0(), b); tp(a, E0()); tp(E0(), E1()); tp(s, u); tp(E0(), E0()); tight_pair<S2, S2> p(s, u); p.first().a = b; vf_assert(p.second().a == b && p.first().a == b, "independent"); p.second().a = a; vf_assert(p.first().a == b, "independent");
    vf_cover(true, "end");
}
// blobs see exactly the object's bytes
extern "C" void h_blob()
{
    static int32_t arr[3]; int32_t x; blob b(x); vf_assert(b.buf == (byte*)&x && b.len == 4, "object"); size_t n = vf_upto(3); blob c(arr, n); vf_assert(c.buf == (byte*)arr && c.len == 4 * n, "array and count"); blob d(arr); vf_assert(d.buf == (byte*)arr && d.len == 12, "array");
    cblob e(b); vf_assert(e.buf == (cbyte*)&x && e.len == 4, "const view"); e = c; vf_assert(e.buf == (cbyte*)arr && e.len == 4 * n, "assignment to a const view"); cblob g; g = std::move(d); vf_assert(g.buf == (cbyte*)arr && g.len == 12, "move assignment to a const view");
    cblob f((void const*)arr, n); vf_assert(f.buf == (cbyte*)arr && f.len == n, "pointer and bytes"); b = arr; vf_assert(b.buf == (byte*)arr && b.len == 12, "assign array"); b = x; vf_assert(b.buf == (byte*)&x && b.len == 4, "assign object");
    vf_cover(true, "end");
}
// ---- C33
template<class O, class I> static void conv1(I v)
{
    __int128 w = (__int128)v, lo = (__int128)std::numeric_limits<O>::min(), hi = (__int128)std::numeric_limits<O>::max(); bool narrow = is_narrower_size<O, I>::value;
    vf_assert(narrow == ((__int128)std::numeric_limits<I>::max() > hi), "narrower: its largest value does not fit");
    if(w >= 0 || !narrow) { O r = szconv<O>(v); if(w >= 0 || w >= lo) vf_assert((__int128)r == w, "the same value, or an error"); }
    else { szconv<O>(v); vf_assert(false, "a negative size is refused by narrowing conversions"); }
}
template<class I> static void conv()
{
    I v = (I)vf_u64(); 
    switch(vf_param(0)) { case 0: conv1<uint8_t>(v); break; case 1: conv1<int8_t>(v); break; case 2: conv1<uint16_t>(v); break; case 3: conv1<int16_t>(v); break; case 4: conv1<uint32_t>(v); break; case 5: conv1<int32_t>(v); break; case 6: conv1<uint64_t>(v); break; default: conv1<int64_t>(v); }
    vf_cover(v > 0, "positive"); vf_cover(v == 0, "zero");
}
#define C(n, t) extern "C" void h_conv_##n() { conv<t>(); }
ITY(C)
// and no error is raised on what fits
template<class O, class I> static void fit1(I v) { vf_assume(v >= 0 && (uint64_t)v <= (uint64_t)std::numeric_limits<O>::max()); O r = szconv<O>(v); vf_assert((uint64_t)r == (uint64_t)v, "same"); }
template<class I> static void fit()
{
    I v = (I)vf_u64(); 
    switch(vf_param(0)) { case 0: fit1<uint8_t>(v); break; case 1: fit1<int8_t>(v); break; case 2: fit1<uint16_t>(v); break; case 3: fit1<int16_t>(v); break; case 4: fit1<uint32_t>(v); break; case 5: fit1<int32_t>(v); break; case 6: fit1<uint64_t>(v); break; default: fit1<int64_t>(v); }
    vf_cover(v > 100, "positive"); vf_cover(v == 0, "zero");
}
#define F(n, t) extern "C" void h_fit_##n() { fit<t>(); }
ITY(F)
template<class H, class T> static T fnv(char const* p, size_t n, T basis, T prime) { T h = basis; for(size_t i = 0; i < n; ++i) { h ^= (T)(unsigned char)p[i]; h *= prime; } return h; }
// params: bytes, split
extern "C" void h_hash()
{
    size_t n = vf_param(0), k = vf_param(1); char *p = vf_buf(n); fnv1a_t<32> a; fnv1a_t<64> b; a.update(p, k); b.update(p, k); a.update(p + k, n - k); b.update(p + k, n - k);
    vf_assert(a.digest() == fnv<int, uint32_t>(p, n, 2166136261u, 16777619u), "FNV-1a, 32 bits"); uint64_t h = fnv<int, uint64_t>(p, n, UINT64_C(14695981039346656037), UINT64_C(1099511628211)); vf_assert(b.digest() == h, "FNV-1a, 64 bits"); vf_assert(hash_bytes(p, n) == h, "hash_bytes");
    vf_cover(true, "end");
}
extern "C" void h_hasharr() { char a[3]; vf_fill(a, 3); vf_assert(hash_bytes(a) == hash_bytes(a, 3), "array overload: all its bytes"); vf_cover(true, "end"); }
