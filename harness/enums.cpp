// C32: enum and bitmask text
#include "vf.h"
#include <c4/enum.hpp>
#include <c4/bitmask.hpp>
#include <c4/format.cpp>
using namespace c4;
enum E1 { E1_AB = 3, E1_A = 1, E1_C = -7, E1_A2 = 9 }; // a symbol whose name is the beginning of another one
enum class E2 : uint8_t { X = 2, XY = 5, Q = 255 };
enum F1 { F_NONE = 0, F_LONG = 1, F_LO = 2, F_B3 = 4, F_BOTH = 3 };
enum class F2 : uint16_t { A = 1, B = 0x40, Z = 0x8000 };
namespace c4 {
template<> const EnumSymbols<E1> esyms<E1>() { static const EnumSymbols<E1>::Sym s[] = {{E1_AB, "E1_AB"}, {E1_A, "E1_A"}, {E1_C, "E1_C"}, {E1_A2, "E1_A2"}}; return EnumSymbols<E1>(s); }
template<> size_t eoffs_pfx<E1>() { return 3; }
template<> const EnumSymbols<E2> esyms<E2>() { static const EnumSymbols<E2>::Sym s[] = {{E2::XY, "E2::XY"}, {E2::X, "E2::X"}, {E2::Q, "E2::Q"}}; return EnumSymbols<E2>(s); }
template<> size_t eoffs_cls<E2>() { return 4; }
template<> const EnumSymbols<F1> esyms<F1>() { static const EnumSymbols<F1>::Sym s[] = {{F_NONE, "F_NONE"}, {F_LONG, "F_LONG"}, {F_LO, "F_LO"}, {F_B3, "F_B3"}, {F_BOTH, "F_BOTH"}}; return EnumSymbols<F1>(s); }
template<> size_t eoffs_pfx<F1>() { return 2; }
template<> const EnumSymbols<F2> esyms<F2>() { static const EnumSymbols<F2>::Sym s[] = {{F2::A, "F2::A"}, {F2::B, "F2::B"}, {F2::Z, "F2::Z"}}; return EnumSymbols<F2>(s); }
template<> size_t eoffs_cls<F2>() { return 4; }
}
static bool is(const char *a, size_t n, const char *lit) { for(size_t i = 0; i < n; ++i) if(!lit[i] || a[i] != lit[i]) return false; return lit[n] == 0; }
// lookup by name: every query. params: length
template<class E> static void lookup()
{
    size_t n = vf_param(0); char *q = vf_buf(n); char *z = (char*)vf_alloc(n + 1); bool nul = vf_bool(); for(size_t i = 0; i < n; ++i) { vf_assume(nul || q[i] != 0); z[i] = q[i]; } z[n] = 0;
    auto es = esyms<E>(); size_t off = eoffs<E>(EOFFS_PFX); auto *p = es.find(q, n); auto *r = es.find(z); size_t which = es.size(); for(size_t i = es.size(); i > 0; --i) if(is(q, n, es[i - 1].name) || is(q, n, es[i - 1].name + off)) which = i - 1;
    if(nul) return; vf_assert(which == es.size() ? p == nullptr : p == es.begin() + which, "find(name, length): the symbol of exactly that name"); vf_assert(which == es.size() ? r == nullptr : r == es.begin() + which, "find(name): the symbol of exactly that name");
    if(which < es.size()) { vf_assert(str2e<E>(z) == es[which].value, "str2e"); vf_assert(es.get(z) == es.begin() + which && es.get(q, n) == es.begin() + which, "get"); }
    vf_cover(which == es.size(), "not found");
}
extern "C" void h_lookup1() { lookup<E1>(); } extern "C" void h_lookup2() { lookup<E2>(); }
// lookup by value
template<class E, class I> static void value()
{
    I v = (I)vf_u32(); auto es = esyms<E>(); auto *p = es.find((E)v); size_t which = es.size(); for(size_t i = es.size(); i > 0; --i) if((I)es[i - 1].value == v) which = i - 1;
    vf_assert(which == es.size() ? p == nullptr : p == es.begin() + which, "find(value)");
    if(p) { vf_assert(e2str((E)v) == p->name && e2stroffs((E)v) == p->name + eoffs<E>(EOFFS_PFX) && e2stroffs((E)v, EOFFS_NONE) == p->name && p->name_offs(EOFFS_PFX) == p->name + eoffs<E>(EOFFS_PFX), "e2str"); vf_assert(str2e<E>(e2str((E)v)) == (E)v && str2e<E>(e2stroffs((E)v)) == (E)v, "text and back"); }
    vf_cover(p, "found"); vf_cover(!p, "not found");
}
extern "C" void h_value1() { value<E1, int>(); } extern "C" void h_value2() { value<E2, uint8_t>(); }
// bits to text and back. params: buffer size relative to the needed one, offset type, bits
template<class E> static void bm(uint64_t mask)
{
    typedef typename std::underlying_type<E>::type I; I b = (I)vf_param(2); (void)mask; EnumOffsetType o = (EnumOffsetType)vf_param(1);
    size_t need = bm2str<E>(b, nullptr, 0, o); size_t sz = need + vf_param(0); char *s = vf_buf(sz + 2); char g0 = s[0], g1 = s[sz + 1];
    size_t r = bm2str<E>(b, s + 1, sz, o); vf_assert(r == need, "the size"); vf_assert(s[0] == g0 && s[sz + 1] == g1, "nothing outside is written"); size_t len = 0; while(len < need && s[1 + len]) ++len; vf_assert(len == need - 1, "terminated where the size says");
    vf_assert(str2bm<E>(s + 1, len) == b, "text and back (length)"); vf_assert(str2bm<E>(s + 1) == b, "text and back"); for(size_t i = 0; i + 1 < len; ++i) vf_assert(s[1 + i] != '|' || s[2 + i] != '|', "one separator");
    vf_cover(true, "end");
}
extern "C" void h_bm1() { bm<F1>(7); } extern "C" void h_bm2() { bm<F2>(0x8041); }
struct Str { char b[64]; size_t n = 0; Str& operator<<(char c) { if(n < 63) b[n++] = c; return *this; } Str& operator<<(const char *s) { while(*s) *this << *s++; return *this; } };
extern "C" void h_bms() { int b = (int)vf_param(0); Str s; bm2stream<F1>(s, (unsigned)b, (EnumOffsetType)vf_param(1)); vf_assert((int)str2bm<F1>(s.b, s.n) == b, "stream and back"); Str t; unsigned c = (b & 1 ? 1 : 0) | (b & 2 ? 0x40 : 0) | (b & 4 ? 0x8000 : 0); bm2stream<F2>(t, (F2)c); vf_assert(str2bm<F2>(t.b, t.n) == c, "stream and back, scoped"); vf_cover(true, "end"); }
// text composed of names and numbers. params: two tokens (index of symbol, or 8+digits: hexadecimal, 12+digits: decimal), blanks
extern "C" void h_text()
{
    static const char *names[] = {"F_NONE", "LONG", "F_LO", "B3", "F_BOTH"}; static const unsigned vals[] = {0, 1, 2, 4, 3}; char s[32]; size_t n = 0; unsigned want = 0;
    for(unsigned k = 0; k < 2; ++k)
    {
        unsigned t = k ? (unsigned)vf_param(1) : (unsigned)vf_param(0); if(k) s[n++] = '|';
        if(t < 8) { for(const char *p = names[t]; *p; ++p) s[n++] = *p; want |= vals[t]; }
        else { bool hex = t < 12; unsigned d = hex ? t - 8 : t - 12, v = 0; if(hex) { s[n++] = '0'; s[n++] = 'x'; } for(unsigned i = 0; i < d; ++i) { unsigned x = vf_u8(); vf_assume(x < (hex ? 16u : 10u)); bool up = vf_bool(); s[n++] = (char)(x < 10 ? '0' + x : (up ? 'A' : 'a') + x - 10); v = v * (hex ? 16 : 10) + x; } want |= v; vf_assume(hex || s[n - d] != '0' || d == 1); }
    }
    vf_assert(str2bm<F1>(s, n) == want, "union of names and numbers"); vf_cover(true, "end");
}
// arbitrary text: a value or an error, nothing outside is read. params: length
extern "C" void h_any() { size_t n = vf_param(0); char *s = vf_buf(n); unsigned v = (unsigned)str2bm<F1>(s, n); if(n == 0) vf_assert(v == 0, "nothing: zero"); if(n == 1) vf_assert(s[0] == ' ' || s[0] == ':' || s[0] == 0 || (s[0] >= '0' && s[0] <= '9' && v == (unsigned)(s[0] - '0')), "one character: a digit"); vf_cover(true, "end"); }
// too small buffers are refused, nothing outside is written. params: bits, size
extern "C" void h_small() { size_t sz = vf_param(1); char *s = vf_buf(sz); vf_cover(true, "start"); size_t r = bm2str<F1>((unsigned)vf_param(0), s, sz); vf_assert(r <= sz, "fits, or an error"); }
