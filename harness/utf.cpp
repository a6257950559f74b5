#include "vf.h"
#include <c4/utf.cpp>
using namespace c4;
// independent decoder: returns the code point of a well-formed shortest sequence
static bool ref_decode(const uint8_t *b, size_t n, uint32_t *out)
{
    uint32_t v; size_t need;
    if(n == 0) return false;
    if(b[0] < 0x80) { v = b[0]; need = 1; }
    else if((b[0] & 0xe0) == 0xc0) { v = b[0] & 0x1f; need = 2; }
    else if((b[0] & 0xf0) == 0xe0) { v = b[0] & 0x0f; need = 3; }
    else if((b[0] & 0xf8) == 0xf0) { v = b[0] & 0x07; need = 4; }
    else return false;
    if(n != need) return false;
    for(size_t i = 1; i < need; ++i) { if((b[i] & 0xc0) != 0x80) return false; v = (v << 6) | (b[i] & 0x3f); }
    uint32_t lo = need == 1 ? 0 : need == 2 ? 0x80 : need == 3 ? 0x800 : 0x10000;
    if(v < lo) return false;
    *out = v;
    return true;
}
extern "C" void h_cp()
{
    size_t L = vf_param(0);
    uint8_t *b = (uint8_t*)vf_alloc(L);
    uint8_t orig[8];
    for(size_t i = 0; i < L; ++i) b[i] = orig[i] = vf_u8();
    uint32_t cp = vf_u32();
    size_t r = decode_code_point(b, L, cp);
    vf_assert(r <= 4, "length at most 4");
    for(size_t i = 0; i < L; ++i) if(i >= r) vf_assert(b[i] == orig[i], "bytes after the sequence untouched");
    if(cp > 0x10ffff) vf_assert(r == 0, "beyond Unicode range writes nothing");
    else
    {
        uint32_t back = 0;
        vf_assert(ref_decode(b, r, &back), "well-formed shortest sequence");
        vf_assert(back == cp, "decodes to the code point");
    }
    vf_cover(r == 4, "4-byte sequence");
    vf_cover(r == 0, "rejected");
}
static int hexval(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
extern "C" void h_str()
{
    size_t n = vf_param(0);
    char *s = vf_buf(n);
    uint32_t v = 0;
    for(size_t i = 0; i < n; ++i) { int h = hexval(s[i]); vf_assume(h >= 0); v = (v << 4) | (uint32_t)h; }
    vf_assume(s[0] != '0');
    char *o = vf_buf(6);
    char orig[6]; for(size_t i = 0; i < 6; ++i) orig[i] = o[i];
    substr r = decode_code_point(substr(o, 6), csubstr(s, n));
    uint8_t ref[4]; size_t rn = decode_code_point(ref, 4, v);
    vf_assert(r.str == o && r.len == rn, "same length as numeric form");
    for(size_t i = 0; i < 6; ++i) vf_assert(o[i] == (i < rn ? (char)ref[i] : orig[i]), "same bytes as numeric form, rest untouched");
    vf_cover(true, "end");
}
