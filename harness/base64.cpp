#include "vf.h"
#include <c4/base64.cpp>
using namespace c4;
static const char alpha[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
// RFC 4648 by bit addressing: sextet k of the input (zero padded)
static char ref_char(const uint8_t *d, size_t n, size_t k)
{
    size_t quart = k / 4, in = k % 4, left = n - 3*quart;
    if(left == 1 && in >= 2) return '=';
    if(left == 2 && in == 3) return '=';
    unsigned v = 0;
    for(unsigned b = 0; b < 6; ++b)
    {
        size_t bit = 6*k + b, byte = bit / 8;
        unsigned x = byte < n ? (d[byte] >> (7 - bit % 8)) & 1u : 0u;
        v = (v << 1) | x;
    }
    return alpha[v];
}
extern "C" void h_enc() // params: data length, output length
{
    size_t n = vf_param(0), L = vf_param(1);
    uint8_t *d = (uint8_t*)vf_buf(n);
    char *o = vf_buf(L);
    size_t need = (n + 2) / 3 * 4;
    size_t r = base64_encode(substr(o, L), cblob((cbyte*)d, n));
    vf_assert(r == need, "encoded size is ceil(n/3)*4 for every output size");
    for(size_t i = 0; i < need; ++i)
        if(i < L && L >= need) vf_assert(o[i] == ref_char(d, n, i), "RFC 4648 character");
    vf_cover(true, "end");
}
extern "C" void h_encnull()
{
    size_t n = vf_param(0);
    uint8_t *d = (uint8_t*)vf_buf(n);
    size_t r = base64_encode(substr{}, cblob((cbyte*)d, n));
    vf_assert(r == (n + 2) / 3 * 4, "size query with an absent output");
    vf_cover(true, "end");
}
extern "C" void h_rt() // round trip; params: data length, decode output length
{
    size_t n = vf_param(0), L = vf_param(1);
    uint8_t *d = (uint8_t*)vf_buf(n);
    size_t need = (n + 2) / 3 * 4;
    char *e = (char*)vf_alloc(need);
    size_t r = base64_encode(substr(e, need), cblob((cbyte*)d, n));
    vf_assert(r == need, "encoded size");
    vf_assert(base64_valid(csubstr(e, need)), "encoding is valid");
    uint8_t *o = (uint8_t*)vf_buf(L);
    size_t w = base64_decode(csubstr(e, need), blob((byte*)o, L));
    vf_assert(w == n, "decoded size for every output size");
    if(L >= n) for(size_t i = 0; i < n; ++i) vf_assert(o[i] == d[i], "decoded byte");
    vf_cover(true, "end");
}
static int sext(char c)
{
    if(c >= 'A' && c <= 'Z') return c - 'A';
    if(c >= 'a' && c <= 'z') return c - 'a' + 26;
    if(c >= '0' && c <= '9') return c - '0' + 52;
    return c == '+' ? 62 : c == '/' ? 63 : -1;
}
extern "C" void h_valid()
{
    size_t n = vf_param(0);
    char *s = vf_buf(n);
    bool ref = n % 4 == 0;
    size_t np = 0;
    if(ref && n)
    {
        if(s[n-1] == '=') { np = 1; if(s[n-2] == '=') np = 2; }
        for(size_t i = 0; i < n; ++i) if(i < n - np) ref = ref && sext(s[i]) >= 0;
    }
    bool r = base64_valid(csubstr(s, n));
    vf_assert(r == ref, "valid iff well-formed");
    if(n % 4 == 0) vf_cover(r, "accepted");
    if(n) vf_cover(!r, "rejected");
}
extern "C" void h_decode() // any string validation accepts: exact bytes, no error, in bounds
{
    size_t n = vf_param(0), L = vf_param(1);
    char *s = vf_buf(n);
    vf_assume(base64_valid(csubstr(s, n)));
    uint8_t *o = (uint8_t*)vf_buf(L);
    uint8_t orig[16]; for(size_t i = 0; i < L; ++i) orig[i] = o[i];
    size_t w = base64_decode(csubstr(s, n), blob((byte*)o, L));
    size_t np = n == 0 ? 0 : s[n-1] != '=' ? 0 : s[n-2] != '=' ? 1 : 2;
    vf_assert(w == n / 4 * 3 - np, "decoded size");
    if(L >= w) for(size_t i = 0; i < n / 4 * 3; ++i) if(i < w)
    {
        size_t q = i / 3 * 4, k = i % 3;
        unsigned a = (unsigned)sext(s[q + k]), b = (unsigned)sext(s[q + k + 1]);
        uint8_t ref = (uint8_t)(k == 0 ? (a << 2) | (b >> 4) : k == 1 ? (a << 4) | (b >> 2) : (a << 6) | b);
        vf_assert(o[i] == ref, "decoded byte");
    }
    for(size_t i = 0; i < L; ++i) if(i >= w) vf_assert(o[i] == orig[i], "bytes after the result untouched");
    vf_cover(true, "end");
}
extern "C" void h_decnull()
{
    size_t n = vf_param(0);
    char *s = vf_buf(n);
    vf_assume(base64_valid(csubstr(s, n)));
    size_t w = base64_decode(csubstr(s, n), blob{});
    size_t np = n == 0 ? 0 : s[n-1] != '=' ? 0 : s[n-2] != '=' ? 1 : 2;
    vf_assert(w == n / 4 * 3 - np, "decoded size query with an absent output");
    vf_cover(true, "end");
}
