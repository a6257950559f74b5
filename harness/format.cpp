// C20..C25: concatenation, formatting, wrappers, dumping
#include "vf.h"
#include <c4/charconv.hpp>
#include <c4/format.cpp>
#include <c4/dump.hpp>
#include <c4/base64.cpp>
#include <string.h>
using namespace c4;
static const size_t NPOS = csubstr::npos;
// expected text, built independently of the library
struct Exp { char d[64]; size_t n; Exp() : n(0) {} void c(char x) { d[n++] = x; } void t(struct Tok const& o); void s(const char *p, size_t k) { for(size_t i = 0; i < k; i += 4) { c(p[i]); if(i + 1 < k) c(p[i+1]); if(i + 2 < k) c(p[i+2]); if(i + 3 < k) c(p[i+3]); } } void e(const Exp &o) { s(o.d, o.n); } };
// an arbitrary small integer of k digits and its text
struct SNum { int8_t v; Exp t; SNum(size_t k, bool neg) { uint8_t m = 0; if(neg) t.c('-'); for(size_t i = 0; i < k; ++i) { uint8_t d = vf_u8(); vf_assume(d <= 9 && (k == 1 || i || d)); m = (uint8_t)(m * 10 + d); t.c((char)('0' + d)); } if(k == 3) vf_assume(t.d[neg] == '1' && (m <= (neg ? 128 : 127))); if(neg) vf_assume(m != 0); v = (int8_t)(neg ? -(int)m : (int)m); } };
// an integer argument of k digits (its conversion is C01's business)
struct Num { int8_t v; Exp t; Num(size_t k, bool neg) { v = (int8_t)(k == 1 ? (neg ? -7 : 5) : k == 2 ? (neg ? -36 : 42) : neg ? -128 : 127); const char *p = k == 1 ? (neg ? "-7" : "5") : k == 2 ? (neg ? "-36" : "42") : neg ? "-128" : "127"; for( ; *p; ++p) t.c(*p); } };
// an argument of a user's type: any text of a given length. When it does not fit, to_chars may leave anything in the buffer.
struct Tok { char t[4]; size_t n; Tok(size_t k) : n(k) { for(size_t i = 0; i < k; ++i) t[i] = vf_char(); } };
static size_t to_chars(substr b, Tok const& t) { if(t.n <= b.len) for(size_t i = 0; i < t.n; ++i) b.str[i] = t.t[i]; else for(size_t i = 0; i < b.len; ++i) b.str[i] = vf_char(); return t.n; }
inline void Exp::t(Tok const& o) { s(o.t, o.n); }
#define BY4(i, L, stmt) for(size_t i##_ = 0; i##_ < (L); i##_ += 4) { size_t i = i##_; if(i < (L)) { stmt } ++i; if(i < (L)) { stmt } ++i; if(i < (L)) { stmt } ++i; if(i < (L)) { stmt } } // (keeps loop bounds low)
// buffer of exactly L bytes (every access is checked) with a copy of its first contents
struct Buf { char *b; char o[64]; size_t L; Buf(size_t l) : b((char*)vf_alloc(l)), L(l) { BY4(i, l, o[i] = b[i] = vf_char();) } operator substr() { return substr(b, L); } };
static void check(size_t r, Buf &b, const Exp &x)
{
    vf_assert(r == x.n, "returns the exact length of the text");
    if(x.n <= b.L) BY4(i, b.L, vf_assert(b.b[i] == (i < x.n ? x.d[i] : b.o[i]), "writes exactly the text");)
    vf_cover(true, "end");
}
static size_t room(size_t p, size_t total) { return p == 0 ? 0 : p == 1 ? (total ? total - 1 : 0) : p == 2 ? total : p == 3 ? total + 1 : total / 2; }

// ---- C20. params: shape, room (0 none, 1 one short, 2 exact, 3 one more, 4 half), string lengths, digits, sign
extern "C" void h_cat()
{
    unsigned shape = (unsigned)vf_param(0), rm = (unsigned)vf_param(1); size_t la = vf_param(2), lb = vf_param(3);
    char *pa = vf_buf(la), *pb = vf_buf(lb), c = vf_char(); csubstr a(pa, la), b(pb, lb); substr ma(pa, la);
    Num n(vf_param(4), vf_param(5)); bool t = vf_param(5); uint8_t u = 9; char ud = '9'; Tok k1(vf_param(4)), k2(lb);
    Exp x;
    switch(shape)
    {
    case 1: x.s(pa, la); break;
    case 2: x.s(pa, la); x.c(c); x.e(n.t); x.s(pb, lb); break;
    case 3: x.e(n.t); x.s(pa, la); x.c(t ? '1' : '0'); x.s(pb, lb); break;
    case 4: x.s("xy", 2); x.c(ud); x.s(pb, lb); x.c(c); x.e(n.t); break;
    case 5: x.s(pa, la); x.c(c); x.e(n.t); x.c(c); x.s(pb, lb); break;
    case 6: x.c(c); x.s(pa, la); x.s(pb, lb); x.s(pa, la); x.e(n.t); break;
    case 7: x.s(pa, la); break;
    case 9: x.s(pa, la); x.e(n.t); x.s(pb, lb); break;
    case 10: x.s(pa, la); x.s(", ", 2); x.s(pb, lb); x.s(", ", 2); x.c(c); x.s(", ", 2); x.c(ud); break;
    case 11: x.s(pa, la); x.e(n.t); break;
    case 12: x.s(pa, la); x.c(c); x.e(n.t); break;
    case 13: x.t(k1); x.s(pa, la); x.t(k2); x.c(c); break;
    case 14: x.t(k1); x.t(k2); x.c(c); x.t(k2); x.s(pa, la); break;
    case 15: x.c(c); x.t(k1); x.t(k2); x.t(k1); break;
    default: break;
    }
    Buf z(room(rm, x.n)); substr s = z; size_t r = 0; substr w;
    switch(shape)
    {
    case 0: r = cat(s); break;
    case 1: r = cat(s, a); break;
    case 2: r = cat(s, a, c, n.v, b); break;
    case 3: r = cat(s, n.v, ma, t, b); break;
    case 4: r = cat(s, "xy", u, b, c, n.v); break;
    case 5: r = catsep(s, c, a, n.v, b); break;
    case 6: r = catsep(s, a, c, b, n.v); break;
    case 7: r = catsep(s, n.v, a); break;
    case 8: r = catsep(s, a); break;
    case 9: r = catsep(s, n.v, a, b); break;
    case 10: r = catsep(s, ", ", a, b, c, u); break;
    case 11: w = cat_sub(s, a, n.v); vf_assert(w.str == z.b, "cat_sub begins at the buffer"); r = w.len; break;
    case 13: r = cat(s, k1, a, k2, c); break;
    case 14: r = catsep(s, k2, k1, c, a); break;
    case 15: r = catsep(s, k1, c, k2, Tok(0)); break;
    case 12: w = catsep_sub(s, c, a, n.v); vf_assert(w.str == z.b, "catsep_sub begins at the buffer"); r = w.len; break;
    }
    check(r, z, x);
}
// ---- C21. params: format length, mask of the positions where "{}" stands, number of arguments, room, length of the first argument, function (0 format, 1 format_sub)
struct Fmt { char *p; size_t n, at[4], k; csubstr f; Fmt(size_t len, unsigned mask) : p(vf_buf(len)), n(len), k(0), f(p, len) { for(size_t i = 0; i + 1 < len; ++i) { bool on = (mask >> i) & 1; vf_assume((p[i] == '{' && p[i+1] == '}') == on); if(on) at[k++] = i; } } };
static void expect(Exp &x, Fmt const& f, Exp const *args, size_t nargs)
{
    size_t pos = 0;
    for(size_t i = 0; i < f.k && i < nargs; ++i) { x.s(f.p + pos, f.at[i] - pos); x.e(args[i]); pos = f.at[i] + 2; }
    x.s(f.p + pos, f.n - pos);
}
extern "C" void h_format()
{
    Fmt f(vf_param(0), (unsigned)vf_param(1)); size_t nargs = vf_param(2), la = vf_param(4); unsigned fn = (unsigned)vf_param(5);
    char *pa = vf_buf(la), c = vf_char(); csubstr a(pa, la); Num n(2, true); Tok k(2);
    Exp ar[4]; if(fn == 2) { ar[0].t(k); ar[1].c(c); ar[2].t(k); } else { ar[0].s(pa, la); ar[1].e(n.t); ar[2].c(c); }
    Exp x; expect(x, f, ar, nargs);
    Buf z(room((unsigned)vf_param(3), x.n)); size_t r;
    if(fn == 0) r = nargs == 0 ? format(z, f.f) : nargs == 1 ? format(z, f.f, a) : nargs == 2 ? format(z, f.f, a, n.v) : format(z, f.f, a, n.v, c);
    else if(fn == 2) r = nargs == 1 ? format(z, f.f, k) : format(z, f.f, k, c, k);
    else { substr w = nargs <= 1 ? format_sub(z, f.f, a) : format_sub(z, f.f, a, n.v); vf_assert(w.str == z.b, "format_sub begins at the buffer"); r = w.len; }
    check(r, z, x);
}
// ---- C22. Round trips. params: digits and sign of two numbers, function, separator (0: any delimiter, 1 blank)
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static bool delim(char c) { return blank(c) || c == ']' || c == ')' || c == '}' || c == ',' || c == ';' || c == '\0'; }
template<class N, bool S> static void unrt()
{
    N a(vf_param(0), vf_param(1)), b(vf_param(2), vf_param(3)); unsigned fn = (unsigned)vf_param(4); char sep = vf_char(); vf_assume(delim(sep));
    char buf[32]; size_t w, r; int8_t x = 0, y = 0; char s = 0; uint16_t z = 0; const uint8_t u = 8; Exp e;
    // with symbolic digits the text comes from the harness (that the writers produce it is C01, C20 and C21); with fixed numbers from the writer itself
    if(fn == 0) { e.e(a.t); e.c(sep); e.e(b.t); w = S ? e.n : catsep(buf, sep, a.v, b.v); r = uncatsep(csubstr(S ? e.d : buf, w), s, x, y); vf_assert(s == sep, "separator"); }
    else if(fn == 1) { e.e(a.t); e.c(sep); e.e(b.t); w = S ? e.n : cat(buf, a.v, sep, b.v); r = uncat(csubstr(S ? e.d : buf, w), x, s, y); vf_assert(s == sep, "character"); }
    else if(fn == 2) { e.e(a.t); e.c(sep); e.e(b.t); e.c(sep); e.c('8'); w = S ? e.n : catsep(buf, sep, a.v, b.v, u); r = uncatsep(csubstr(S ? e.d : buf, w), s, x, y, z); vf_assert(z == u, "third"); }
    else if(fn == 3)
    {
        char f[9]; f[0] = vf_char(); f[1] = '{'; f[2] = '}'; f[3] = sep; f[4] = vf_char(); f[5] = '{'; f[6] = '}'; f[7] = vf_char(); f[8] = vf_char(); vf_assume(delim(f[7]) && !(f[0] == '{') && !(f[4] == '{') && !(f[7] == '{' && f[8] == '}') && !(f[3] == '{' && f[4] == '}'));
        e.c(f[0]); e.e(a.t); e.c(sep); e.c(f[4]); e.e(b.t); e.c(f[7]); e.c(f[8]);
        w = S ? e.n : format(buf, csubstr(f, 9), a.v, b.v); r = unformat(csubstr(S ? e.d : buf, w), csubstr(f, 9), x, y);
    }
    else // whole words
    {
        char t[3]; vf_fill(t, 3); for(int i = 0; i < 3; ++i) vf_assume(!blank(t[i])); vf_assume(blank(sep)); char d[4]; substr dst(d, 4); e.s(t, 3); e.c(sep); e.e(a.t); e.c(sep); e.e(b.t);
        w = S ? e.n : catsep(buf, sep, csubstr(t, 3), a.v, b.v); r = uncatsep(csubstr(S ? e.d : buf, w), s, dst, x, y); vf_assert(d[0] == t[0] && d[1] == t[1] && d[2] == t[2], "word");
    }
    vf_assert(w == e.n, "length of the text");
    vf_assert(r == w, "consumes exactly the text written"); vf_assert(x == a.v && y == b.v, "the arguments come back");
    vf_cover(true, "end");
}
extern "C" void h_unrt() { unrt<SNum, true>(); }
extern "C" void h_unrtc() { unrt<Num, false>(); }
// any text: the readers are the sequence of first-token reads. params: text length, function, format mask
extern "C" void h_unany()
{
    size_t n = vf_param(0); unsigned fn = (unsigned)vf_param(1); char *p = vf_buf(n); csubstr t(p, n);
    int8_t x = 1, x2 = 1, y = 1, y2 = 1; char c = 0, c2 = 0; size_t r, e = 0, k; csubstr rem = t;
    #define STEP(v) do { if(e != NPOS) { k = from_chars_first(rem, &v); if(k == NPOS) e = NPOS; else { vf_assert(k <= rem.len, "stays inside the text"); e += k; rem = rem.sub(k); } } } while(0)
    #define SKIP(m) do { if(e != NPOS) { if((m) > rem.len) e = NPOS; else { e += (m); rem = rem.sub(m); } } } while(0)
    if(fn == 0) { r = uncat(t, x, c, y); STEP(x2); STEP(c2); STEP(y2); }
    else if(fn == 1) { r = uncatsep(t, c, x, y); STEP(x2); STEP(c2); STEP(y2); }
    else if(fn == 2) { r = uncat(t, c); STEP(c2); }
    else
    {
        Fmt f(5, (unsigned)vf_param(2)); r = unformat(t, f.f, x, y); size_t pos = 0;
        if(f.k >= 1) { SKIP(f.at[0]); STEP(x2); pos = f.at[0] + 2; }
        if(f.k >= 2) { SKIP(f.at[1] - pos); STEP(y2); pos = f.at[1] + 2; }
        SKIP(5 - pos);
    }
    vf_assert(r == e, "same as reading one token after another"); vf_assert(r == NPOS || r <= n, "never claims more than the text");
    if(r != NPOS) vf_assert(x == x2 && y == y2 && c == c2, "values");
    vf_cover(true, "end"); 
}
// ---- C23. params: function, initial size, string length, digits
struct Cont { char d[48]; size_t n; Cont() : n(0) {} size_t size() const { return n; } void resize(size_t k) { vf_assert(k <= 48, "(container of the harness is large enough)"); BY4(i, k, if(i >= n) d[i] = '?';) n = k; } };
static substr to_substr(Cont &c) { return substr(c.d, c.n); }
static csubstr to_csubstr(Cont const& c) { return csubstr(c.d, c.n); }
extern "C" void h_rs()
{
    unsigned fn = (unsigned)vf_param(0); size_t n0 = vf_param(1), la = vf_param(2); char *pa = vf_buf(la), c = vf_char(), old[48]; csubstr a(pa, la); Num n(vf_param(3), false);
    Cont k; k.n = n0; BY4(i, n0, k.d[i] = old[i] = vf_char();)
    Exp x; bool app = fn & 1; csubstr w; if(app) x.s(old, n0);
    if(fn < 2 || fn == 6) { x.s(pa, la); x.c(c); x.e(n.t); }
    else if(fn < 4 || fn == 7) { x.s(pa, la); x.c(c); x.e(n.t); x.c(c); x.s(pa, la); }
    else { x.s("<", 1); x.s(pa, la); x.s("-", 1); x.e(n.t); x.s(">", 1); }
    if(fn == 0) catrs(&k, a, c, n.v);
    else if(fn == 1) w = catrs_append(&k, a, c, n.v);
    else if(fn == 2) catseprs(&k, c, a, n.v, a);
    else if(fn == 3) w = catseprs_append(&k, c, a, n.v, a);
    else if(fn == 4) formatrs(&k, "<{}-{}>", a, n.v);
    else if(fn == 5) w = formatrs_append(&k, "<{}-{}>", a, n.v);
    else if(fn == 6) k = catrs<Cont>(a, c, n.v);
    else if(fn == 8) k = formatrs<Cont>("<{}-{}>", a, n.v);
    vf_assert(k.n == x.n, "resized to exactly the text");
    BY4(i, x.n, vf_assert(k.d[i] == x.d[i], "holds exactly the text");)
    if(app) vf_assert(w.str == k.d + n0 && w.len == x.n - n0, "the region appended");
    vf_cover(true, "end");
}
// ---- C24. params: function, buffer length, string length, width
extern "C" void h_align()
{
    unsigned fn = (unsigned)vf_param(0); Buf z(vf_param(1)); size_t la = vf_param(2), width = vf_param(3), r; char *pa = vf_buf(la), pad = vf_char(); csubstr a(pa, la); Num n(la < 1 || la > 3 ? 1 : la, fn == 3);
    Exp v, x; if(fn < 2) v.s(pa, la); else v.e(n.t);
    size_t k = width > v.n ? width - v.n : 0; bool left = fn == 0 || fn == 2;
    if(!left) for(size_t i = 0; i < k; ++i) x.c(pad);
    x.e(v); if(left) for(size_t i = 0; i < k; ++i) x.c(pad);
    if(fn == 0) r = to_chars(z, fmt::left(a, width, pad)); else if(fn == 1) r = to_chars(z, fmt::right(a, width, pad)); else if(fn == 2) r = to_chars(z, fmt::left(n.v, width, pad)); else r = to_chars(z, fmt::right(n.v, width, pad));
    check(r, z, x);
}
// radix wrappers: same text as the plain conversions. params: function, buffer length, digits of padding
template<class T> static void radix(T v)
{
    unsigned fn = (unsigned)vf_param(0); size_t L = vf_param(1), nd = vf_param(2); Buf y(L), z(L); size_t r, e; T rx = (T)(fn % 4 == 0 ? 16 : fn % 4 == 1 ? 8 : fn % 4 == 2 ? 2 : 10);
    BY4(i, L, y.b[i] = z.b[i];)
    if(fn < 4) { e = xtoa(y, v, rx); r = fn == 0 ? to_chars(z, fmt::hex(v)) : fn == 1 ? to_chars(z, fmt::oct(v)) : fn == 2 ? to_chars(z, fmt::bin(v)) : to_chars(z, fmt::integral(v, rx)); }
    else { e = xtoa(y, v, rx, nd); r = fn == 4 ? to_chars(z, fmt::zpad(fmt::hex(v), nd)) : fn == 5 ? to_chars(z, fmt::zpad(fmt::oct(v), nd)) : fn == 6 ? to_chars(z, fmt::zpad(fmt::bin(v), nd)) : to_chars(z, fmt::zpad(v, nd)); }
    vf_assert(r == e, "same size as the plain conversion");
    BY4(i, L, vf_assert(y.b[i] == z.b[i], "same text as the plain conversion");)
    vf_cover(r <= L || L < 12, "fits"); vf_cover(true, "end");
}
extern "C" void h_radix_i8() { radix<int8_t>((int8_t)vf_u8()); }
extern "C" void h_radix_u8() { radix<uint8_t>((uint8_t)vf_u8()); }
extern "C" void h_radix_u16() { radix<uint16_t>(vf_u16()); }
extern "C" void h_ptr() // params: function, buffer length, padding
{
    unsigned fn = (unsigned)vf_param(0); size_t L = vf_param(1), nd = vf_param(2); Buf y(L), z(L); BY4(i, L, y.b[i] = z.b[i];)
    intptr_t v = (intptr_t)(vf_u64() & 0xffff); int *p = (int*)v; int const* q = p; size_t r, e;
    if(fn == 0) { r = to_chars(z, fmt::hex(p)); e = itoa(y, v, (intptr_t)16); } else if(fn == 1) { r = to_chars(z, fmt::oct(q)); e = itoa(y, v, (intptr_t)8); } else if(fn == 2) { r = to_chars(z, fmt::bin(p)); e = itoa(y, v, (intptr_t)2); }
    else if(fn == 3) { r = to_chars(z, fmt::zpad(q, nd)); e = itoa(y, v, (intptr_t)16, nd); } else if(fn == 4) { r = to_chars(z, fmt::hex(nullptr)); e = itoa(y, (intptr_t)0, (intptr_t)16); }
    else if(fn == 5) { r = to_chars(z, fmt::integral(q, 10)); e = itoa(y, v, (intptr_t)10); } else if(fn == 6) { r = to_chars(z, fmt::zpad(nullptr, nd)); e = itoa(y, (intptr_t)0, (intptr_t)16, nd); }
    else { r = to_chars(z, fmt::hex(q)); e = itoa(y, v, (intptr_t)16); }
    vf_assert(r == e, "same size as the integer"); BY4(i, L, vf_assert(y.b[i] == z.b[i], "same text as the integer");) vf_cover(true, "end");
}
extern "C" void h_boolalpha() // params: buffer length
{
    Buf z(vf_param(0)); bool v = vf_param(1); int i = (int)vf_u32(); vf_assume((i != 0) == v); Exp x; if(v) x.s("true", 4); else x.s("false", 5);
    check(vf_param(2) ? to_chars(z, fmt::boolalpha(i)) : to_chars(z, fmt::boolalpha(v)), z, x);
}
// raw bytes. params: bytes, log2 alignment, offset of the buffer in a 16-aligned block, buffer length
extern "C" void h_raw()
{
    size_t n = vf_param(0), al = (size_t)1 << vf_param(1), off = vf_param(2), L = vf_param(3), r; char *blk = vf_buf(off + L), *d = vf_buf(n), o[64];
    for(size_t i = 0; i < off + L; ++i) o[i] = blk[i];
    substr s(blk + off, L); size_t padn = (al - off % al) % al, need = padn + n;
    r = to_chars(s, fmt::craw(cblob((cbyte*)d, n), al));
    if(need <= L) vf_assert(r == need, "padding and data"); else vf_assert(r > L, "too small is reported");
    for(size_t i = 0; i < off + L; ++i) vf_assert(blk[i] == (need <= L && i >= off + padn && i < off + need ? d[i - off - padn] : o[i]), "exactly the data at the aligned position");
    if(need <= L)
    {
        char *e = vf_buf(n); blob bl((byte*)e, n); fmt::raw_wrapper w = fmt::raw(bl, al);
        size_t k = vf_param(4) ? from_chars_first(csubstr(s.str, L), w) : (from_chars(csubstr(s.str, L), w) ? need : NPOS);
        vf_assert(k == need, "reads back as many characters");
        for(size_t i = 0; i < n; ++i) vf_assert(e[i] == d[i], "reads back the data");
    }
    vf_cover(need <= L || L == 0, "fits"); vf_cover(true, "end");
}
// typed raw values and base64 wrappers. params: buffer length
extern "C" void h_rawv()
{
    Buf z(vf_param(0)); uint32_t v = vf_u32(), w = 0; size_t r = to_chars(z, fmt::craw(v)); Exp x; x.s((const char*)&v, 4);
    if(r <= z.L) { check(r, z, x); vf_assert(from_chars(csubstr(z.b, z.L), fmt::raw(w)) && w == v, "value comes back"); } else { vf_assert(z.L < 4, "only short buffers are refused"); for(size_t i = 0; i < z.L; ++i) vf_assert(z.b[i] == z.o[i], "nothing written"); }
    vf_cover(true, "end");
}
extern "C" void h_b64w()
{
    size_t n = vf_param(0), L = (n + 2) / 3 * 4; char *d = vf_buf(n), *e = vf_buf(n); Buf y(L), z(L);
    size_t r = to_chars(z, fmt::cbase64(cblob((cbyte*)d, n))), k = base64_encode(y, cblob((cbyte*)d, n));
    vf_assert(r == L && k == L, "size"); for(size_t i = 0; i < L; ++i) vf_assert(y.b[i] == z.b[i], "same as base64_encode");
    blob bl((byte*)e, n); fmt::base64_wrapper w = fmt::base64(bl); size_t m = from_chars(csubstr(z.b, L), &w); vf_assert(m == n, "bytes decoded");
    for(size_t i = 0; i < n; ++i) vf_assert(e[i] == d[i], "data comes back"); vf_cover(true, "end");
}
// ---- C25
static char g_out[96]; static size_t g_n;
static void sink(csubstr s) { for(size_t i = 0; i < s.len; ++i) g_out[g_n++] = s.str[i]; }
static void isprefix(Exp const& x, bool whole) { vf_assert(g_n <= x.n && (!whole || g_n == x.n), whole ? "exactly the whole text is emitted" : "no more than the text is emitted"); BY4(i, x.n, if(i < g_n) vf_assert(g_out[i] == x.d[i], "the text is emitted in order");) }
// params: function, scratch buffer length, string lengths, digits
template<class N1, class N2> static size_t dumpf(unsigned fn, substr s, csubstr a, N1 n, N2 m, csubstr b, char c)
{
    switch(fn)
    {
    case 0: return cat_dump<sink>(s, a, n, b, m);
    case 1: return cat_dump(sink, s, n, a, m, b);
    case 2: return catsep_dump<sink>(s, c, a, n, b, m);
    case 3: return catsep_dump(sink, s, a, n, m, b);
    case 4: return format_dump<sink>(s, "<{}-{}>{}", n, a, m);
    case 5: return format_dump(sink, s, "{}-{}>{}{}", a, n, m);
    case 6: return cat_dump(sink, s, n, "lit", m, c);
    default: return catsep_dump<sink>(s, ", ", n, m);
    }
}
template<class N1, class N2> static DumpResults resumef(unsigned fn, bool first, DumpResults r, substr s, csubstr a, N1 n, N2 m, csubstr b, char c)
{
    switch(fn)
    {
    case 0: return first ? cat_dump_resume<sink>(s, a, n, b, m) : cat_dump_resume<sink>(r, s, a, n, b, m);
    case 1: return first ? cat_dump_resume(sink, s, n, a, m, b) : cat_dump_resume(sink, r, s, n, a, m, b);
    case 2: return first ? catsep_dump_resume<sink>(s, c, a, n, b, m) : catsep_dump_resume<sink>(r, s, c, a, n, b, m);
    case 3: return first ? catsep_dump_resume(sink, s, a, n, m, b) : catsep_dump_resume(sink, r, s, a, n, m, b);
    case 4: return first ? format_dump_resume<sink>(s, "<{}-{}>{}", n, a, m) : format_dump_resume<sink>(r, s, "<{}-{}>{}", n, a, m);
    case 5: return first ? format_dump_resume(sink, s, "{}-{}>{}{}", a, n, m) : format_dump_resume(sink, r, s, "{}-{}>{}{}", a, n, m);
    case 6: return first ? cat_dump_resume(sink, s, n, "lit", m, c) : cat_dump_resume(sink, r, s, n, "lit", m, c);
    default: return first ? catsep_dump_resume<sink>(s, ", ", n, m) : catsep_dump_resume<sink>(r, s, ", ", n, m);
    }
}
static void dexp(Exp &x, unsigned fn, csubstr a, Num &n, Num &m, csubstr b, char c)
{
    switch(fn)
    {
    case 0: x.s(a.str, a.len); x.e(n.t); x.s(b.str, b.len); x.e(m.t); break;
    case 1: x.e(n.t); x.s(a.str, a.len); x.e(m.t); x.s(b.str, b.len); break;
    case 2: x.s(a.str, a.len); x.c(c); x.e(n.t); x.c(c); x.s(b.str, b.len); x.c(c); x.e(m.t); break;
    case 3: x.e(n.t); x.s(a.str, a.len); x.e(m.t); x.s(a.str, a.len); x.s(b.str, b.len); break;
    case 4: x.c('<'); x.e(n.t); x.c('-'); x.s(a.str, a.len); x.c('>'); x.e(m.t); break;
    case 5: x.s(a.str, a.len); x.c('-'); x.e(n.t); x.c('>'); x.e(m.t); x.s("{}", 2); break;
    case 6: x.e(n.t); x.s("lit", 3); x.e(m.t); x.c(c); break;
    default: x.e(n.t); x.s(", ", 2); x.e(m.t); break;
    }
}
extern "C" void h_dump()
{
    unsigned fn = (unsigned)vf_param(0); Buf z(vf_param(1)); size_t la = vf_param(2), lb = vf_param(3); char *pa = vf_buf(la), *pb = vf_buf(lb), c = vf_char(); csubstr a(pa, la), b(pb, lb);
    Num n(vf_param(4), false), m(vf_param(5), true); Exp x; dexp(x, fn, a, n, m, b, c);
    size_t need = n.t.n > m.t.n ? n.t.n : m.t.n, r; g_n = 0;
    r = dumpf(fn, z, a, n.v, m.v, b, c);
    vf_assert(r == need, "returns the scratch size needed");
    isprefix(x, r <= z.L);
    vf_cover(true, "end");
}
// resuming. params: function, first scratch length, string lengths, digits
extern "C" void h_resume()
{
    unsigned fn = (unsigned)vf_param(0); size_t L = vf_param(1), la = vf_param(2), lb = vf_param(3); char *pa = vf_buf(la), *pb = vf_buf(lb), c = vf_char(); csubstr a(pa, la), b(pb, lb);
    Num n(vf_param(4), false), m(vf_param(5), true); Exp x; dexp(x, fn, a, n, m, b, c);
    size_t need = n.t.n > m.t.n ? n.t.n : m.t.n; g_n = 0; DumpResults r; char *buf = 0; bool again = vf_param(6);
    for(int i = 0; i < 3; ++i)
    {
        buf = (char*)vf_alloc(L);
        r = resumef(fn, i == 0 && !again, r, substr(buf, L), a, n.v, m.v, b, c);
        vf_assert(r.bufsize <= need, "asks for no more than needed");
        isprefix(x, r.bufsize <= L);
        if(r.bufsize <= L) break;
        L = r.bufsize;
    }
    vf_assert(g_n == x.n, "resuming completes the text");
    r = resumef(fn, false, r, substr(buf, L), a, n.v, m.v, b, c);
    vf_assert(g_n == x.n, "resuming a completed dump emits nothing");
    vf_cover(true, "end");
}
