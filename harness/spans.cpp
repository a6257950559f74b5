// C06, C07: numeric tokens at the start of a string
#include "vf.h"
#include <c4/charconv.hpp>
#include <c4/format.hpp>
#include <type_traits>
using namespace c4;
static bool blank(char c) { return c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static bool delim(char c) { return blank(c) || c == ']' || c == ')' || c == '}' || c == ',' || c == ';' || c == '\0'; }
static bool isdig(char c, unsigned r) { if(r == 16 && ((c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))) return true; return c >= '0' && c < (char)('0' + (r > 10 ? 10 : r)); }
static unsigned rdx(char c) { return c == 'x' || c == 'X' ? 16 : c == 'o' || c == 'O' ? 8 : c == 'b' || c == 'B' ? 2 : 10; }

// Oracle: length of the numeric token at s[0..n), 0 if none. kind 0: unsigned, 1: signed, 2: real. s does not begin with a blank.
enum { S_INT, S_FRAC, S_EXP0, S_EXP1, S_EXP, S_DEAD };
static size_t token(const char *s, size_t n, unsigned kind)
{
    size_t ne = n; // end of the first non-empty span (searched backwards)
    for(size_t i = n; i > 0; --i) if(blank(s[i-1])) ne = i - 1;
    if(ne == 0) return 0;
    if(kind == 0 && s[0] == '-') return 0;
    size_t k = s[0] == '+' || s[0] == '-';
    if(kind == 2)
    {
        static const char *const w[3] = {"infinity", "inf", "nan"}; static const size_t wl[3] = {8, 3, 3};
        for(int j = 0; j < 3; ++j)
            for(size_t kk = 0; kk < 2; ++kk) // concrete offsets
            {
                if(k != kk || n < kk + wl[j]) continue;
                bool eq = true; for(size_t i = 0; i < wl[j]; ++i) eq = eq & (s[kk + i] == w[j][i]);
                if(eq && (ne == kk + wl[j] || delim(s[kk + wl[j]]))) return kk + wl[j];
            }
    }
    unsigned r = 10; bool prefixed = false;
    if(k + 1 < ne && s[k] == '0') { char c = s[k+1]; r = rdx(c); prefixed = r != 10; }
    unsigned st = S_INT; bool digs = false, edigs = false; size_t end = 0; bool found = false, stop = false;
    for(size_t i = 0; i <= n; ++i)
    {
        if(i < k + (prefixed ? 2 : 0) || stop) continue;
        bool last = i == ne; char c = last ? '\0' : s[i];
        if(last || delim(c))
        {
            stop = true;
            if((st == S_INT || st == S_FRAC) ? digs : (st == S_EXP && edigs)) { found = true; end = i; }
        }
        else if(st == S_INT || st == S_FRAC)
        {
            if(isdig(c, r)) digs = true;
            else if(kind == 2 && c == '.' && st == S_INT) st = S_FRAC;
            else if(kind == 2 && digs && r == 10 && (c == 'e' || c == 'E')) st = S_EXP0;
            else if(kind == 2 && digs && r != 10 && (c == 'p' || c == 'P')) st = S_EXP1;
            else stop = true;
        }
        else if(st == S_EXP0 || st == S_EXP1)
        {
            if(c == '+' || c == '-') st = S_EXP;
            else if(st == S_EXP0 && isdig(c, 10)) { st = S_EXP; edigs = true; }
            else stop = true;
        }
        else { if(isdig(c, 10)) edigs = true; else stop = true; }
    }
    return found ? end : 0;
}
// ---- C07. params: leading blanks, following characters, kind, is_xxx instead of the span
extern "C" void h_span()
{
    size_t lead = vf_param(0), n = vf_param(1), len = lead + n; unsigned kind = (unsigned)vf_param(2); bool whole = vf_param(3);
    char *s = vf_buf(len); csubstr str(s, len);
    for(size_t i = 0; i < lead; ++i) vf_assume(blank(s[i]));
    if(n) vf_assume(!blank(s[lead]));
    size_t want = n ? token(s + lead, n, kind) : 0;
    if(!whole)
    {
        csubstr got = kind == 0 ? str.first_uint_span() : kind == 1 ? str.first_int_span() : str.first_real_span();
        vf_assert(got.len == want, "length of the numeric span");
        if(want) vf_assert(got.str == s + lead, "the span begins at the first non-blank character");
        else vf_assert(got.str >= s && got.str <= s + len, "an empty span lies inside the string");
        substr m = kind == 0 ? substr(s, len).first_uint_span() : kind == 1 ? substr(s, len).first_int_span() : substr(s, len).first_real_span();
        vf_assert(m.str == got.str && m.len == got.len, "the mutable view finds the same span");
    }
    else
    {
        bool is = len > 0 && lead == 0 && want == len;
        vf_assert((kind == 0 ? str.is_unsigned_integer() : kind == 1 ? str.is_integer() : str.is_real()) == is, "whole string is a number of this kind");
        if(kind == 2) vf_assert(str.is_number() == is, "is_number is the union"); // every integer is also a real
    }
    vf_cover(n == 0 || (kind == 2 && whole && lead) || want > 0 || (n == 1 && whole), "token"); vf_cover(want == 0, "none");
}

// ---- C06. params: leading blanks, following characters. Reading the first token: value of the token, characters consumed
static const size_t NPOS = csubstr::npos;
template<class T> static void first()
{
    size_t lead = vf_param(0), n = vf_param(1), len = lead + n; const unsigned kind = std::is_floating_point<T>::value ? 2 : std::is_signed<T>::value ? 1 : 0;
    char *s = vf_buf(len); csubstr str(s, len);
    for(size_t i = 0; i < lead; ++i) vf_assume(blank(s[i]));
    if(n) vf_assume(!blank(s[lead]));
    size_t tl = n ? token(s + lead, n, kind) : 0;
    T v = (T)77, w = (T)77; size_t r = from_chars_first(str, &v);
    if(tl == 0 || s[lead] == '+') vf_assert(r == NPOS, "fails when there is no number");
    else
    {
        vf_assert(r == lead + tl, "returns the number of characters consumed");
        bool ok = from_chars(csubstr(s + lead, tl), &w);
        vf_assert(ok && v == w, "same value as the token alone");
    }
    vf_cover(tl > 0 || n == 0, "token"); vf_cover(tl == 0, "none");
}
#define T8(f, n) extern "C" void n##_i8() { f<int8_t>(); } extern "C" void n##_u8() { f<uint8_t>(); } extern "C" void n##_i16() { f<int16_t>(); } extern "C" void n##_u16() { f<uint16_t>(); } \
    extern "C" void n##_i32() { f<int32_t>(); } extern "C" void n##_u32() { f<uint32_t>(); } extern "C" void n##_i64() { f<int64_t>(); } extern "C" void n##_u64() { f<uint64_t>(); }
T8(first, h_first)
// params: leading blanks, following characters, kind (0 bool, 1 csubstr, 2 substr, 3 char, 4 pointer), destination size (substr)
extern "C" void h_firstx()
{
    size_t lead = vf_param(0), n = vf_param(1), len = lead + n, kind = vf_param(2), dl = vf_param(3);
    char *s = vf_buf(len); csubstr str(s, len);
    for(size_t i = 0; i < lead; ++i) vf_assume(blank(s[i]));
    if(n) vf_assume(!blank(s[lead]));
    size_t tl = n; for(size_t i = n; i > 0; --i) if(blank(s[lead + i - 1])) tl = i - 1;
    size_t r;
    if(kind == 0)
    {
        if(n) vf_assume(s[lead] != '+'); // atoi's precondition
        bool v = false, w = false; r = from_chars_first(str, &v);
        bool ok = tl && from_chars(csubstr(s + lead, tl), &w);
        vf_assert(r == (ok ? lead + tl : NPOS), "bool: consumed");
        if(ok) vf_assert(v == w, "bool: value");
        vf_cover(ok || n == 0, "ok");
    }
    else if(kind == 1)
    {
        csubstr v; r = from_chars_first(substr(s, len), &v);
        vf_assert(r == (tl ? lead + tl : NPOS), "string: consumed");
        if(tl) vf_assert(v.str == s + lead && v.len == tl, "string: the token");
    }
    else if(kind == 2)
    {
        char *d = vf_buf(dl + 1), sentinel = d[dl]; substr v(d, dl); r = from_chars_first(str, &v);
        vf_assert(r == (tl && tl <= dl ? lead + tl : NPOS), "copied string: consumed");
        if(tl && tl <= dl) for(size_t i = 0; i < dl; ++i) if(i < tl) vf_assert(d[i] == s[lead + i], "copied string: contents");
        vf_assert(d[dl] == sentinel, "copied string: bounds");
    }
    else if(kind == 3)
    {
        char v = 0; r = from_chars_first(str, &v);
        vf_assert(r == (len ? 1 : NPOS), "character: consumed"); if(len) vf_assert(v == s[0], "character: value");
    }
    else
    {
        size_t t2 = n ? token(s + lead, n, 1) : 0; intptr_t w = 0; int dummy; int *v = &dummy; r = from_chars_first(str, &v);
        if(t2 && s[lead] != '+') { bool ok = from_chars(csubstr(s + lead, t2), &w); vf_assert(ok && r == lead + t2 && (intptr_t)v == w, "pointer: value and consumed"); }
        else vf_assert(r == NPOS, "pointer: failure");
    }
    vf_cover(true, "end");
}
