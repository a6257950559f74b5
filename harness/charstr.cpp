// C35: bool, character and string values; C36: std bridges
#include "vf.h"
#include <c4/charconv.hpp>
#include <c4/std/string.hpp>
#include <c4/std/string_view.hpp>
#include <c4/std/vector.hpp>
#include <c4/format.cpp>
using namespace c4;
static bool is(const char *a, size_t n, const char *lit) { for(size_t i = 0; i < n; ++i) if(!lit[i] || a[i] != lit[i]) return false; return lit[n] == 0; }
static bool blank(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool eq(const char *a, const char *b, size_t n) { for(size_t i = 0; i < n; ++i) if(a[i] != b[i]) return false; return true; }
// bool to text and back. params: buffer size
extern "C" void h_bool()
{
    size_t n = vf_param(0); char *s = vf_buf(n); bool v = vf_bool(); size_t r = to_chars(substr(s, n), v); vf_assert(r == 1, "bool: one character"); if(n) { vf_assert(s[0] == (v ? '1' : '0'), "bool: 0 or 1"); bool w = vf_bool(); vf_assert(from_chars(csubstr(s, 1), &w) && w == v, "bool and back"); }
    substr t = to_chars_sub(substr(s, n), v); vf_assert(t.str == s && t.len == (n ? 1u : 0u), "to_chars_sub"); vf_cover(true, "end");
}
// text to bool. params: length
extern "C" void h_boolrd()
{
    size_t n = vf_param(0); char *s = vf_buf(n); for(size_t i = 0; i < n; ++i) vf_assume(s[i] != '+'); bool init = vf_bool(), v = init; bool ok = from_chars(csubstr(s, n), &v);
    bool T = is(s, n, "1") || is(s, n, "true") || is(s, n, "True") || is(s, n, "TRUE"), F = is(s, n, "0") || is(s, n, "false") || is(s, n, "False") || is(s, n, "FALSE");
    if(T || F) vf_assert(ok && v == T, "the words of bool");
    else if(n && n < 8) { size_t d = s[0] == '-' || s[0] == '+'; bool dec = d < n, nz = false; for(size_t i = d; i < n; ++i) { if(s[i] < '0' || s[i] > '9') dec = false; nz = nz || s[i] != '0'; } bool num = n > d + 2 && s[d] == '0' && (s[d + 1] == 'x' || s[d + 1] == 'X' || s[d + 1] == 'b' || s[d + 1] == 'B' || s[d + 1] == 'o' || s[d + 1] == 'O');
        if(dec && s[0] != '+') vf_assert(ok && v == nz, "an integer: whether it is not zero"); if(!dec && !num) vf_assert(!ok && v == init, "not a bool, not an integer"); }
    if(!ok) vf_assert(v == init, "refused: untouched"); if(n == 0) vf_assert(!ok, "empty: refused");
    bool w = init; size_t f = from_chars_first(csubstr(s, n), &w); size_t b = 0; while(b < n && blank(s[b])) ++b; size_t e = b; while(e < n && !blank(s[e])) ++e; bool x = init; bool okx = b < e && from_chars(csubstr(s + b, e - b), &x);
    vf_assert(f == (okx ? e : csubstr::npos) && w == x, "first: the first word"); vf_cover(ok || n > 5, "ok"); vf_cover(!ok, "refused"); vf_cover(f != csubstr::npos || n == 0, "first");
}
// characters. params: size
extern "C" void h_char()
{
    size_t n = vf_param(0); char *s = vf_buf(n), *k = vf_buf(n); for(size_t i = 0; i < n; ++i) k[i] = s[i]; char c = vf_char(), init = vf_char(), v = init; bool ok = from_chars(csubstr(s, n), &v); vf_assert(ok == (n == 1) && v == (ok ? s[0] : init), "one character"); v = init; size_t f = from_chars_first(csubstr(s, n), &v); vf_assert(f == (n ? 1 : csubstr::npos) && v == (n ? s[0] : init), "the first character");
    size_t r = to_chars(substr(s, n), c); vf_assert(r == 1, "one"); for(size_t i = 0; i < n; ++i) vf_assert(s[i] == (i ? k[i] : c), "the character and nothing else"); vf_cover(true, "end");
}
// string values into buffers. params: text length, buffer size, form
extern "C" void h_strwr()
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *b = vf_buf(m), *k = vf_buf(m); for(size_t i = 0; i < m; ++i) k[i] = b[i]; substr buf(m ? b : nullptr, m); size_t r = 0; char *z = nullptr;
    switch(vf_param(2))
    {
    case 0: r = to_chars(buf, csubstr(n ? s : nullptr, n)); break;
    case 1: r = to_chars(buf, substr(n ? s : nullptr, n)); break;
    case 2: z = (char*)vf_alloc(n + 1); for(size_t i = 0; i < n; ++i) { vf_assume(s[i] != 0); z[i] = s[i]; } z[n] = 0; r = to_chars(buf, (const char*)z); break;
    case 3: { std::string t(s, n); r = to_chars(buf, t); break; }
    case 4: { std::vector<char> t(s, s + n); r = to_chars(buf, t); break; }
    case 5: { std::string_view t(n ? s : nullptr, n); r = to_chars(buf, t); break; }
    case 6: { substr t = to_chars_sub(buf, csubstr(s, n)); vf_assert(t.str == buf.str && t.len == (n < m ? n : m), "to_chars_sub: what was written"); r = n; break; }
    }
    vf_assert(r == n, "the needed size"); for(size_t i = 0; i < m; ++i) { if(n <= m) vf_assert(b[i] == (i < n ? s[i] : k[i]), "the text and nothing else"); } vf_cover(true, "end");
}
// text into string values. params: text length, destination size, form
extern "C" void h_strrd()
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *d = vf_buf(m), *k = vf_buf(m); for(size_t i = 0; i < m; ++i) k[i] = d[i]; csubstr src(n ? s : nullptr, n); size_t b = 0; while(b < n && blank(s[b])) ++b; size_t e = b; while(e < n && !blank(s[e])) ++e; if(b == n) e = b;
    switch(vf_param(2))
    {
    case 0: { csubstr v; bool ok = from_chars(src, &v); vf_assert(ok && v.str == src.str && v.len == n, "csubstr: a view of the text"); break; }
    case 1: { substr v(m ? d : nullptr, m); char *p = v.str; bool ok = from_chars(src, &v); vf_assert(ok == (n <= m), "substr: if it fits"); vf_assert(v.str == p && v.len == (ok ? n : m), "substr: holds the text"); for(size_t i = 0; i < m; ++i) vf_assert(d[i] == (ok && i < n ? s[i] : k[i]), "substr: the text and nothing else"); break; }
    case 2: { csubstr v("q"); size_t r = from_chars_first(substr(n ? s : nullptr, n), &v); vf_assert(r == (b < e ? e : csubstr::npos), "first csubstr: length"); if(b < e) vf_assert(v.str == s + b && v.len == e - b, "first csubstr: the word"); break; }
    case 3: { substr v(m ? d : nullptr, m); size_t r = from_chars_first(src, &v); bool ok = b < e && e - b <= m; vf_assert(r == (ok ? e : csubstr::npos), "first substr: length"); if(ok) vf_assert(eq(d, s + b, e - b), "first substr: the word"); if(b == e || ok) for(size_t i = ok ? e - b : 0; i < m; ++i) vf_assert(d[i] == k[i], "first substr: nothing else"); break; }
    case 4: { std::string v(d, m); bool ok = from_chars(src, &v); vf_assert(ok && v.size() == n && eq(v.data(), s, n) && v.c_str()[n] == 0, "string: holds exactly the text"); break; }
    case 5: { std::vector<char> v(d, d + m); bool ok = from_chars(src, &v); vf_assert(ok && v.size() == n && eq(v.data(), s, n), "vector: holds exactly the text"); break; }
    }
    vf_cover(true, "end");
}
// views and comparisons. params: two lengths
static int sgn(int v) { return v < 0 ? -1 : v > 0; }
static int lex(const char *a, size_t n, const char *b, size_t m) { for(size_t i = 0; i < n && i < m; ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1; return n < m ? -1 : n > m; }
template<class S> static void cmp(csubstr a, S const& b, int c)
{
    vf_assert((a == b) == (c == 0) && (a != b) == (c != 0) && (a < b) == (c < 0) && (a <= b) == (c <= 0) && (a > b) == (c > 0) && (a >= b) == (c >= 0), "view against container");
    vf_assert((b == a) == (c == 0) && (b != a) == (c != 0) && (b > a) == (c < 0) && (b >= a) == (c <= 0) && (b < a) == (c > 0) && (b <= a) == (c >= 0), "container against view");
}
extern "C" void h_views()
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *t = vf_buf(m); csubstr a(s, n); int c = lex(s, n, t, m);
    switch(vf_param(2))
    {
    case 0: { std::string v(t, m); const std::string &cv = v; substr w = to_substr(v); csubstr r = to_csubstr(cv); vf_assert(w.len == m && r.len == m && w.str == v.data() && r.str == v.data(), "string: exactly its memory"); if(m) { w[m - 1] = 'x'; vf_assert(v[m - 1] == 'x', "string: writable"); w[m - 1] = t[m - 1]; } cmp(a, v, c); break; }
    case 1: { std::vector<char> v(t, t + m); const std::vector<char> &cv = v; substr w = to_substr(v); csubstr r = to_csubstr(cv); vf_assert(w.len == m && r.len == m && (m == 0 || (w.str == v.data() && r.str == v.data())), "vector: exactly its memory"); if(m) { w[m - 1] = 'x'; vf_assert(v[m - 1] == 'x', "vector: writable"); w[m - 1] = t[m - 1]; } cmp(a, v, c); break; }
    case 2: { std::string_view v(t, m); csubstr r = to_csubstr(v); vf_assert(r.str == t && r.len == m, "string_view: exactly its memory"); cmp(a, v, c); break; }
    }
    vf_cover(true, "end");
}
