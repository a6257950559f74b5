// C13 C14 C15 C16 C17 C18 C19: string views
#include "vf.h"
#include <c4/substr.hpp>
#include <c4/std/string.hpp>
#include <c4/std/string_view.hpp>
#include <c4/std/vector.hpp>
using namespace c4;
#define NP ((size_t)-1)
static size_t anypos(size_t n) { size_t v = vf_u64(); vf_assume(v <= n || v == NP); return v; }
// v is exactly s[b,e)
#define IS_VIEW(v, s, b, e, what) do { auto vv_ = (v); vf_assert(vv_.str == (s) + (b) && vv_.len == (e) - (b), what); } while(0)
// v has the characters s[b,e), and if not empty is that very view
#define IS_PIECE(v, s, n, b, e, what) do { auto vv_ = (v); vf_assert(vv_.len == (e) - (b) && (vv_.len == 0 || vv_.str == (s) + (b)), what); } while(0)
#define INSIDE(v, s, n, what) do { auto vv_ = (v); vf_assert(vv_.str >= (s) && vv_.len <= (n) && vv_.str + vv_.len <= (s) + (n), what); } while(0)
#define EMPTY(v, s, n, what) do { auto vv_ = (v); vf_assert(vv_.len == 0 && (vv_.str == nullptr || (vv_.str >= (s) && vv_.str <= (s) + (n))), what); } while(0)

//------------------------------------------------------------------ C13
// contents never matter: the string has symbolic length up to a bound
template<class S> static void slice()
{
    size_t N = vf_param(0);
    char *s = (char*)vf_alloc(N);
    size_t n = vf_upto(N);
    S v(s, n);
    size_t a = vf_u64(), b = vf_u64();
    bool inc = vf_bool();
    if(a <= n) IS_VIEW(v.sub(a), s, a, n, "sub(first)");
    if(a <= n && (b == NP || b <= n - a)) IS_VIEW(v.sub(a, b), s, a, b == NP ? n : a + b, "sub(first,num)");
    if(a <= n && (b == NP || (b >= a && b <= n))) IS_VIEW(v.range(a, b), s, a, b == NP ? n : b, "range(first,last)");
    if(a <= n) IS_VIEW(v.range(a), s, a, n, "range(first)");
    if(a <= n || a == NP)
    {
        size_t p = a == NP ? n : a;
        IS_VIEW(v.first(a), s, 0, p, "first(num)");
        IS_VIEW(v.last(a), s, n - p, n, "last(num)");
        IS_VIEW(v.left_of(a), s, 0, p, "left_of(pos)");
        IS_VIEW(v.left_of(a, inc), s, 0, inc && p < n ? p + 1 : p, "left_of(pos,include)");
        IS_PIECE(v.right_of(a), s, n, p < n ? p + 1 : n, n, "right_of(pos)");
        INSIDE(v.right_of(a), s, n, "right_of(pos) stays inside");
        IS_PIECE(v.right_of(a, inc), s, n, p < n && !inc ? p + 1 : p, n, "right_of(pos,include)");
        INSIDE(v.right_of(a, inc), s, n, "right_of(pos,include) stays inside");
    }
    if(a <= n && b <= n - a)
    {
        IS_VIEW(v.offs(a, b), s, a, n - b, "offs(left,right)");
        csubstr x(s + a, b);
        IS_VIEW(v.left_of(x), s, 0, a, "left_of(view)");
        IS_VIEW(v.right_of(x), s, a + b, n, "right_of(view)");
        if(n) vf_assert(x.is_sub(v) && v.is_super(x), "sub-views are recognized");
        if(b) vf_assert(v.overlaps(x) && x.overlaps(v), "overlap of a sub-view");
        size_t c = vf_u64(), d = vf_u64();
        if(c <= n && d <= n - c)
        {
            csubstr y(s + c, d);
            if(b && d) vf_assert(x.overlaps(y) == (a < c + d && c < a + b), "overlaps: at least one common element");
            vf_assert(x.overlaps(y) == y.overlaps(x) || !b || !d, "overlaps is symmetric");
            if(b) vf_assert(x.is_super(y) == (c >= a && c + d <= a + b), "is_super: contained range");
            if(b) vf_assert(y.is_sub(x) == x.is_super(y), "is_sub mirrors is_super");
            vf_cover(b && d && x.overlaps(y) && !x.is_super(y), "partial overlap");
        }
    }
    vf_assert(v.size() == n && v.begin() == s && v.end() == s + n && v.data() == s, "accessors");
    vf_assert(v.empty() == (n == 0) && v.not_empty() == (n != 0), "empty");
    if(a < n) vf_assert(&v[a] == s + a, "indexing");
    if(n) vf_assert(&v.front() == s && &v.back() == s + n - 1, "front and back");
    vf_cover(a == n && n > 0 && b == NP, "edge position");
    vf_cover(a == NP, "npos");
}
extern "C" void h_slice_c() { slice<csubstr>(); }
extern "C" void h_slice() { slice<substr>(); }
// construction from pointer pairs and C strings
extern "C" void h_make()
{
    size_t n = vf_param(0);
    char *s = vf_buf(n + 1); s[n] = 0;
    size_t z = n; for(size_t i = n; i > 0; --i) if(s[i-1] == 0) z = i - 1;
    csubstr a((const char*)s), b(s, s + n), c(s, n), d; substr e((char*)s), f(s, n);
    vf_assert(a.str == s && a.len == z && e.str == s && e.len == z, "C string ends at its terminator");
    vf_assert(b.str == s && b.len == n && c.str == s && c.len == n && f.str == s && f.len == n, "pointer pair and pointer+size");
    vf_assert(d.str == nullptr && d.len == 0, "default is null");
    d.assign((const char*)s); vf_assert(d.str == s && d.len == z, "assign C string");
    d = nullptr; vf_assert(d.str == nullptr && d.len == 0, "assign null");
    d.assign(s, n); vf_assert(d.str == s && d.len == n, "assign pointer+size");
    d.assign(s, s + n); vf_assert(d.str == s && d.len == n, "assign pointers");
    d = (const char*)s; vf_assert(d.str == s && d.len == z, "operator= C string");
    csubstr g = to_csubstr((const char*)s), h = to_csubstr(f); substr k = to_substr((char*)s);
    vf_assert(g.str == s && g.len == z && h.str == s && h.len == n && k.str == s && k.len == z, "adapters");
    vf_assert(c.has_str() == (n > 0 && s[0] != 0), "has_str");
    char arr[4]; vf_fill(arr, 4);
    csubstr m = to_csubstr((const char(&)[4])arr); substr q(arr);
    vf_assert(m.str == arr && m.len == 3 && q.str == arr && q.len == 3, "arrays exclude the last element");
    const char *null = nullptr; csubstr r(null); vf_assert(r.str == nullptr && r.len == 0, "null C string");
    vf_cover(true, "end");
}
//------------------------------------------------------------------ C14
extern "C" void h_findc() // single characters
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr v(s, n);
    char c = vf_char(); size_t p = vf_param(1) > n ? NP : vf_param(1), p0 = p == NP ? n : p;
    size_t fi = NP, la = NP, fn = NP, ln = NP, cnt = 0, fn0 = NP, ln0 = NP, f0 = NP, l0 = NP;
    for(size_t i = 0; i < n; ++i)
    {
        if(s[i] == c)
        {
            if(i >= p0) { if(fi == NP) fi = i; ++cnt; }
            if(i < p0) la = i;
            if(f0 == NP) f0 = i;
            l0 = i;
        }
        else
        {
            if(i >= p0 && fn == NP) fn = i;
            if(i < p0) ln = i;
            if(fn0 == NP) fn0 = i;
            ln0 = i;
        }
    }
    vf_assert(v.find(c, p) == fi, "find(char,pos)");
    vf_assert(v.first_of(c, p) == fi, "first_of(char,pos)");
    vf_assert(v.last_of(c, p) == la, "last_of(char,pos)");
    vf_assert(v.find(c) == f0 && v.first_of(c) == f0 && v.last_of(c) == l0, "default positions");
    vf_assert(v.last_not_of(c, p) == ln, "last_not_of(char,pos)");
    vf_assert(v.first_not_of(c) == fn0 && v.last_not_of(c) == ln0, "not_of(char)");
    if(p != NP)
    {
        vf_assert(v.first_not_of(c, p) == fn, "first_not_of(char,pos)");
        vf_assert(v.count(c, p) == cnt, "count(char,pos)");
        csubstr x = v.select(c, p);
        if(fi == NP) EMPTY(x, s, n, "select misses"); else IS_VIEW(x, s, fi, fi + 1, "select hits");
    }
    vf_assert(v.begins_with(c) == (n > 0 && s[0] == c), "begins_with(char)");
    vf_assert(v.ends_with(c) == (n > 0 && s[n-1] == c), "ends_with(char)");
    size_t num = vf_param(1); bool b = num <= n, e = num <= n;
    for(size_t i = 0; i < n; ++i) { if(i < num && s[i] != c) b = false; if(i < num && s[n-1-i] != c) e = false; }
    vf_assert(v.begins_with(c, num) == b, "begins_with(char,num)");
    vf_assert(v.ends_with(c, num) == e, "ends_with(char,num)");
    vf_cover(cnt + p0 == n, "all match"); vf_cover(fi == NP, "miss");
}
extern "C" void h_findset() // character sets
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *t = vf_buf(m); csubstr v(s, n), set(t, m);
    size_t p = vf_param(2) > n ? NP : vf_param(2), p0 = p == NP ? n : p;
    size_t fi = NP, la = NP, fn = NP, ln = NP, fn0 = NP, ln0 = NP;
    bool bw = false, ew = false;
    for(size_t i = 0; i < n; ++i)
    {
        bool in = false; for(size_t j = 0; j < m; ++j) in = in || s[i] == t[j];
        if(in) { if(i >= p0 && fi == NP) fi = i; if(i < p0) la = i; if(i == 0) bw = true; if(i == n-1) ew = true; }
        else { if(i >= p0 && fn == NP) fn = i; if(i < p0) ln = i; if(fn0 == NP) fn0 = i; ln0 = i; }
    }
    vf_assert(v.first_of(set, p) == fi, "first_of(set,pos)");
    vf_assert(v.last_of(set, p) == la, "last_of(set,pos)");
    vf_assert(v.last_not_of(set, p) == ln, "last_not_of(set,pos)");
    vf_assert(v.first_not_of(set) == fn0 && v.last_not_of(set) == ln0, "not_of(set)");
    if(p != NP) vf_assert(v.first_not_of(set, p) == fn, "first_not_of(set,pos)");
    vf_assert(v.begins_with_any(set) == bw, "begins_with_any");
    vf_assert(v.ends_with_any(set) == ew, "ends_with_any");
    vf_cover(p0 == n || m == 0 || fi != NP, "hit"); vf_cover(fi == NP, "miss");
}
static bool at(const char *s, size_t n, size_t i, const char *t, size_t m) { if(i > n || m > n - i) return false; for(size_t j = 0; j < m; ++j) if(s[i+j] != t[j]) return false; return true; }
extern "C" void h_findstr() // patterns
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *t = vf_buf(m); csubstr v(s, n), pat(t, m);
    size_t p = vf_param(2);
    size_t fi = NP, cnt = 0, skip = p;
    for(size_t i = 0; i + m <= n; ++i)
    {
        if(i >= p && at(s, n, i, t, m))
        {
            if(fi == NP) fi = i;
            if(i >= skip) { ++cnt; skip = i + (m ? m : 1); }
        }
    }
    vf_assert(v.find(pat, p) == fi, "find(pattern,pos)");
    vf_assert(v.find(pat, NP) == NP, "find(pattern,npos)");
    if(p == 0) vf_assert(v.find(pat) == fi, "find(pattern)");
    vf_assert(v.count(pat, p) == cnt, "count(pattern,pos)");
    csubstr x = v.select(pat, p);
    if(fi == NP) EMPTY(x, s, n, "select(pattern) misses"); else IS_VIEW(x, s, fi, fi + m, "select(pattern) hits");
    vf_assert(v.begins_with(pat) == at(s, n, 0, t, m), "begins_with(pattern)");
    vf_assert(v.ends_with(pat) == (m <= n && at(s, n, n - m, t, m)), "ends_with(pattern)");
    vf_cover(m + p > n || fi != NP, "hit"); vf_cover(m == 0 || fi == NP, "miss"); vf_cover(m == 0 || n < 2*m + p || cnt >= 2, "two matches");
}
extern "C" void h_any() // first_of_any
{
    size_t n = vf_param(0), m0 = vf_param(1), m1 = vf_param(2), k = vf_param(3); char *s = vf_buf(n); csubstr v(s, n);
    size_t ml[5] = {m0, m1, 1, m0, 2}; char *t[5]; for(size_t j = 0; j < k; ++j) t[j] = vf_buf(ml[j]);
    csubstr::first_of_any_result r =
        k == 2 ? v.first_of_any(csubstr(t[0], ml[0]), csubstr(t[1], ml[1])) :
        k == 3 ? v.first_of_any(csubstr(t[0], ml[0]), csubstr(t[1], ml[1]), csubstr(t[2], ml[2])) :
        k == 4 ? v.first_of_any(csubstr(t[0], ml[0]), csubstr(t[1], ml[1]), csubstr(t[2], ml[2]), csubstr(t[3], ml[3])) :
                 v.first_of_any(csubstr(t[0], ml[0]), csubstr(t[1], ml[1]), csubstr(t[2], ml[2]), csubstr(t[3], ml[3]), csubstr(t[4], ml[4]));
    size_t pos = NP, which = NP;
    for(size_t i = n; i > 0; --i) for(size_t j = k; j > 0; --j) if(at(s, n, i-1, t[j-1], ml[j-1])) { pos = i-1; which = j-1; }
    vf_assert(r.pos == pos && r.which == which, "earliest match, first listed pattern");
    vf_assert(bool(r) == (pos != NP), "result converts to whether found");
    vf_cover(pos == NP || m0 == 0 || m1 == 0, "miss"); vf_cover(n < 2 || (pos != NP && which == 1), "second pattern");
}
//------------------------------------------------------------------ C15
extern "C" void h_trim()
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *t = vf_buf(m); csubstr v(s, n), set(t, m);
    char c = vf_char();
    for(int k = 0; k < 2; ++k)
    {
        size_t b = 0, e = n; bool go = true;
        for(size_t i = 0; i < n; ++i) { bool in = false; if(k) { for(size_t j = 0; j < m; ++j) in = in || s[i] == t[j]; } else in = s[i] == c; if(go && in) b = i + 1; else go = false; }
        go = true;
        for(size_t i = n; i > 0; --i) { bool in = false; if(k) { for(size_t j = 0; j < m; ++j) in = in || s[i-1] == t[j]; } else in = s[i-1] == c; if(go && in) e = i - 1; else go = false; }
        csubstr l = k ? v.triml(set) : v.triml(c), r = k ? v.trimr(set) : v.trimr(c), x = k ? v.trim(set) : v.trim(c);
        IS_PIECE(l, s, n, b, n, "triml removes the leading run"); INSIDE(l, s, n, "triml inside");
        IS_PIECE(r, s, n, 0, e, "trimr removes the trailing run"); INSIDE(r, s, n, "trimr inside");
        size_t e2 = b == n ? b : e;
        IS_PIECE(x, s, n, b, e2, "trim removes both runs"); INSIDE(x, s, n, "trim inside");
        vf_cover(n < 3 || (b == 1 && e == n - 1), "both ends trimmed");
        vf_cover(b == n, "everything trimmed");
    }
}
extern "C" void h_strip()
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *t = vf_buf(m); csubstr v(s, n), pat(t, m);
    bool bl = at(s, n, 0, t, m), br = m <= n && at(s, n, n - m, t, m);
    IS_VIEW(v.stripl(pat), s, bl ? m : 0, n, "stripl removes the pattern once");
    IS_VIEW(v.stripr(pat), s, 0, br ? n - m : n, "stripr removes the pattern once");
    vf_cover(m > n || bl, "strips left"); vf_cover(m == 0 || !br, "strips nothing");
}
extern "C" void h_unquoted()
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr v(s, n);
    bool q = n >= 2 && (s[0] == '"' || s[0] == '\'') && s[n-1] == s[0] && s[n-2] != '\\';
    csubstr u = v.unquoted();
    IS_VIEW(u, s, q ? 1 : 0, q ? n - 1 : n, "unquoted removes one matching pair");
    vf_cover(n < 2 || q, "quoted"); vf_cover(!q, "not quoted");
}
//------------------------------------------------------------------ C16
extern "C" void h_pair()
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr v(s, n); char o = vf_char(), c = vf_char();
    vf_assume(o != c);
    size_t b = NP; for(size_t i = n; i > 0; --i) if(s[i-1] == o) b = i - 1;
    size_t e = NP, en = NP, depth = 0; bool nest = false;
    for(size_t i = 0; i < n; ++i) if(b != NP && i > b)
    {
        if(s[i] == c && e == NP) e = i;
        if(s[i] == o && e == NP) nest = true;
        if(en == NP) { if(s[i] == o) ++depth; else if(s[i] == c) { if(depth == 0) en = i; else --depth; } }
    }
    csubstr r = v.pair_range_nested(o, c);
    if(en == NP) EMPTY(r, s, n, "unbalanced"); else IS_VIEW(r, s, b, en + 1, "nested pair: first opening to its match");
    vf_cover(n < 4 || (en == n - 1 && nest), "nested"); vf_cover(en == NP, "none");
    if(!(nest && e != NP)) // documented: no nested pairs
    {
        r = v.pair_range(o, c);
        if(e == NP) EMPTY(r, s, n, "no pair"); else IS_VIEW(r, s, b, e + 1, "pair: opening to closing");
        vf_cover(n < 2 || e == n - 1, "pair");
    }
}
extern "C" void h_pair_esc()
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr v(s, n); char q = vf_char(), x = vf_bool() ? '\\' : vf_char();
    vf_assume(q != x);
    size_t b = NP; for(size_t i = n; i > 0; --i) if(s[i-1] == q) b = i - 1;
    size_t e = NP; for(size_t i = 1; i < n; ++i) if(b != NP && i > b && e == NP && s[i] == q && s[i-1] != x) e = i;
    csubstr r = v.pair_range_esc(q, x);
    if(e == NP) EMPTY(r, s, n, "no closing quote"); else IS_VIEW(r, s, b, e + 1, "quote to first unescaped quote");
    if(x == '\\') { csubstr r2 = v.pair_range_esc(q); vf_assert(r2.str == r.str && r2.len == r.len, "backslash is the default escape"); }
    vf_cover(n < 4 || (e == n - 1 && s[1] == x && s[2] == q && b == 0), "escaped quote inside"); vf_cover(e == NP, "none");
}
extern "C" void h_nonempty()
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr v(s, n);
    size_t b = n, e = n; bool in = false;
    for(size_t i = n; i > 0; --i) { char c = s[i-1]; bool bl = c == ' ' || c == '\t' || c == '\n' || c == '\r'; if(!bl) b = i - 1; }
    for(size_t i = n; i > 0; --i) { char c = s[i-1]; bool bl = c == ' ' || c == '\t' || c == '\n' || c == '\r'; if(bl && i - 1 >= b) e = i - 1; }
    csubstr r = v.first_non_empty_span();
    if(b == n) { vf_assert(r.len == 0, "all blank"); INSIDE(r, s, n, "inside"); } else IS_VIEW(r, s, b, e, "first run of non-blanks");
    vf_cover(n < 3 || (b == 1 && e == 2), "inner span"); vf_cover(n == 0 || b == n, "all blank");
}
//------------------------------------------------------------------ C17
static int sgn(int x) { return x < 0 ? -1 : x > 0 ? 1 : 0; }
static int ref_cmp(const char *a, size_t n, const char *b, size_t m)
{
    for(size_t i = 0; i < n && i < m; ++i) if(a[i] != b[i]) return a[i] < b[i] ? -1 : 1;
    return n < m ? -1 : n > m ? 1 : 0;
}
template<class X, class Y> static void rel(X const& a, Y const& b, int r)
{
    vf_assert((a == b) == (r == 0), "=="); vf_assert((a != b) == (r != 0), "!=");
    vf_assert((a < b) == (r < 0), "<");   vf_assert((a <= b) == (r <= 0), "<=");
    vf_assert((a > b) == (r > 0), ">");   vf_assert((a >= b) == (r >= 0), ">=");
}
extern "C" void h_cmp()
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *t = vf_buf(m);
    csubstr a(s, n), b(t, m); substr ra(s, n), rb(t, m);
    int r = ref_cmp(s, n, t, m);
    vf_assert(sgn(a.compare(b)) == r, "compare is lexicographic");
    vf_assert(sgn(b.compare(a)) == -r, "compare is antisymmetric");
    vf_assert(sgn(a.compare(t, m)) == r, "compare(ptr,size)");
    rel(a, b, r); rel(ra, b, r); rel(a, rb, r); rel(ra, rb, r);
    vf_assert((a == nullptr) == (a.str == nullptr) && (a != nullptr) == (a.str != nullptr), "null comparison");
    vf_cover(n != m || r == 0, "equal"); vf_cover((n == 0 && m == 0) || r != 0, "different");
}
extern "C" void h_cmp_null()
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr a(s, n), z;
    int r = n ? 1 : 0;
    vf_assert(sgn(a.compare(z)) == r && sgn(z.compare(a)) == -r, "null view is the empty string");
    rel(a, z, r); rel(z, a, -r); rel(z, csubstr{}, 0);
    vf_assert(z == nullptr && !(z != nullptr), "null is null");
    char c = vf_char();
    rel(z, c, -1); rel(c, z, 1);
    vf_cover(true, "end");
}
extern "C" void h_cmp_trans()
{
    size_t n = vf_param(0), m = vf_param(1), k = vf_param(2); char *s = vf_buf(n), *t = vf_buf(m), *u = vf_buf(k);
    csubstr a(s, n), b(t, m), c(u, k);
    if(a <= b && b <= c) vf_assert(a <= c, "transitive");
    if(a < b && b < c) vf_assert(a < c, "strictly transitive");
    if(a == b && b == c) vf_assert(a == c, "equality is transitive");
    vf_cover((n == 0 && m == 0) || (m == 0 && k == 0) || m == 0 || k == 0 || (a < b && b < c), "chain");
    vf_cover(a >= b, "reverse");
}
extern "C" void h_cmp_char()
{   // the length is unbounded: only the first character may be read
    char *s = vf_buf(1); size_t len = vf_u64(); vf_assume(len >= 1);
    char c = vf_char();
    csubstr a(s, len); substr ra(s, len);
    int r = s[0] != c ? (s[0] < c ? -1 : 1) : len > 1 ? 1 : 0;
    vf_assert(sgn(a.compare(c)) == r, "compare(char) is comparison with a one-character string");
    rel(a, c, r); rel(c, a, -r); rel(ra, c, r); rel(c, ra, -r);
    vf_cover(len > (1ul << 33) && r == 1, "huge"); vf_cover(r == 0, "equal");
}
extern "C" void h_cmp_arr()
{   // literals / char arrays and C strings
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr a(s, n); substr ra(s, n);
    char arr[4]; vf_fill(arr, 3); arr[3] = 0; const char (&lit)[4] = arr;
    int r = ref_cmp(s, n, arr, 3);
    rel(a, lit, r); rel(lit, a, -r); rel(ra, lit, r); rel(lit, ra, -r);
    vf_cover(n != 3 || r == 0, "equal"); vf_cover(r != 0, "different");
}
extern "C" void h_cmp_std()
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *t = vf_buf(m); csubstr a(s, n);
    int r = ref_cmp(s, n, t, m);
    std::string_view sv(t, m); rel(a, sv, r); rel(sv, a, -r);
    csubstr vv = to_csubstr(sv); vf_assert(vv.str == t && vv.len == m, "view of a string_view");
    std::string st(t, m); rel(a, st, r); rel(st, a, -r);
    vf_assert(to_csubstr(st).str == st.data() && to_csubstr(st).len == m && to_substr(st).str == &st[0] && to_substr(st).len == m, "view of a string");
    vf_cover(n != m || r == 0, "equal"); vf_cover((n == 0 && m == 0) || r != 0, "different");
}
extern "C" void h_cmp_vec()
{
    size_t n = vf_param(0), m = vf_param(1); char *s = vf_buf(n), *t = vf_buf(m); csubstr a(s, n);
    int r = ref_cmp(s, n, t, m);
    std::vector<char> v(t, t + m);
    vf_assert((a == v) == (r == 0), "vector =="); vf_assert((a != v) == (r != 0), "vector !=");
    vf_assert((a < v) == (r < 0), "vector <"); vf_assert((a <= v) == (r <= 0), "vector <=");
    vf_assert((a > v) == (r > 0), "vector >"); vf_assert((a >= v) == (r >= 0), "vector >=");
    vf_assert((v == a) == (r == 0), "vector =="); vf_assert((v != a) == (r != 0), "vector !=");
    vf_assert((v < a) == (r > 0), "vector <"); vf_assert((v <= a) == (r >= 0), "vector <=");
    vf_assert((v > a) == (r < 0), "vector >"); vf_assert((v >= a) == (r <= 0), "vector >=");
    vf_assert(to_csubstr(v).len == m && to_substr(v).len == m && (m == 0 || to_csubstr(v).str == v.data()), "view of a vector");
    vf_cover(n != m || r == 0, "equal"); vf_cover((n == 0 && m == 0) || r != 0, "different");
}
//------------------------------------------------------------------ C18
#define SAME(b, o, N, what) do { for(size_t i_ = 0; i_ < (N); ++i_) vf_assert((b)[i_] == (o)[i_], what); } while(0)
// buffer of G guard bytes, the n viewed bytes, G guard bytes
struct Ed { size_t n; char *buf, o[16], x[16]; substr v;
    Ed(size_t n_) : n(n_), buf((char*)vf_alloc(n_ + 2)), v(buf + 1, n_) { for(size_t i = 0; i < n + 2; ++i) buf[i] = o[i] = x[i] = vf_char(); }
    void check(const char *what) { for(size_t i = 0; i < n + 2; ++i) vf_assert(buf[i] == x[i], what); } };
extern "C" void h_fill()
{
    size_t n = vf_param(0); Ed d(n); char c = vf_char();
    d.v.fill(c); for(size_t i = 0; i < n; ++i) d.x[i+1] = c;
    d.check("fill");
    vf_cover(true, "end");
}
extern "C" void h_case()
{
    size_t n = vf_param(0); Ed d(n); bool up = vf_bool();
    for(size_t i = 0; i < n; ++i) vf_assume((d.o[i+1] & 0x80) == 0); // ASCII: toupper/tolower of negative values is outside the C library's domain
    if(up) d.v.toupper(); else d.v.tolower();
    for(size_t i = 1; i <= n; ++i) { char c = d.o[i]; if(up && c >= 'a' && c <= 'z') c = (char)(c - 'a' + 'A'); if(!up && c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a'); d.x[i] = c; }
    d.check("case change");
    vf_cover(up, "up"); vf_cover(!up, "down");
}
extern "C" void h_reverse()
{
    size_t n = vf_param(0), mode = vf_param(1); Ed d(n);
    size_t a = vf_param(2), b = vf_param(3);
    if(mode == 0) { a = 0; b = n; d.v.reverse(); }
    else if(mode == 1) d.v.reverse_sub(a, b - a);
    else d.v.reverse_range(a, b);
    for(size_t i = 0; i < n; ++i) if(i >= a && i < b) d.x[1 + i] = d.o[1 + (a + b - 1 - i)];
    d.check("reverse");
    vf_cover(true, "end");
}
extern "C" void h_copy()
{
    size_t n = vf_param(0), m = vf_param(1); Ed d(n); char *t = vf_buf(m); csubstr src(t, m);
    size_t a = vf_param(2), num = vf_u64();
    size_t cnt = num == NP ? n - a : num; if(cnt > m) cnt = m;
    vf_assume(cnt <= n - a);
    bool dflt = vf_bool(); if(dflt) { a = 0; cnt = m < n ? m : n; d.v.copy_from(src); } else d.v.copy_from(src, a, num);
    for(size_t i = 0; i < n; ++i) if(i >= a && i < a + cnt) d.x[1 + i] = t[i - a];
    d.check("copy_from");
    vf_cover(n == 0 || m == 0 || (cnt < m && cnt > 0) || m == 1 || n == 1, "partial"); vf_cover(cnt == 0, "nothing");
}
extern "C" void h_erase()
{
    size_t n = vf_param(0), mode = vf_param(1); Ed d(n);
    size_t a = vf_param(2), b = vf_param(3);
    if(mode == 2 && n == 0) { vf_cover(true, "empty"); return; }
    substr r = mode == 0 ? d.v.erase(a, b - a) : mode == 1 ? d.v.erase_range(a, b) : d.v.erase(csubstr(d.buf + 1 + a, b - a));
    vf_assert(r.str == d.buf + 1 && r.len == n - (b - a), "erase returns the shortened string");
    for(size_t i = 0; i < n; ++i) if(i < n - (b - a)) vf_assert(d.buf[1+i] == d.o[1 + (i < a ? i : i + (b - a))], "remaining characters in order");
    vf_assert(d.buf[0] == d.o[0] && d.buf[n+1] == d.o[n+1], "nothing outside the string");
    vf_cover(true, "end");
}
extern "C" void h_replc()
{
    size_t n = vf_param(0), m = vf_param(1); Ed d(n); char *t = vf_buf(m), c = vf_char(), rp = vf_char(); size_t p = vf_param(2) > n ? NP : vf_param(2); bool set = vf_bool();
    size_t cnt = 0;
    for(size_t i = 0; i < n; ++i)
    {
        bool in = false; if(set) { for(size_t j = 0; j < m; ++j) in = in || d.o[1+i] == t[j]; } else in = d.o[1+i] == c;
        if(in && i >= p) { d.x[1+i] = rp; ++cnt; }
    }
    size_t r = set ? d.v.replace(csubstr(t, m), rp, p) : d.v.replace(c, rp, p);
    vf_assert(r == cnt, "number of replacements"); d.check("replace");
    vf_cover(p >= n || cnt == n - p, "all"); vf_cover(cnt == 0, "none");
}
extern "C" void h_repl_all()
{
    size_t n = vf_param(0), m = vf_param(1), k = vf_param(2), L = vf_param(3);
    char *s = vf_buf(n), *t = vf_buf(m), *u = vf_buf(k); csubstr v(s, n);
    char *dst = (char*)vf_alloc(L); char o[24]; for(size_t i = 0; i < L; ++i) dst[i] = o[i] = vf_char();
    size_t p = vf_param(4) > n ? NP : vf_param(4), p0 = p == NP ? n : p;
    char x[24]; size_t xn = 0, i = 0;
    while(i < n)
    {
        if(i >= p0 && at(s, n, i, t, m)) { for(size_t j = 0; j < k; ++j) x[xn++] = u[j]; i += m; }
        else x[xn++] = s[i++];
    }
    size_t r = v.replace_all(substr(dst, L), csubstr(t, m), csubstr(u, k), p);
    vf_assert(r == xn, "replace_all returns the required size");
    if(xn <= L) for(size_t j = 0; j < L; ++j) vf_assert(dst[j] == (j < xn ? x[j] : o[j]), "replace_all writes the result");
    vf_cover(n < m + p0 || xn != n || m == k, "replaced"); vf_cover(xn == n, "unchanged size");
}
//------------------------------------------------------------------ C19
extern "C" void h_split()
{
    size_t n = vf_param(0), mode = vf_param(1); char *s = vf_buf(n); csubstr v(s, n); char sep = vf_char();
    size_t start = 0; if(mode == 2 && n) { start = vf_param(2); }
    // expected pieces
    size_t pb[12], pe[12], np = 0;
    if(n) { size_t b = start; for(size_t i = 0; i < n; ++i) if(i >= start && s[i] == sep) { pb[np] = b; pe[np] = i; ++np; b = i + 1; } pb[np] = b; pe[np] = n; ++np; }
    size_t k = 0;
    if(mode == 0)
    {
        size_t pos = 0; csubstr out;
        while(v.next_split(sep, &pos, &out)) { vf_assert(k < np, "no more pieces than separators plus one"); IS_VIEW(out, s, pb[k], pe[k], "piece"); ++k; }
        vf_assert(!v.next_split(sep, &pos, &out), "stays exhausted");
    }
    else
    {
        auto sp = v.split(sep, start);
        for(csubstr piece : sp) { vf_assert(k < np, "no more pieces than separators plus one"); IS_VIEW(piece, s, pb[k], pe[k], "piece"); ++k; }
    }
    vf_assert(k == np, "all pieces are produced");
    vf_cover(n == 0 || np == n + 1 - start, "all separators"); vf_cover(n == 0 || np == 1, "no separator");
}
extern "C" void h_splitpost()
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr v(s, n); char sep = vf_char();
    auto sp = v.split(sep); size_t k = 0, np = 0, b = 0;
    if(n) { np = 1; for(size_t i = 0; i < n; ++i) if(s[i] == sep) ++np; }
    auto it = sp.begin(), e = sp.end();
    while(!(it == e))
    {
        auto prev = it++;
        size_t x = b; while(x < n && s[x] != sep) ++x;
        vf_assert(k < np, "bounded"); IS_VIEW(*prev, s, b, x, "postfix increment returns the previous piece"); vf_assert(prev->len == x - b, "arrow");
        b = x + 1; ++k;
    }
    vf_assert(k == np, "all pieces are produced");
    vf_cover(n == 0 || np == n + 1, "all separators");
}
extern "C" void h_pop()
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr v(s, n); char sep = vf_char(); bool dflt = vf_bool(); if(dflt) sep = '/';
    size_t f = NP, l = NP; for(size_t i = 0; i < n; ++i) if(s[i] == sep) { if(f == NP) f = i; l = i; }
    csubstr pr = dflt ? v.pop_right() : v.pop_right(sep), pl = dflt ? v.pop_left() : v.pop_left(sep);
    csubstr gl = dflt ? v.gpop_left() : v.gpop_left(sep), gr = dflt ? v.gpop_right() : v.gpop_right(sep);
    // without skipping: the string is <gpop_left> sep <pop_right> and <pop_left> sep <gpop_right>
    IS_PIECE(pr, s, n, l == NP ? 0 : l + 1, n, "pop_right: after the last separator");
    IS_PIECE(gl, s, n, 0, l == NP ? 0 : l, "gpop_left: before the last separator");
    IS_PIECE(pl, s, n, 0, f == NP ? n : f, "pop_left: before the first separator");
    IS_PIECE(gr, s, n, f == NP ? n : f + 1, n, "gpop_right: after the first separator");
    // skipping empty pieces
    size_t b = 0, e = n; while(b < n && s[b] == sep) ++b; while(e > 0 && s[e-1] == sep) --e;
    size_t q = e; while(q > 0 && s[q-1] != sep) --q;      // start of the last non-empty piece
    size_t w = b; while(w < n && s[w] != sep) ++w;        // end of the first non-empty piece
    if(b == n) { b = n; q = 0; e = 0; w = 0; }
    csubstr spr = v.pop_right(sep, true), spl = v.pop_left(sep, true), sgl = v.gpop_left(sep, true), sgr = v.gpop_right(sep, true);
    if(e == 0) { vf_assert(spr.len == 0 && spl.len == 0 && sgl.len == 0 && sgr.len == 0, "only separators"); }
    else
    {
        IS_PIECE(spr, s, n, q, n, "pop_right skipping: from the last non-empty piece on");
        IS_PIECE(spl, s, n, 0, w, "pop_left skipping: up to the first non-empty piece");
        size_t g = q; while(g > 0 && s[g-1] == sep) --g;
        IS_PIECE(sgl, s, n, 0, g, "gpop_left skipping");
        size_t h = w; while(h < n && s[h] == sep) ++h;
        IS_PIECE(sgr, s, n, h, n, "gpop_right skipping");
    }
    if(n) { INSIDE(pr, s, n, "inside"); INSIDE(pl, s, n, "inside"); INSIDE(gl, s, n, "inside"); INSIDE(gr, s, n, "inside"); INSIDE(spr, s, n, "inside"); INSIDE(spl, s, n, "inside"); INSIDE(sgl, s, n, "inside"); INSIDE(sgr, s, n, "inside"); }
    // path-like
    csubstr bn = dflt ? v.basename() : v.basename(sep), dn = dflt ? v.dirname() : v.dirname(sep);
    if(e == 0) { vf_assert(bn.len == 0, "no base name"); IS_PIECE(dn, s, n, 0, n, "dirname of only separators"); }
    else { IS_VIEW(bn, s, q, e, "basename: last non-empty component"); IS_PIECE(dn, s, n, 0, q, "dirname: everything before it"); }
    vf_cover(n < 2 || (f != NP && l > f), "two separators"); vf_cover(n == 0 || e == 0, "only separators"); vf_cover(f == NP, "no separator");
}
extern "C" void h_ext()
{
    size_t n = vf_param(0); char *s = vf_buf(n); csubstr v(s, n); const char sep = '.';
    size_t f = NP, l = NP; for(size_t i = 0; i < n; ++i) if(s[i] == sep) { if(f == NP) f = i; l = i; }
    IS_PIECE(v.extshort(), s, n, l == NP ? 0 : l + 1, n, "extshort");
    IS_PIECE(v.name_wo_extshort(), s, n, 0, l == NP ? 0 : l, "name_wo_extshort");
    IS_PIECE(v.name_wo_extlong(), s, n, 0, f == NP ? n : f, "name_wo_extlong");
    IS_PIECE(v.extlong(), s, n, f == NP ? n : f + 1, n, "extlong");
    vf_cover(n < 2 || (f != NP && l > f), "two dots"); vf_cover(f == NP, "no dot");
}
