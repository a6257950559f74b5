// C26: spans
#include "vf.h"
#include <c4/span.hpp>
using namespace c4;
enum { N = 12 };
template<class S> struct X; // model of what the span class remembers besides pointer and size
template<class T, class I> struct X<span<T, I>> { enum { CAP = 0, OFF = 0 }; static size_t off(span<T, I> const&) { return 0; } static span<T, I> mk(T *p, size_t off, size_t sz, size_t) { return span<T, I>(p + off, (I)sz); } };
template<class T, class I> struct X<spanrs<T, I>> { enum { CAP = 1, OFF = 0 }; static size_t off(spanrs<T, I> const&) { return 0; } static spanrs<T, I> mk(T *p, size_t off, size_t sz, size_t cap) { return spanrs<T, I>(p + off, (I)sz, (I)cap); } };
template<class T, class I> struct X<spanrsl<T, I>> { enum { CAP = 1, OFF = 1 }; static size_t off(spanrsl<T, I> const& s) { return (size_t)s.offset(); } static spanrsl<T, I> mk(T *p, size_t off, size_t sz, size_t cap) { return spanrsl<T, I>(p + off, (I)sz, (I)cap, (I)off); } };
template<class S> static size_t orig(S const&, int*, size_t) { return 1; }
template<class I> static size_t orig(spanrsl<int, I> const& s, int *p, size_t total)
{
    auto o = s.original(); vf_assert(o.data() == p && (size_t)o.size() == total && (size_t)o.capacity() == total && o.offset() == 0, "original() recovers the original memory");
    auto s2 = s; spanrs<int, I> q = s2.template original<spanrs>(); vf_assert(q.data() == p && (size_t)q.size() == total && (size_t)q.capacity() == total, "original() as another span type"); return 1;
}
// from any state, any operations. params: number of operations
template<class S> static void ops()
{
    typedef typename S::size_type I; static int mem[N];
    size_t total = vf_upto(N), b = X<S>::OFF ? vf_upto(N) : 0, sz = vf_upto(N), cap = X<S>::CAP ? vf_upto(N) : sz; vf_assume(b + cap == total && sz <= cap);
    S s = X<S>::mk(mem, b, sz, cap); size_t off0 = b; (void)off0;
    for(unsigned step = 0; step < (unsigned)vf_param(0); ++step)
    {
        size_t f = vf_upto(N), n = vf_upto(N); unsigned op = vf_u8(); size_t pre = sz;
        switch(op)
        {
        case 0: vf_assume(f + n <= sz); s = s.subspan((I)f, (I)n); b += f; sz = n; cap -= f; break;
        case 1: vf_assume(f <= sz); s = s.subspan((I)f); b += f; sz -= f; cap -= f; break;
        case 2: vf_assume(f <= n && n <= sz); s = s.range((I)f, (I)n); b += f; sz = n - f; cap -= f; break;
        case 3: vf_assume(f <= sz); s = s.range((I)f); b += f; sz -= f; cap -= f; break;
        case 4: vf_assume(n <= sz); s = s.first((I)n); sz = n; break;
        case 5: vf_assume(n <= sz); s = s.last((I)n); b += sz - n; cap -= sz - n; sz = n; break;
        case 6: vf_assume(n < sz); s.rtrim((I)n); sz -= n; break;
        case 7: vf_assume(n < sz); s.ltrim((I)n); b += n; cap -= n; sz -= n; break;
        case 8: vf_assume(n <= (X<S>::CAP ? cap : sz)); s.resize((I)n); sz = n; break;
        case 9: s.clear(); sz = 0; break;
        case 10: { vf_assume(f + n <= pre); S t = s.subspan((I)f, (I)n); S l = s.compll(t); vf_assert(l.data() == mem + b && (size_t)l.size() == f, "left complement"); S r = s.complr(t); vf_assert(r.data() == mem + b + f + n && (size_t)r.size() == pre - f - n, "right complement"); vf_assert(s.is_subspan(t), "a subspan is one"); vf_assert(t.is_subspan(s) == (f == 0 && n == pre), "the whole is not a subspan of a part"); break; }
        case 11: { vf_assume(f < sz); vf_assert(&s[(I)f] == mem + b + f && &s.front() == mem + b && &s.back() == mem + b + sz - 1, "elements"); break; }
        default: vf_assume(false);
        }
        if(!X<S>::CAP) cap = sz;
        vf_assert(s.data() == mem + b, "begins at the named element");
        vf_assert((size_t)s.size() == sz && s.empty() == (sz == 0) && s.end() == mem + b + sz && s.begin() == mem + b, "has the named number of elements");
        vf_assert((size_t)s.capacity() == cap, "capacity: the memory from its beginning");
        vf_assert(b + sz <= total, "stays inside the original memory");
        if(X<S>::OFF) { vf_assert(X<S>::off(s) == b, "offset from the original beginning"); orig(s, mem, total); }
    }
    vf_cover(true, "end"); vf_cover(sz > 2 && b > 2, "inside");
}
#define TYPES(f) extern "C" void f##_s() { f<span<int>>(); } extern "C" void f##_s8() { f<span<int, uint8_t>>(); } extern "C" void f##_rs() { f<spanrs<int>>(); } extern "C" void f##_rs8() { f<spanrs<int, int8_t>>(); } extern "C" void f##_rsl() { f<spanrsl<int>>(); } extern "C" void f##_rsl32() { f<spanrsl<int, int32_t>>(); }
TYPES(ops)
// conversions keep the memory; equality and order are those of the element sequences. params: lengths
extern "C" void h_cmp()
{
    size_t n = vf_param(0), m = vf_param(1); int8_t *a = (int8_t*)vf_buf(n), *b = (int8_t*)vf_buf(m); span<int8_t> x(a, n); spanrs<int8_t, uint32_t> y(b, (uint32_t)m);
    size_t i = 0; bool less, eq; for( ; i < n && i < m && a[i] == b[i]; ++i) {}
    eq = n == m && i == n; less = i == m ? false : i == n ? true : a[i] < b[i];
    vf_assert((x == y) == eq && (x != y) == !eq, "equality"); vf_assert((x < y) == less && (x >= y) == !less && (x > y) == (!less && !eq) && (x <= y) == (less || eq), "order");
    span<const int8_t> c = x; vf_assert(c.data() == a && c.size() == n, "conversion to const");
    span<int8_t, uint32_t> d = y; vf_assert(d.data() == b && d.size() == m && y.same_span(d), "conversion to span"); vf_assert(x.same_span(x) && (!n || !x.same_span(x.subspan(1))), "same_span");
    spanrsl<int8_t> e(a, n, n, 0); spanrs<int8_t> g = e; vf_assert(g.data() == a && g.size() == n && g.capacity() == n, "conversion keeps the capacity"); vf_assert(x.byte_size() == n, "byte size");
    vf_cover(eq || n != m, "eq"); vf_cover(!eq || n + m == 0, "ne");
}
// subspans of other memory
extern "C" void h_other()
{
    static int mem[N]; size_t a = vf_upto(N), n = vf_upto(N), b = vf_upto(N), m = vf_upto(N); vf_assume(a + n <= N && b + m <= N);
    span<int> x(mem + a, n), y(mem + b, m); bool in = b >= a && b + m <= a + n;
    vf_assert(x.is_subspan(y) == in, "is_subspan: lies inside"); 
    span<int> l = x.compll(y), r = x.complr(y);
    if(b >= a && b <= a + n) vf_assert(l.data() == mem + a && l.size() == b - a, "compll"); else vf_assert(l.empty(), "compll outside");
    if(b + m >= a && b + m <= a + n) vf_assert(r.data() == mem + b + m && r.size() == a + n - b - m, "complr"); else vf_assert(r.empty(), "complr outside");
    span<int> z; vf_assert(z.data() == nullptr && z.empty() && !z.is_subspan(y), "default");
    int arr[5]; span<int> w(arr); vf_assert(w.data() == arr && w.size() == 5, "array"); z.assign(arr); vf_assert(z.same_span(w), "assign array"); z.assign(mem + a, n); vf_assert(z.same_span(x), "assign");
    spanrs<int> q(arr); vf_assert(q.capacity() == 5 && q.size() == 5 && q.data() == arr, "array rs"); q.assign(mem + a, 0, n); vf_assert(q.capacity() == n && q.empty() && q.data() == mem + a, "assign rs");
    spanrsl<int> p(arr); vf_assert(p.capacity() == 5 && p.size() == 5 && p.offset() == 0, "array rsl"); p.assign(mem + a, n); vf_assert(p.capacity() == n && p.size() == n && p.offset() == 0 && p.data() == mem + a, "assign rsl");
    vf_cover(in && m, "in"); vf_cover(!in, "out");
}
