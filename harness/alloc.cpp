// C29: allocators
#include "vf.h"
#include "align.h"
#include <c4/memory_resource.cpp>
#include <c4/memory_util.cpp>
#include <c4/allocator.hpp>
using namespace c4;
enum { SLOT = 64, NS = 5 };
alignas(64) static char pool_mem[NS * SLOT];
// the underlying resource: hands out disjoint blocks, remembering what is held
struct Pool : public MemoryResource
{
    unsigned n = 0; size_t sz[NS]; bool live[NS]; bool bad = false;
    void* do_allocate(size_t s, size_t a, void*) override { if(s > SLOT || n >= NS || a > SLOT) { bad = true; return pool_mem; } sz[n] = s; live[n] = true; return pool_mem + SLOT * n++; }
    void  do_deallocate(void *p, size_t s, size_t) override { for(unsigned i = 0; i < NS; ++i) if(i < n && live[i] && sz[i] == s && pool_mem + SLOT * i == (char*)p) { live[i] = false; return; } bad = true; }
    void* do_reallocate(void *p, size_t o, size_t s, size_t a) override { char *q = (char*)do_allocate(s, a, nullptr); for(size_t i = 0; i < (o < s ? o : s); ++i) q[i] = ((char*)p)[i]; do_deallocate(p, o, a); return q; }
};
struct Blk { uintptr_t p; void *q; size_t n, al; bool live; };
static bool apart(uintptr_t p, size_t n, uintptr_t q, size_t m) { return !n || !m || p + n <= q || q + m <= p; }
// where the blocks are: any sizes. params: operations, which operations (allocate, deallocate, reallocate empty-content blocks is below)
template<class T, class A> static void ops(bool small, size_t maxal)
{
    Pool pool; static Blk blk[4]; unsigned nb = 0, nops = (unsigned)vf_param(0);
    static A a(&pool); a = A(&pool); vf_assert(a.resource() == &pool, "resource");
    for(unsigned s = 0; s < nops; ++s)
    {
        unsigned op = (unsigned)(vf_param(1) >> (2 * s)) & 3;
        if(op == 0)
        {
            size_t n = vf_upto(7), al = alignof(T); vf_assume(small || n); if(maxal > alignof(T) && vf_bool()) al = maxal;
            T *t = a.allocate(n, al); uintptr_t p = (uintptr_t)t; vf_assert(p % al == 0, "aligned");
            bool in_pool = p >= (uintptr_t)pool_mem && p < (uintptr_t)pool_mem + sizeof(pool_mem), in_obj = p >= (uintptr_t)&a && p + n * sizeof(T) <= (uintptr_t)(&a + 1); vf_assert(in_pool || (small && in_obj), "lies in the resource's memory or in the allocator");
            for(unsigned i = 0; i < nb; ++i) if(blk[i].live) vf_assert(apart(p, n * sizeof(T), blk[i].p, blk[i].n * sizeof(T)), "does not overlap a block still held");
            blk[nb].p = p; blk[nb].q = t; blk[nb].n = n; blk[nb].al = al; blk[nb].live = true; ++nb;
        }
        else { unsigned i = vf_u8(); vf_assume(i < nb && blk[i].live); a.deallocate((T*)blk[i].q, blk[i].n, blk[i].al); blk[i].live = false; }
        vf_assert(!pool.bad, "gives back to the resource exactly what it took");
    }
    vf_cover(true, "end");
    for(unsigned j = 0; j < nb; ++j) if(blk[j].live) a.deallocate((T*)blk[j].q, blk[j].n, blk[j].al);
    vf_assert(!pool.bad, "gives back to the resource exactly what it took (end)"); for(unsigned i = 0; i < NS; ++i) if(i < pool.n) vf_assert(!pool.live[i], "nothing is leaked");
}
// reallocation: contents. params: sizes of two blocks, new size of one, which, a block between
template<class T, class A> static void re()
{
    Pool pool; A a(&pool); size_t n = vf_param(0), m = vf_param(1), k = vf_param(2); bool first = vf_param(3);
    T *x = a.allocate(n), *y = a.allocate(m); T vx[8], vy[8]; for(size_t i = 0; i < n; ++i) vx[i] = x[i] = (T)vf_u32(); for(size_t i = 0; i < m; ++i) vy[i] = y[i] = (T)vf_u32();
    if(first) x = a.reallocate(x, n, k); else y = a.reallocate(y, m, k); size_t nx = first ? k : n, my = first ? m : k;
    for(size_t i = 0; i < n && i < nx; ++i) vf_assert(x[i] == vx[i], "first block keeps its contents"); for(size_t i = 0; i < m && i < my; ++i) vf_assert(y[i] == vy[i], "second block keeps its contents");
    vf_assert(apart((uintptr_t)x, nx * sizeof(T), (uintptr_t)y, my * sizeof(T)) && (uintptr_t)x % alignof(T) == 0 && (uintptr_t)y % alignof(T) == 0, "disjoint and aligned");
    for(size_t i = 0; i < nx; ++i) x[i] = 7; for(size_t i = 0; i < m && i < my; ++i) vf_assert(y[i] == vy[i], "writing all of one leaves the other");
    if(vf_bool()) { a.deallocate(x, nx); a.deallocate(y, my); } else { a.deallocate(y, my); a.deallocate(x, nx); }
    vf_assert(!pool.bad, "gives back to the resource exactly what it took (reallocation)"); for(unsigned i = 0; i < NS; ++i) if(i < pool.n) vf_assert(!pool.live[i], "nothing is leaked (reallocation)");
    vf_cover(true, "end");
}
extern "C" void h_small() { ops<int32_t, small_allocator_mr<int32_t, 4>>(true, 4); }
extern "C" void h_small_al() { ops<int32_t, small_allocator_mr<int32_t, 4, 8>>(true, 8); }
extern "C" void h_small_ov() { ops<int16_t, small_allocator_mr<int16_t, 5, 2>>(true, 8); }
extern "C" void h_re_small() { re<int32_t, small_allocator_mr<int32_t, 4>>(); } extern "C" void h_re_char() { re<char, small_allocator_mr<char, 6>>(); } extern "C" void h_re() { re<int16_t, allocator_mr<int16_t>>(); }
extern "C" void h_alloc() { ops<int32_t, allocator_mr<int32_t>>(false, 16); }
// the global resource is looked up at each call; equality is that of the resource; rebinding and copying keep the resource
extern "C" void h_misc()
{
    Pool p1, p2; size_t n = vf_upto(4); vf_assume(n);
    { ScopedMemoryResource s(&p1); allocator<int32_t> a; int32_t *x = a.allocate(n); vf_assert(p1.n == 1 && p1.sz[0] == 4 * n && (char*)x == pool_mem, "global resource"); { ScopedMemoryResource t(&p2); int32_t *y = a.allocate(n); vf_assert(p2.n == 1 && (char*)y == pool_mem, "the one in force"); a.deallocate(y, n); vf_assert(!p2.live[0] && p1.live[0], "given back to the one in force"); } a.deallocate(x, n); allocator_mr<int32_t> m; vf_assert(m.resource() == &p1, "defaults to the global one"); allocator_mr<int32_t> z(nullptr); vf_assert(z.resource() == &p1, "null: the global one"); }
    allocator_mr<int32_t> a(&p1), b(&p2), c(a); vf_assert(a == c && !(a == b) && a != b && !(a != c), "equality"); b = a; vf_assert(a == b, "assignment"); auto d = a.rebound<char>(); vf_assert(d.resource() == &p1 && d == a, "rebinding keeps the resource"); char *q = d.allocate(n, 1); vf_assert(p1.sz[p1.n - 1] == n, "size in bytes"); d.deallocate(q, n, 1); vf_assert(!p1.bad, "given back");
    small_allocator_mr<int32_t, 4> sa(&p2); auto sb = sa.rebound<int64_t>(); vf_assert(sb.resource() == &p2, "rebinding a small allocator keeps the resource"); vf_cover(true, "end");
}
