// C27, C28: memory resources
#include "vf.h"
#include "align.h"
#include <c4/memory_resource.cpp>
#include <c4/memory_util.cpp>
using namespace c4;
enum { M = 40 };
alignas(64) static char mem[M];
struct Blk { size_t off, sz, g; char v; bool live; };
static Blk blk[4]; static unsigned nb;
static size_t align_up(size_t x, size_t a) { return (x + a - 1) & ~(a - 1); }
// any sequence of operations on a linear resource over borrowed memory. params: operations, size, base offset, mode (0: errors allowed for what does not fit, 1: what fits is served), which operations
template<class MR> static void linear(MR &mr, char *base, size_t B, size_t cap)
{
    unsigned nops = (unsigned)vf_param(0); bool must = vf_param(3); size_t top = 0; (void)top; nb = 0;
    for(unsigned s = 0; s < nops; ++s)
    {
        unsigned op = (unsigned)(vf_param(4) >> (2 * s)) & 3; size_t sz = vf_u64(); unsigned la = vf_u8(); vf_assume(la < 6); size_t al = size_t(1) << la; 
        size_t pos = mr.size(); vf_assert(pos <= cap && mr.capacity() == cap && mr.slack() == cap - pos, "position stays inside");
        if(op == 0)
        {
            vf_assume(sz > 0); size_t want = align_up(B + pos, al) - B; bool fits = want <= cap && sz <= cap - want;
            if(must) vf_assume(fits);
            char *p = (char*)mr.allocate(sz, al); size_t off = (size_t)((uintptr_t)p - (uintptr_t)base);
            vf_assert(fits, "what does not fit is refused"); vf_assert(off <= cap && sz <= cap - off, "the block lies inside the memory"); vf_assert((B + off) % al == 0, "the block is aligned");
            for(unsigned i = 0; i < nb; ++i) if(blk[i].live) vf_assert(off + sz <= blk[i].off || blk[i].off + blk[i].sz <= off || !blk[i].sz, "the block does not overlap one still held");
            vf_assert(mr.size() >= off + sz, "size covers the block");
            Blk b{off, sz, vf_u64(), vf_char(), true}; vf_assume(b.g < sz); base[off + b.g] = b.v; blk[nb++] = b;
        }
        else
        {
            unsigned i = vf_u8(); vf_assume(i < nb && blk[i].live); char *p = base + blk[i].off;
            if(op == 1) { mr.deallocate(p, blk[i].sz, al); blk[i].live = false; }
            else
            {
                vf_assume((B + blk[i].off) % al == 0); // the alignment of the block
                bool last = blk[i].off + blk[i].sz == pos; size_t want = align_up(B + pos, al) - B; bool fits = sz <= blk[i].sz || (last && sz <= cap - blk[i].off) || (want <= cap && sz <= cap - want);
                if(must) vf_assume(fits);
                char *n = (char*)mr.reallocate(p, blk[i].sz, sz, al); size_t off = (size_t)((uintptr_t)n - (uintptr_t)base);
                vf_assert(fits, "what does not fit is refused (reallocation)"); vf_assert(off <= cap && sz <= cap - off, "the reallocated block lies inside the memory"); vf_assert((B + off) % al == 0, "the reallocated block is aligned");
                for(unsigned j = 0; j < nb; ++j) if(j != i && blk[j].live) vf_assert(off + sz <= blk[j].off || blk[j].off + blk[j].sz <= off || !sz || !blk[j].sz, "the reallocated block does not overlap one still held");
                vf_assert(mr.size() >= off + sz, "size covers the reallocated block");
                if(blk[i].g < sz) vf_assert(base[off + blk[i].g] == blk[i].v, "reallocation keeps the contents"); else if(sz) { blk[i].g = 0; blk[i].v = base[off]; } else blk[i].live = false;
                blk[i].off = off; blk[i].sz = sz;
            }
        }
        for(unsigned j = 0; j < nb; ++j) if(blk[j].live) vf_assert(base[blk[j].off + blk[j].g] == blk[j].v, "contents of held blocks are kept");
    }
    vf_cover(nb > 0, "blocks");
}
extern "C" void h_linear() { size_t B = vf_param(2), cap = vf_param(1); for(unsigned i = 0; i < M; ++i) mem[i] = vf_char(); MemoryResourceLinear mr(mem + B, cap); vf_assert(mr.mem() == mem + B && mr.capacity() == cap && mr.size() == 0, "borrowed memory"); linear(mr, mem + B, B, cap); }
extern "C" void h_lineararr() { static MemoryResourceLinearArr<24> mr; vf_assert(mr.mem() == mr.m_arr && mr.capacity() == 24 && (uintptr_t(mr.m_arr) % alignof(max_align_t)) == 0, "array memory"); linear(mr, mr.m_arr, 0, 24); }
// a recording resource
struct Rec : public MemoryResource
{
    unsigned na = 0, nd = 0, nr = 0; size_t sz = 0, al = 0, osz = 0; void *ptr = nullptr; char *give = nullptr; bool bad = false;
    void* do_allocate(size_t s, size_t a, void*) override { ++na; sz = s; al = a; return give; }
    void  do_deallocate(void *p, size_t s, size_t a) override { ++nd; ptr = p; sz = s; al = a; }
    void* do_reallocate(void *p, size_t o, size_t s, size_t a) override { ++nr; ptr = p; osz = o; sz = s; al = a; return give; }
};
// single chunk: what is taken from the resource is given back once
extern "C" void h_chunk()
{
    Rec r; r.give = mem; size_t n = vf_upto(32), n2 = vf_upto(32); vf_assume(n && n2); unsigned f = vf_u8(); vf_assume(f < 5);
    {
        MemoryResourceLinear mr(n, &r); vf_assert(r.na == 1 && r.sz == n && r.al == alignof(max_align_t) && mr.mem() == mem && mr.capacity() == n && mr.size() == 0, "owned memory comes from the resource");
        if(f == 1) { mr.release(); vf_assert(r.nd == 1 && r.ptr == mem && r.sz == n && mr.capacity() == 0 && mr.mem() == nullptr, "release gives the memory back"); }
        else if(f == 2) { mr.release(); r.give = mem + 16; mr.acquire(n2); vf_assert(r.na == 2 && r.sz == n2 && mr.mem() == mem + 16 && mr.capacity() == n2 && mr.size() == 0, "acquire takes memory from the resource"); }
        else if(f == 3) { r.give = mem + 16; mr.acquire(n2); vf_assert(r.nd == 1, "acquiring anew releases what was owned"); vf_assert(r.na == 2 && mr.capacity() == n2, "acquire takes memory from the resource"); }
        else if(f == 4) { mr.acquire((void*)(mem + 8), n2); vf_assert(r.na == 1 && mr.mem() == mem + 8 && mr.capacity() == n2, "borrowed memory"); vf_assert(r.nd == 1, "borrowing releases what was owned"); }
        else { mr.allocate(1, 1); mr.clear(); vf_assert(mr.size() == 0 && mr.capacity() == n, "clear"); }
    }
    vf_assert(r.nd == r.na, "everything owned is released, once"); if(f != 4) { vf_assert(r.sz == (f == 2 || f == 3 ? n2 : n), "with its size"); }
    vf_cover(f == 3, "3"); vf_cover(f == 0, "0");
}
// ---- C28 counting. params: operations
extern "C" void h_counts()
{
    Rec r; r.give = mem; MemoryResourceCounts c(&r); vf_assert(c.resource() == &r, "resource"); __int128 ca = 0, cs = 0, ta = 0, ts = 0, ma = 0, ms = 0; unsigned na = 0, nd = 0, nr = 0; size_t live[4]; unsigned nl = 0;
    for(unsigned s = 0; s < (unsigned)vf_param(0); ++s)
    {
        unsigned op = vf_u8(); vf_assume(op < 3); size_t sz = vf_u64(), al = vf_u64(); vf_assume(sz < (uint64_t(1) << 60));
        if(op == 0) { r.give = mem + s; void *p = c.allocate(sz, al); ++na; ++ca; cs += sz; ++ta; ts += sz; vf_assert(p == mem + s && r.sz == sz && r.al == al, "allocation is forwarded"); live[nl++] = sz; }
        else
        {
            vf_assume(nl > 0); size_t k = vf_upto(3); vf_assume(k < nl);
            if(op == 1) { c.deallocate(mem + k, live[k], al); ++nd; --ca; cs -= live[k]; vf_assert(r.ptr == mem + k && r.sz == live[k] && r.al == al, "deallocation is forwarded"); live[k] = live[--nl]; }
            else { r.give = mem + 20 + s; void *p = c.reallocate(mem + k, live[k], sz, al); ++nr; cs += (__int128)sz - live[k]; ++ta; ts += sz; vf_assert(p == mem + 20 + s && r.ptr == mem + k && r.osz == live[k] && r.sz == sz && r.al == al, "reallocation is forwarded"); live[k] = sz; }
        }
        if(ca > ma) ma = ca; if(cs > ms) ms = cs;
        vf_assert(r.na == na && r.nd == nd && r.nr == nr, "one call each");
        AllocationCounts const& k = c.counts();
        vf_assert((__int128)k.curr.allocs == ca && (__int128)k.curr.size == cs, "current blocks and bytes"); vf_assert((__int128)k.total.allocs == ta && (__int128)k.total.size == ts, "total blocks and bytes"); vf_assert((__int128)k.max.allocs == ma && (__int128)k.max.size == ms, "peak blocks and bytes");
    }
    vf_cover(nd > 0 || vf_param(0) < 2, "dealloc"); vf_cover(nr > 0 || vf_param(0) < 2, "realloc");
}
extern "C" void h_countops()
{
    AllocationCounts a, b; auto rnd = [](AllocationCounts &x) { x.curr.allocs = (ssize_t)vf_u32(); x.curr.size = (ssize_t)vf_u32(); x.total.allocs = (ssize_t)vf_u32(); x.total.size = (ssize_t)vf_u32(); x.max.allocs = (ssize_t)vf_u32(); x.max.size = (ssize_t)vf_u32(); };
    rnd(a); rnd(b); AllocationCounts s = a + b, d = s - b, u = a; u.update(b);
    auto eq = [](AllocationCounts const& x, AllocationCounts const& y) { return x.curr.allocs == y.curr.allocs && x.curr.size == y.curr.size && x.total.allocs == y.total.allocs && x.total.size == y.total.size && x.max.allocs == y.max.allocs && x.max.size == y.max.size; };
    vf_assert(eq(d, a), "a + b - b == a"); vf_assert(eq(u, s), "update adds"); vf_assert(s.curr.allocs == a.curr.allocs + b.curr.allocs && s.curr.size == a.curr.size + b.curr.size && s.total.allocs == a.total.allocs + b.total.allocs && s.total.size == a.total.size + b.total.size && s.max.allocs == a.max.allocs + b.max.allocs && s.max.size == a.max.size + b.max.size, "sum");
    AllocationCounts n = a; n.add_counts(nullptr, 5); n.rem_counts(nullptr, 5); vf_assert(eq(n, a), "null pointers do not count"); a.clear_counts(); AllocationCounts z; vf_assert(eq(a, z) && z.curr.size == 0 && z.total.allocs == 0 && z.max.size == 0, "cleared"); vf_cover(true, "end");
}
// scoped overrides restore what was in place, nested
extern "C" void h_scoped()
{
    MemoryResource *orig = get_memory_resource(); vf_assert(orig == get_memory_resource_malloc(), "malloc at first"); Rec r1, r2; r1.give = mem; r2.give = mem + 1; unsigned f = vf_u8(), g = vf_u8(); vf_assume(f < 4 && g < 3);
    MemoryResource *start = orig; if(vf_bool()) { start = &r2; set_memory_resource(&r2); }
    if(f == 0) { ScopedMemoryResource s(&r1); vf_assert(get_memory_resource() == &r1, "in force"); { ScopedMemoryResource t(&r2); vf_assert(get_memory_resource() == &r2, "in force, nested"); } vf_assert(get_memory_resource() == &r1, "restored, nested"); }
    else if(f == 1 && start == &r2) { ScopedMemoryResourceCounts s; vf_assert(get_memory_resource() == &s.mr && s.mr.resource() == &r2, "counting the current one"); char *p = (char*)get_memory_resource()->allocate(7, 8); vf_assert(p == r2.give && r2.na == 1 && s.mr.counts().curr.size == 7, "counts"); }
    else if(f == 2) { ScopedMemoryResourceCounts s(&r1); vf_assert(get_memory_resource() == &s.mr && s.mr.resource() == &r1, "counting the given one"); get_memory_resource()->allocate(7, 8); vf_assert(r1.na == 1 && r2.na == 0, "the given one is used"); }
    else { ScopedMemoryResource s(&r1); { ScopedMemoryResourceCounts t; vf_assert(t.mr.resource() == &r1, "nested counts"); } vf_assert(get_memory_resource() == &r1, "restored after counts"); }
    vf_assert(get_memory_resource() == start, "the resource that was in place is restored"); vf_cover(f == 2, "2"); vf_cover(f == 0 && start == &r2, "0"); set_memory_resource(orig);
}
// default allocation functions. params: old size, new size, log2 alignment
extern "C" void h_aalloc()
{
    size_t n = vf_param(0), m = vf_param(1), al = size_t(1) << vf_param(2); bool mr = vf_bool(); MemoryResource *r = get_memory_resource_malloc();
    char *p = (char*)(mr ? r->allocate(n, al) : aalloc(n, al)); vf_assert(p != nullptr && vf_guar_align(p) % al == 0, "aligned"); vf_fill(p, n); size_t k = vf_upto(16); vf_assume(k < n && k < m); char v = p[k];
    char *q = (char*)(mr ? r->reallocate(p, n, m, al) : arealloc(p, n, m, al)); vf_assert(q != nullptr && vf_guar_align(q) % al == 0, "aligned (reallocation)"); vf_assert(q[k] == v, "the common prefix is kept"); for(size_t i = 0; i < m; ++i) q[i] = 1; // all of it is usable
    if(mr) r->deallocate(q, m, al); else afree(q);
    vf_cover(mr, "mr"); vf_cover(!mr, "fn");
}
static unsigned s_a, s_f, s_r; static size_t s_n, s_al; static void *s_p;
static void* my_a(size_t n, size_t al) { ++s_a; s_n = n; s_al = al; return mem + 3; } static void my_f(void *p) { ++s_f; s_p = p; } static void* my_r(void *p, size_t, size_t n, size_t al) { ++s_r; s_p = p; s_n = n; s_al = al; return mem + 5; }
extern "C" void h_setalloc()
{
    auto a = get_aalloc(); auto f = get_afree(); auto r = get_arealloc(); set_aalloc(my_a); set_afree(my_f); set_arealloc(my_r); size_t n = vf_u64(), al = vf_u64(); MemoryResource *m = get_memory_resource_malloc(); bool w = vf_bool();
    vf_assume(n); vf_assert((w ? m->allocate(n, al) : aalloc(n, al)) == mem + 3 && s_a == 1 && s_n == n && s_al == al, "user's allocation function"); vf_assert((w ? m->reallocate(mem, 1, n, al) : arealloc(mem, 1, n, al)) == mem + 5 && s_r == 1 && s_n == n && s_p == mem, "user's reallocation function"); if(w) m->deallocate(mem + 9, n, al); else afree(mem + 9); vf_assert(s_f == 1 && s_p == mem + 9, "user's deallocation function");
    set_aalloc(a); set_afree(f); set_arealloc(r); vf_assert(get_aalloc() == a && get_afree() == f && get_arealloc() == r, "restored"); vf_cover(w, "w");
}
