// C37: fixed-capacity callables
#include "vf.h"
#include <functional>
#include <c4/ext/sg14/inplace_function.h>
using F = stdext::inplace_function<uint32_t(uint32_t), 24>;
using G = stdext::inplace_function<uint32_t(uint32_t), 32>;
static int live[2]; // targets alive, of each type
static bool inside(const void *p, const void *o, size_t n) { return (const char*)p >= (const char*)o && (const char*)p + n <= (const char*)o + n * 8; }
// two kinds of targets: they record what lives where
struct A { uint32_t k; const void *self; bool alive; A(uint32_t k_) : k(k_), self(this), alive(true) { ++live[0]; } A(A const& o) : k(o.k), self(this), alive(true) { vf_assert(o.alive && o.self == &o, "copied from a live target"); ++live[0]; } A(A && o) : k(o.k), self(this), alive(true) { vf_assert(o.alive && o.self == &o, "moved from a live target"); ++live[0]; } ~A() { vf_assert(alive && self == this, "destroyed once"); alive = false; self = nullptr; --live[0]; } uint32_t operator()(uint32_t x) { vf_assert(alive && self == this, "called while alive"); return x + k; } };
struct B { const void *self; uint64_t k; B(uint64_t k_) : self(this), k(k_) { ++live[1]; } B(B const& o) : self(this), k(o.k) { vf_assert(o.self == &o, "copied from a live target"); ++live[1]; } B(B && o) : self(this), k(o.k) { vf_assert(o.self == &o, "moved from a live target"); ++live[1]; } ~B() { vf_assert(self == this, "destroyed once"); self = nullptr; --live[1]; } uint32_t operator()(uint32_t x) const { vf_assert(self == this, "called while alive"); return x ^ (uint32_t)k; } };
static uint32_t plain(uint32_t x) { return x * 2 + 1; }
static uint32_t ka, kb;
static uint32_t expect(int t, uint32_t x) { return t == 1 ? x + ka : t == 2 ? (x ^ kb) : plain(x); }
static void chk(F const& f, int t, uint32_t x) { vf_assert((bool)f == (t != 0) && (f == nullptr) == (t == 0) && (f != nullptr) == (t != 0), "empty or not"); if(t) vf_assert(f(x) == expect(t, x), "calls the current target"); }
static F make(int t) { if(t == 1) return F(A(ka)); if(t == 2) { B b(kb); return F(b); } if(t == 3) return F(&plain); return vf_bool() ? F() : F(nullptr); }
// params: what the two hold initially, operations
static void op(F &f, int &t, F &g, int &u, unsigned o)
{
    switch(o)
    {
    case 0: f = g; t = u; break;
    case 1: f = std::move(g); t = u; break; // the source keeps a moved-from target
    case 2: f.swap(g); { int v = t; t = u; u = v; } break;
    case 3: f = nullptr; t = 0; break;
    case 4: { F &r = f; f = r; break; }
    case 5: { F &r = f; f = std::move(r); break; }
    case 6: { F h(g); int v = u; chk(h, v, 3); f.swap(h); t = v; break; }
    case 7: { F h(std::move(g)); chk(h, u, 4); f = h; t = u; break; }
    case 8: { G h(g); vf_assert((bool)h || !u, "wider"); if(u) vf_assert(h(9) == expect(u, 9), "wider: calls the target"); f.swap(f); break; }
    case 9: { G h(std::move(g)); if(u) vf_assert(h(9) == expect(u, 9), "wider, moved: calls the target"); break; }
    case 10: f = F(A(ka)); t = 1; break;
    case 11: f = &plain; t = 3; break;
    }
}
extern "C" void h_seq()
{
    live[0] = live[1] = 0; ka = vf_u32(); kb = vf_u32(); uint32_t x = vf_u32();
    { int t = (int)vf_param(0), u = (int)vf_param(1); F f(make(t)), g(make(u)); chk(f, t, x); chk(g, u, x); vf_assert(live[0] == (t == 1) + (u == 1) && live[1] == (t == 2) + (u == 2), "one target each");
      op(f, t, g, u, (unsigned)vf_param(2)); chk(f, t, x); chk(g, u, x); vf_assert(live[0] == (t == 1) + (u == 1) && live[1] == (t == 2) + (u == 2), "one target each (first step)");
      op(g, u, f, t, (unsigned)vf_param(3)); chk(f, t, x); chk(g, u, x); vf_assert(live[0] == (t == 1) + (u == 1) && live[1] == (t == 2) + (u == 2), "one target each (second step)"); }
    vf_assert(live[0] == 0 && live[1] == 0, "every target is destroyed"); vf_cover(true, "end");
}
// arguments and results: by value, by reference; the target lies within the object
struct W { uint8_t v[16]; const void **at; uint32_t operator()(uint32_t &a, const char *s, uint8_t i) { *at = this; a += v[i & 15]; return (uint32_t)s[0] + a; } };
extern "C" void h_args()
{
    const void *at = nullptr; W w; for(int i = 0; i < 16; ++i) w.v[i] = vf_u8(); w.at = &at; char s[1] = {vf_char()}; uint32_t a = vf_u32(), a0 = a; uint8_t i = vf_u8();
    stdext::inplace_function<uint32_t(uint32_t&, const char*, uint8_t), sizeof(W)> f(w); uint32_t r = f(a, s, i); vf_assert(a == a0 + w.v[i & 15] && r == (uint32_t)s[0] + a, "arguments and result"); vf_assert((const char*)at >= (const char*)&f && (const char*)at + sizeof(W) <= (const char*)(&f + 1), "inside the object"); 
    int n = 0; stdext::inplace_function<void()> v([&n]{ ++n; }); v(); auto c = v; c(); vf_assert(n == 2, "no arguments, no result"); vf_cover(true, "end");
}
