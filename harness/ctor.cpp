// C30: construction and relocation of ranges
#include "vf.h"
#include <new>
#include <c4/config.hpp>
#include <c4/error.hpp>
#include <c4/ctor_dtor.hpp>
using namespace c4;
static unsigned n_def, n_val, n_copy, n_move, n_ca, n_ma, n_dtor;
static void reset() { n_def = n_val = n_copy = n_move = n_ca = n_ma = n_dtor = 0; }
struct Obj // every special member is observable
{
    int16_t v; 
    Obj() noexcept : v(77) { ++n_def; } Obj(int16_t x) : v(x) { ++n_val; } Obj(int16_t x, int16_t y) : v((int16_t)(x ^ y)) { ++n_val; }
    Obj(Obj const& o) : v(o.v) { ++n_copy; } Obj(Obj && o) noexcept : v(o.v) { o.v = -1; ++n_move; }
    Obj& operator=(Obj const& o) noexcept { v = o.v; ++n_ca; return *this; } Obj& operator=(Obj && o) noexcept { v = o.v; o.v = -1; ++n_ma; return *this; }
    ~Obj() { ++n_dtor; }
};
struct Pod { int16_t v; };
static int16_t V(Obj const& o) { return o.v; } static int16_t V(Pod const& p) { return p.v; } static int16_t V(int16_t x) { return x; }
static void S(Obj &o, int16_t x) { o.v = x; } static void S(Pod &p, int16_t x) { p.v = x; } static void S(int16_t &p, int16_t x) { p = x; }
template<class T> struct K { enum { OBJ = 0 }; }; template<> struct K<Obj> { enum { OBJ = 1 }; };
template<class T> static T A(int16_t x, T*) { return T(x); } static int16_t A(int16_t x, Obj*) { return x; } static Pod A(int16_t x, Pod*) { return Pod{x}; }
enum { MX = 12 };
template<class T> struct Buf { alignas(8) char raw[MX * sizeof(T)]; int16_t o[MX]; T* at(size_t i) { return (T*)raw + i; } void fill() { for(size_t i = 0; i < MX; ++i) { o[i] = (int16_t)vf_u16(); S(*at(i), o[i]); } } };
template<class T> static bool cnt(unsigned n, unsigned def, unsigned val, unsigned copy, unsigned move, unsigned ca, unsigned ma, unsigned dtor) { return !K<T>::OBJ || (n_def == n * def && n_val == n * val && n_copy == n * copy && n_move == n * move && n_ca == n * ca && n_ma == n * ma && n_dtor == n * dtor); }
// params: count, operation
template<class T> static void range()
{
    static Buf<T> a, b; a.fill(); b.fill(); reset(); unsigned n = (unsigned)vf_param(0), f = (unsigned)vf_param(1); T *d = a.at(2), *s = b.at(1); int16_t x = (int16_t)vf_u16(); T one{x}; reset();
    int how = 0; // 1: the sources' values, 2: x, 3: default
    bool moved = false, dtor = false; unsigned m = n;
    switch(f)
    {
    case 0: construct_n(d, n); how = 3; vf_assert(cnt<T>(n, 1, 0, 0, 0, 0, 0, 0), "constructed once"); break;
    case 1: construct_n(d, n, A(x, d)); how = 2; vf_assert(cnt<T>(n, 0, 1, 0, 0, 0, 0, 0), "constructed once"); break;
    case 2: copy_construct_n(d, (T const*)s, n); how = 1; vf_assert(cnt<T>(n, 0, 0, 1, 0, 0, 0, 0), "copied once"); break;
    case 3: copy_construct_n(d, one, n); how = 2; vf_assert(cnt<T>(n, 0, 0, 1, 0, 0, 0, 0), "copied once"); break;
    case 4: copy_assign_n(d, (T const*)s, n); how = 1; vf_assert(cnt<T>(n, 0, 0, 0, 0, 1, 0, 0), "assigned once"); break;
    case 5: copy_assign_n(d, one, n); how = 2; vf_assert(cnt<T>(n, 0, 0, 0, 0, 1, 0, 0), "assigned once"); break;
    case 6: move_construct_n(d, s, n); how = 1; moved = true; vf_assert(cnt<T>(n, 0, 0, 0, 1, 0, 0, 0), "moved once"); break;
    case 7: move_assign_n(d, s, n); how = 1; moved = true; vf_assert(cnt<T>(n, 0, 0, 0, 0, 0, 1, 0), "move-assigned once"); break;
    case 8: destroy_n(d, n); dtor = true; vf_assert(cnt<T>(n, 0, 0, 0, 0, 0, 0, 1), "destroyed once"); break;
    // single objects
    case 9: m = 1; construct(d); how = 3; vf_assert(cnt<T>(1, 1, 0, 0, 0, 0, 0, 0), "constructed"); break;
    case 10: m = 1; construct(d, A(x, d)); how = 2; vf_assert(cnt<T>(1, 0, 1, 0, 0, 0, 0, 0), "constructed"); break;
    case 11: m = 1; copy_construct(d, (T const*)s); how = 1; vf_assert(cnt<T>(1, 0, 0, 1, 0, 0, 0, 0), "copied"); break;
    case 12: m = 1; copy_construct(d, one); how = 2; vf_assert(cnt<T>(1, 0, 0, 1, 0, 0, 0, 0), "copied"); break;
    case 13: m = 1; copy_assign(d, (T const*)s); how = 1; vf_assert(cnt<T>(1, 0, 0, 0, 0, 1, 0, 0), "assigned"); break;
    case 14: m = 1; copy_assign(d, one); how = 2; vf_assert(cnt<T>(1, 0, 0, 0, 0, 1, 0, 0), "assigned"); break;
    case 15: m = 1; move_construct(d, s); how = 1; moved = true; vf_assert(cnt<T>(1, 0, 0, 0, 1, 0, 0, 0), "moved"); break;
    case 16: m = 1; move_assign(d, s); how = 1; moved = true; vf_assert(cnt<T>(1, 0, 0, 0, 0, 0, 1, 0), "move-assigned"); break;
    case 17: m = 1; destroy(d); dtor = true; vf_assert(cnt<T>(1, 0, 0, 0, 0, 0, 0, 1), "destroyed"); break;
    }
    for(size_t i = 0; i < MX; ++i)
    {
        bool in = i >= 2 && i < 2 + m; size_t k = i - 2;
        int16_t e = !in || dtor ? a.o[i] : how == 1 ? b.o[k + 1] : how == 2 ? x : K<T>::OBJ ? (int16_t)77 : (int16_t)0;
        if(!(in && dtor)) vf_assert(V(*a.at(i)) == e, "destination: exactly the range, with the given values");
        bool src = how == 1 && i >= 1 && i < 1 + m; vf_assert(V(*b.at(i)) == (src && moved && K<T>::OBJ ? (int16_t)-1 : b.o[i]), "source: intact, or moved from");
    }
    vf_assert(V(one) == x, "value intact"); vf_cover(true, "end");
}
extern "C" void h_range_obj() { range<Obj>(); }
extern "C" void h_range_pod() { range<Pod>(); }
extern "C" void h_range_int() { range<int16_t>(); }
// make and destroy room. params: size, room, pos, form
template<class T> static void room()
{
    static Buf<T> a, b; a.fill(); b.fill(); reset(); size_t n = vf_param(0), r = vf_param(1), p = vf_param(2); unsigned f = (unsigned)vf_param(3); T *d = a.at(1), *s = b.at(1); size_t len = 0; 
    switch(f)
    {
    case 0: make_room(d, n, r); p = 0; len = n + r; break;                   // at the beginning
    case 1: make_room(d, n + r, n, p, r); len = n + r; break;                // at pos, in place
    case 2: make_room(d, (T const*)s, n, r, p); len = n + r; break;          // into another buffer
    case 3: make_room(d, n + r, (T const*)s, n, r, p); len = n + r; break;
    case 4: destroy_room(d, n, r); p = 0; len = n - r; break;
    case 5: destroy_room(d, (T const*)s, n, r, p); len = n - r; break;
    }
    bool other = f == 2 || f == 3 || f == 5; int16_t *src = other ? b.o : a.o;
    for(size_t i = 0; i < MX; ++i)
    {
        int16_t v = V(*a.at(i));
        if(i < 1 || i >= 1 + (f == 4 ? n : len)) { vf_assert(v == a.o[i], "nothing outside is touched"); continue; }
        size_t k = i - 1; 
        if(f < 4) { if(k < p) vf_assert(v == src[1 + k], "before the room"); else if(k >= p + r) vf_assert(v == src[1 + k - r], "after the room: shifted"); else if(other) vf_assert(v == a.o[i], "the room itself is not written in another buffer"); }
        else if(k < len) vf_assert(v == src[1 + (k < p ? k : k + r)], "what remains, closed up");
    }
    if(other) for(size_t i = 0; i < MX; ++i) vf_assert(V(*b.at(i)) == b.o[i], "the source is intact");
    if(K<T>::OBJ) vf_assert(n_def == 0 && n_val == 0 && n_ca == 0, "no other operations"), vf_assert(f < 4 ? n_copy + n_move == (f < 2 && r == 0 ? 0 : f == 1 ? n - p : n) && n_dtor == 0 && n_ma == 0 : f == 5 ? n_copy + n_move == n - r && n_dtor == 0 : r == 0 ? n_ma + n_dtor + n_copy + n_move == 0 : r < n ? n_ma == n - r : n_dtor == n, "each element once");
    vf_cover(true, "end");
}
extern "C" void h_room_obj() { room<Obj>(); }
extern "C" void h_room_pod() { room<Pod>(); }
extern "C" void h_room_int() { room<int16_t>(); }
// arrays
extern "C" void h_arr() { int16_t s[3], d[3], e[3]; for(int i = 0; i < 3; ++i) s[i] = (int16_t)vf_u16(); copy_construct(d, s); copy_assign(e, s); for(int i = 0; i < 3; ++i) vf_assert(d[i] == s[i] && e[i] == s[i], "arrays"); vf_cover(true, "end"); }
