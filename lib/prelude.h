/* Environment for the C generated by ll2c: fixed-width types, nondeterministic
 * inputs, and models of the external functions the encoded code may call.
 * Every model here is part of the claim (listed in DESIGN.md). */
typedef _Bool u1;
typedef unsigned char u8; typedef signed char s8;
typedef unsigned short u16; typedef signed short s16;
typedef unsigned int u32; typedef signed int s32;
typedef unsigned long u64; typedef signed long s64;
typedef unsigned __int128 u128; typedef signed __int128 s128;
#define VF_BITS(w) typedef unsigned __CPROVER_bitvector[w] u##w; typedef signed __CPROVER_bitvector[w] s##w;

#define VF_NAN (__builtin_nan(""))
#define VF_NANF (__builtin_nanf(""))
#define VF_INF (__builtin_inf())
#define VF_INFF (__builtin_inff())
#define VF_FABS(x) __CPROVER_fabs(x)
#define VF_FABSF(x) __CPROVER_fabsf(x)

#ifndef VF_ERR_OK
#define VF_C4ERROR(msg) { __CPROVER_assert(0, msg); __CPROVER_assume(0); }
#else
#define VF_C4ERROR(msg) { __CPROVER_assume(0); }
#endif

/* ---- symbolic inputs: these input steps, in order, are the counterexample (formula slicing keeps them) */
u8 nondet_u8(void); u16 nondet_u16(void); u32 nondet_u32(void); u64 nondet_u64(void);
#define HAVE_ext_vf_u8 1
static u8 ext_vf_u8(void) { u8 v = nondet_u8(); __CPROVER_input("vfin", v); return v; }
#define HAVE_ext_vf_u16 1
static u16 ext_vf_u16(void) { u16 v = nondet_u16(); __CPROVER_input("vfin", v); return v; }
#define HAVE_ext_vf_u32 1
static u32 ext_vf_u32(void) { u32 v = nondet_u32(); __CPROVER_input("vfin", v); return v; }
#define HAVE_ext_vf_u64 1
static u64 ext_vf_u64(void) { u64 v = nondet_u64(); __CPROVER_input("vfin", v); return v; }

/* ---- memory */
void *malloc(__CPROVER_size_t);
void free(void*);
/* exact-size heap object; never null (allocation failure is out of scope) */
#define HAVE_ext_vf_alloc 1
static u8* ext_vf_alloc(u64 n) { u8 *p = (u8*)malloc(n); __CPROVER_assume(p != 0); return p; }
#define HAVE_ext_vf_free 1
static void ext_vf_free(u8 *p) { free(p); }
#define HAVE_ext__Znwm 1
static u8* ext__Znwm(u64 n) { return ext_vf_alloc(n); }
#define HAVE_ext__Znam 1
static u8* ext__Znam(u64 n) { return ext_vf_alloc(n); }
#define HAVE_ext_malloc 1
static u8* ext_malloc(u64 n) { return ext_vf_alloc(n); }
#define HAVE_ext__ZdlPv 1
static void ext__ZdlPv(u8 *p) { free(p); }
#define HAVE_ext__ZdlPvm 1
static void ext__ZdlPvm(u8 *p, u64 n) { free(p); }
#define HAVE_ext__ZdaPv 1
static void ext__ZdaPv(u8 *p) { free(p); }
#define HAVE_ext_free 1
static void ext_free(u8 *p) { free(p); }
/* aligned allocation: rejects bad alignments as the real one does; success otherwise. What alignment a block is guaranteed to have is
 * remembered (in this memory model addresses of blocks are always aligned, so asking the address would prove nothing) */
static u8 *vf_alp[8]; static u64 vf_ala[8]; static u32 vf_aln;
#define HAVE_ext_posix_memalign 1
static u32 ext_posix_memalign(u8 *out, u64 al, u64 n) { if(al < 8 || (al & (al - 1))) return 22; u8 *p = ext_vf_alloc(n); vf_alp[vf_aln & 7] = p; vf_ala[vf_aln & 7] = al; ++vf_aln; *(u8**)out = p; return 0; }
#define HAVE_ext_vf_address 1
static u64 ext_vf_address(u8 *p) { return (u64)__CPROVER_POINTER_OFFSET(p); }
#define HAVE_ext_vf_guar_align 1
static u64 ext_vf_guar_align(u8 *p) { for(u32 i = 0; i < 8; ++i) if(i < vf_aln && vf_alp[i] == p) return vf_ala[i]; return 16; }
static u8* vf_dynalloca(u64 n) { return ext_vf_alloc(n); }

static void vf_memcpy(u8 *d, u8 *s, u64 n)
{
  if(n && d != s && __CPROVER_same_object(d, s)) __CPROVER_assert(__CPROVER_POINTER_OFFSET(d) + n <= __CPROVER_POINTER_OFFSET(s) || __CPROVER_POINTER_OFFSET(s) + n <= __CPROVER_POINTER_OFFSET(d), "memcpy of overlapping memory");
  for(u64 i = 0; i < n; ++i) d[i] = s[i];
}
static void vf_memmove(u8 *d, u8 *s, u64 n)
{
  if(n == 0 || d == s) return;
  if((u64)d < (u64)s) { for(u64 i = 0; i < n; ++i) d[i] = s[i]; }
  else { for(u64 i = n; i > 0; --i) d[i-1] = s[i-1]; }
}
static void vf_memset(u8 *d, u8 v, u64 n)
{
  for(u64 i = 0; i < n; ++i) d[i] = v;
}
#define HAVE_ext_memcmp 1
static u32 ext_memcmp(u8 *a, u8 *b, u64 n)
{
  for(u64 i = 0; i < n; ++i) if(a[i] != b[i]) return a[i] < b[i] ? (u32)-1 : 1u;
  return 0;
}
#define HAVE_ext_bcmp 1
static u32 ext_bcmp(u8 *a, u8 *b, u64 n) { return ext_memcmp(a, b, n); }
#define HAVE_ext_memcpy 1
static u8* ext_memcpy(u8 *d, u8 *s, u64 n) { vf_memcpy(d, s, n); return d; }
#define HAVE_ext_memmove 1
static u8* ext_memmove(u8 *d, u8 *s, u64 n) { vf_memmove(d, s, n); return d; }
#define HAVE_ext_memset 1
static u8* ext_memset(u8 *d, u32 v, u64 n) { vf_memset(d, (u8)v, n); return d; }
#define HAVE_ext_strlen 1
static u64 ext_strlen(u8 *s) { u64 i = 0; while(s[i]) ++i; return i; }
#define HAVE_ext_memchr 1
static u8* ext_memchr(u8 *s, u32 c, u64 n) { for(u64 i = 0; i < n; ++i) if(s[i] == (u8)c) return s + i; return (u8*)0; }
#define HAVE_ext_strchr 1
static u8* ext_strchr(u8 *s, u32 c) { for(u64 i = 0; ; ++i) { if(s[i] == (u8)c) return s + i; if(!s[i]) return (u8*)0; } }
#define HAVE_ext_strncmp 1
static u32 ext_strncmp(u8 *a, u8 *b, u64 n)
{
  for(u64 i = 0; i < n; ++i) { if(a[i] != b[i]) return a[i] < b[i] ? (u32)-1 : 1u; if(!a[i]) return 0; }
  return 0;
}
#define HAVE_ext_strcmp 1
static u32 ext_strcmp(u8 *a, u8 *b)
{
  for(u64 i = 0; ; ++i) { if(a[i] != b[i]) return a[i] < b[i] ? (u32)-1 : 1u; if(!a[i]) return 0; }
}
#define HAVE_ext_strncpy 1
static u8* ext_strncpy(u8 *d, u8 *s, u64 n) { u64 i = 0; for( ; i < n && s[i]; ++i) d[i] = s[i]; for( ; i < n; ++i) d[i] = 0; return d; }
#define HAVE_ext_strcpy 1
static u8* ext_strcpy(u8 *d, u8 *s) { u64 i = 0; for( ; s[i]; ++i) d[i] = s[i]; d[i] = 0; return d; }
#define HAVE_ext_strnlen 1
static u64 ext_strnlen(u8 *s, u64 n) { u64 i = 0; while(i < n && s[i]) ++i; return i; }
#define HAVE_ext_memrchr 1
static u8* ext_memrchr(u8 *s, u32 c, u64 n) { for(u64 i = n; i > 0; --i) if(s[i - 1] == (u8)c) return s + i - 1; return (u8*)0; }
#define HAVE_ext_isdigit 1
static u32 ext_isdigit(u32 c) { return c >= '0' && c <= '9'; }
#define HAVE_ext_isalpha 1
static u32 ext_isalpha(u32 c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
#define HAVE_ext_isxdigit 1
static u32 ext_isxdigit(u32 c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
#define HAVE_ext_isupper 1
static u32 ext_isupper(u32 c) { return c >= 'A' && c <= 'Z'; }
#define HAVE_ext_islower 1
static u32 ext_islower(u32 c) { return c >= 'a' && c <= 'z'; }
#define HAVE_ext_isprint 1
static u32 ext_isprint(u32 c) { return c >= 32 && c < 127; }
#define HAVE_ext_isspace 1
static u32 ext_isspace(u32 c) { return c == ' ' || (c >= 9 && c <= 13); }
#define HAVE_ext_isalnum 1
static u32 ext_isalnum(u32 c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
#define HAVE_ext_toupper 1
static u32 ext_toupper(u32 c) { return (c >= 'a' && c <= 'z') ? c - 32 : c; }
#define HAVE_ext_tolower 1
static u32 ext_tolower(u32 c) { return (c >= 'A' && c <= 'Z') ? c + 32 : c; }
#define HAVE_ext_abort 1
static void ext_abort(void) { __CPROVER_assert(0, "abort called"); __CPROVER_assume(0); }
#define HAVE_ext___cxa_pure_virtual 1
static void ext___cxa_pure_virtual(void) { __CPROVER_assert(0, "pure virtual called"); __CPROVER_assume(0); }
#define HAVE_ext___cxa_atexit 1
static u32 ext___cxa_atexit(u8 *f, u8 *a, u8 *d) { return 0; }
#define HAVE_ext__ZSt20__throw_length_errorPKc 1
static void ext__ZSt20__throw_length_errorPKc(u8 *m) { __CPROVER_assert(0, "std::length_error"); __CPROVER_assume(0); }
#define HAVE_ext__ZSt17__throw_bad_allocv 1
static void ext__ZSt17__throw_bad_allocv(void) { __CPROVER_assert(0, "std::bad_alloc"); __CPROVER_assume(0); }
#define HAVE_ext__ZSt28__throw_bad_array_new_lengthv 1
static void ext__ZSt28__throw_bad_array_new_lengthv(void) { __CPROVER_assert(0, "std::bad_array_new_length"); __CPROVER_assume(0); }
#define HAVE_ext__ZSt19__throw_logic_errorPKc 1
static void ext__ZSt19__throw_logic_errorPKc(u8 *m) { __CPROVER_assert(0, "std::logic_error"); __CPROVER_assume(0); }

/* error hooks of c4/error.cpp (checked separately by C34): no debugger, no flags */
#ifndef VF_OWN_ERROR
#define HAVE_ext__ZN2c415get_error_flagsEv 1
static u32 ext__ZN2c415get_error_flagsEv(void) { return 0; }
#define HAVE_ext__ZN2c420is_debugger_attachedEv 1
static u1 ext__ZN2c420is_debugger_attachedEv(void) { return 0; }
#endif

/* ---- bit intrinsics */
static u32 vf_ctlz32(u32 v) { u32 n = 0; if(!v) return 32;
  if(!(v & 0xffff0000u)) { n += 16; v <<= 16; } if(!(v & 0xff000000u)) { n += 8; v <<= 8; }
  if(!(v & 0xf0000000u)) { n += 4; v <<= 4; } if(!(v & 0xc0000000u)) { n += 2; v <<= 2; }
  if(!(v & 0x80000000u)) { n += 1; } return n; }
static u64 vf_ctlz64(u64 v) { if(v >> 32) return vf_ctlz32((u32)(v >> 32)); return 32 + vf_ctlz32((u32)v); }
static u32 vf_cttz32(u32 v) { u32 n = 0; if(!v) return 32;
  if(!(v & 0xffffu)) { n += 16; v >>= 16; } if(!(v & 0xffu)) { n += 8; v >>= 8; }
  if(!(v & 0xfu)) { n += 4; v >>= 4; } if(!(v & 3u)) { n += 2; v >>= 2; } if(!(v & 1u)) n += 1; return n; }
static u64 vf_cttz64(u64 v) { if((u32)v) return vf_cttz32((u32)v); return 32 + vf_cttz32((u32)(v >> 32)); }
static u32 vf_bswap32(u32 v) { return (v >> 24) | ((v >> 8) & 0xff00u) | ((v << 8) & 0xff0000u) | (v << 24); }
static u64 vf_bswap64(u64 v) { return ((u64)vf_bswap32((u32)v) << 32) | vf_bswap32((u32)(v >> 32)); }
static u16 vf_bswap16(u16 v) { return (u16)((v >> 8) | (v << 8)); }
static u32 vf_ctpop32(u32 v) { v = v - ((v >> 1) & 0x55555555u); v = (v & 0x33333333u) + ((v >> 2) & 0x33333333u); v = (v + (v >> 4)) & 0x0f0f0f0fu; return (v * 0x01010101u) >> 24; }
static u64 vf_ctpop64(u64 v) { return vf_ctpop32((u32)v) + vf_ctpop32((u32)(v >> 32)); }
static u32 vf_fshl32(u32 a, u32 b, u32 c) { c &= 31; return c ? (a << c) | (b >> (32 - c)) : a; }
static u64 vf_fshl64(u64 a, u64 b, u64 c) { c &= 63; return c ? (a << c) | (b >> (64 - c)) : a; }
static u32 vf_fshr32(u32 a, u32 b, u32 c) { c &= 31; return c ? (a << (32 - c)) | (b >> c) : b; }
static u64 vf_fshr64(u64 a, u64 b, u64 c) { c &= 63; return c ? (a << (64 - c)) | (b >> c) : b; }

/* products of variables: factors 1 and -1 (signs) first, they cost nothing */
static u32 vf_mul32(u32 a, u32 b) { if(b == 1) return a; if(b == 0xffffffffu) return -a; if(a == 1) return b; if(a == 0xffffffffu) return -b; return a * b; }
static u64 vf_mul64(u64 a, u64 b) { if(b == 1) return a; if(b == 0xffffffffffffffffUL) return -a; if(a == 1) return b; if(a == 0xffffffffffffffffUL) return -b; return a * b; }

/* ---- division by the constants 10 and 100, helped by ghost quotients.
 * vf_mk100(q,a,b) builds x = 100*q + 10*a + b (a,b in 0..9, no overflow: assumed, as the harness wants x to be
 * any value of that many digits).  By uniqueness of Euclidean division x/100 == q, x%100 == 10a+b, x/10 == 10q+a,
 * x%10 == b, (10q+a)/10 == q, (10q+a)%10 == a.  vf_div/vf_rem return those values when the dividend equals a
 * recorded x and divide for real otherwise: the result is the quotient in every case. */
#define VF_NG 16
static u64 vf_gx[VF_NG], vf_gq[VF_NG], vf_gq10[VF_NG]; static u8 vf_ga[VF_NG], vf_gb[VF_NG];
static u32 vf_gn; static u32 vf_gc[4];
#define HAVE_ext_vf_mk100 1
static u64 ext_vf_mk100(u64 q, u8 a, u8 b)
{
  __CPROVER_assume(a <= 9 && b <= 9 && q <= 184467440737095516UL);
  u64 q10 = q * 10 + a;
  u64 x = q * 100 + (u64)(u8)(a * 10 + b);
  __CPROVER_assume(x >= q);
  u32 i = vf_gn++;
  vf_gx[i] = x; vf_gq[i] = q; vf_gq10[i] = q10; vf_ga[i] = a; vf_gb[i] = b;
  vf_gc[0] = vf_gc[1] = vf_gc[2] = vf_gc[3] = i;
  return x;
}
static u64 vf_gdiv(u64 x, u64 c, u32 k, u1 rem)
{ /* k: cursor index; rem: want remainder */
  u32 t = vf_gc[k];
  if(t > 0) vf_gc[k] = t - 1;
  if(c == 100) {
    if(x == vf_gx[t]) return rem ? (u64)(u8)(vf_ga[t] * 10 + vf_gb[t]) : vf_gq[t];
    for(u32 i = 0; i < vf_gn; ++i) if(x == vf_gx[i]) return rem ? (u64)(u8)(vf_ga[i] * 10 + vf_gb[i]) : vf_gq[i];
  } else {
    for(u32 i = vf_gn; i > 0; --i) {
      if(x == vf_gx[i-1]) return rem ? (u64)vf_gb[i-1] : vf_gq10[i-1];
      if(x == vf_gq10[i-1]) return rem ? (u64)vf_ga[i-1] : vf_gq[i-1];
    }
  }
  u64 nq, nr; __CPROVER_assume(nr < c && nq <= 0xffffffffffffffffUL / c && nq * c + nr == x && nq * c <= x);
  return rem ? nr : nq;
}
static u64 vf_udivc(u64 x, u64 c) { return vf_gn && (c == 100 || c == 10) ? vf_gdiv(x, c, c == 100 ? 0 : 1, 0) : x / c; }
static u64 vf_uremc(u64 x, u64 c) { return vf_gn && (c == 100 || c == 10) ? vf_gdiv(x, c, c == 100 ? 2 : 3, 1) : x % c; }
static s64 vf_sdivc(s64 x, s64 c) { return vf_gn && (c == 100 || c == 10) ? (x < 0 ? -(s64)vf_udivc(-(u64)x, (u64)c) : (s64)vf_udivc((u64)x, (u64)c)) : x / c; }
static s64 vf_sremc(s64 x, s64 c) { return vf_gn && (c == 100 || c == 10) ? (x < 0 ? -(s64)vf_uremc(-(u64)x, (u64)c) : (s64)vf_uremc((u64)x, (u64)c)) : x % c; }
