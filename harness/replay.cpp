// Native meaning of the harness interface: feeds one concrete assignment (a
// solver model) to the harness compiled against the real code.
// exit 0: ran to the end, property held; 1: property violated (or error/abort);
// 3: an assumption was false for these values (not a valid input).
#include "vf.h"
#include <stdio.h>
#include <stdlib.h>
#include <stdarg.h>
#include <string.h>
#include <vector>
#include <dlfcn.h>
#include <c4/error.hpp>
static std::vector<unsigned long long> vals; static size_t pos = 0;
static unsigned long long params[8];
static int fillbyte = 0xcd;
static uint64_t next() { return pos < vals.size() ? vals[pos++] : (pos++, 0); }
extern "C" {
uint8_t vf_u8() { return (uint8_t)next(); }
uint16_t vf_u16() { return (uint16_t)next(); }
uint32_t vf_u32() { return (uint32_t)next(); }
uint64_t vf_u64() { return next(); }
void* vf_alloc(uint64_t n) { void *p = malloc(n); if(getenv("VF_FILL")) memset(p, fillbyte, n); return p; }
void vf_free(void *p) { free(p); }
void vf_assume(bool c) { if(!c) { printf("REPLAY: assumption false\n"); fflush(stdout); _Exit(3); } }
void vf_assert(bool c, const char *w) { if(!c) { printf("REPLAY: VIOLATED: %s\n", w); fflush(stdout); _Exit(1); } }
void vf_cover(bool c, const char *w) { if(c) printf("REPLAY: reached: %s\n", w); }
uint64_t vf_mk100(uint64_t q, uint8_t a, uint8_t b) { vf_assume(a <= 9 && b <= 9 && q <= 184467440737095516UL); uint64_t x = q*100 + (uint64_t)(a*10+b); vf_assume(x >= q); return x; }
uint64_t vf_guar_align(void *p) { uintptr_t a = (uintptr_t)p; return a & -a; }
uint64_t vf_address(void *p) { return (uint64_t)(uintptr_t)p; }
uint64_t vf_param(unsigned i) { return params[i]; }
}
#ifndef VF_OWN_ERROR
namespace c4 {
void handle_error(srcloc where, const char *fmt, ...)
{
    char buf[512]; va_list a; va_start(a, fmt); vsnprintf(buf, sizeof buf, fmt, a); va_end(a);
#ifdef VF_ERR_OK
    printf("REPLAY: c4 error raised (documented): %s\n", buf); fflush(stdout); _Exit(3);
#else
    printf("REPLAY: VIOLATED: c4 error raised on valid input: %s:%d: %s\n", where.file, where.line, buf); fflush(stdout); _Exit(1);
#endif
}
void handle_warning(srcloc, const char *, ...) {}
error_flags get_error_flags() { return 0; }
void set_error_flags(error_flags) {}
error_callback_type get_error_callback() { return nullptr; }
void set_error_callback(error_callback_type) {}
bool is_debugger_attached() { return false; }
}
#endif
int main(int argc, char **argv)
{
    if(argc < 3) { fprintf(stderr, "usage: replay entry values.txt\n"); return 2; }
    void (*entry)() = (void(*)())dlsym(RTLD_DEFAULT, argv[1]); if(!entry) { printf("no entry %s\n", argv[1]); _Exit(3); }
    FILE *f = fopen(argv[2], "r"); if(!f) _Exit(3);
    char line[256];
    while(fgets(line, sizeof line, f))
    {
        unsigned i; unsigned long long v;
        if(sscanf(line, "param %u %llu", &i, &v) == 2) params[i] = v;
        else if(sscanf(line, "%llu", &v) == 1) vals.push_back(v);
    }
    fclose(f);
    if(const char *e = getenv("VF_FILL")) fillbyte = atoi(e);
    entry();
    printf("REPLAY: end reached\n");
    return 0;
}
