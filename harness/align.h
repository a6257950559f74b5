// std::align as specified, by pointer arithmetic (libstdc++'s goes through an integer and back, which the pointer encoding pays dearly for)
// vf_address: the address modulo any alignment; in the encoding, where objects begin at addresses with 48 zero bits, the offset in the object
#pragma once
#include <memory>
#include <stdint.h>
namespace std { inline void* vf_align(size_t al, size_t sz, void *&p, size_t &space) noexcept { if(space < sz) return nullptr; size_t d = (size_t)(-vf_address(p) & (al - 1)); if(d > space - sz) return nullptr; space -= d; return p = (char*)p + d; } }
#define align vf_align
