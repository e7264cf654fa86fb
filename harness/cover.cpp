// Callbacks of -fsanitize-coverage=trace-pc,trace-cmp; linked only with the instrumented library.
#include "cover.h"
#include <cstring>
static Cover C;
static struct Init { Init() { tk_cover = &C; } } init;
static inline void feature(uint32_t f)
{
	if (C.hit[f] == 0) C.touched[C.nt++] = f;
	if (C.hit[f] < 255) C.hit[f]++;
}
static inline uint32_t pc_of(void *p) { return (uint32_t)(((uintptr_t)p * 0x9e3779b97f4a7c15ull) >> 40); }
static inline void cmp(void *p, uint64_t a, uint64_t b)
{
	if (!C.on) return;
	uint64_t x = a ^ b, d = a > b ? a - b : b - a;
	int bits = __builtin_popcountll(x), len = d ? 64 - __builtin_clzll(d) : 0;
	uint32_t h = pc_of(p);
	feature(Cover::SIZE + ((h * 131 + bits) & (Cover::SIZE - 1)));
	feature(Cover::SIZE + ((h * 131 + 66 + len) & (Cover::SIZE - 1)));
	if (x && C.np < 32) { C.pair[C.np].a = a; C.pair[C.np].b = b; C.np++; }
}
// floats: compared in an order-preserving integer form
static inline uint64_t key(double d)
{
	uint64_t u;
	memcpy(&u, &d, 8);
	return u >> 63 ? ~u : u | 1ull << 63;
}
extern "C" {
void __sanitizer_cov_trace_pc()
{
	if (!C.on) return;
	uint32_t h = pc_of(__builtin_return_address(0));
	feature((h ^ C.prev) & (Cover::SIZE - 1));
	C.prev = h >> 1;
}
#define RA __builtin_return_address(0)
void __sanitizer_cov_trace_cmp1(uint8_t a, uint8_t b) { cmp(RA, (uint64_t)(int8_t)a, (uint64_t)(int8_t)b); }
void __sanitizer_cov_trace_cmp2(uint16_t a, uint16_t b) { cmp(RA, (uint64_t)(int16_t)a, (uint64_t)(int16_t)b); }
void __sanitizer_cov_trace_cmp4(uint32_t a, uint32_t b) { cmp(RA, (uint64_t)(int32_t)a, (uint64_t)(int32_t)b); }
void __sanitizer_cov_trace_cmp8(uint64_t a, uint64_t b) { cmp(RA, a, b); }
void __sanitizer_cov_trace_const_cmp1(uint8_t a, uint8_t b) { cmp(RA, (uint64_t)(int8_t)b, (uint64_t)(int8_t)a); }
void __sanitizer_cov_trace_const_cmp2(uint16_t a, uint16_t b) { cmp(RA, (uint64_t)(int16_t)b, (uint64_t)(int16_t)a); }
void __sanitizer_cov_trace_const_cmp4(uint32_t a, uint32_t b) { cmp(RA, (uint64_t)(int32_t)b, (uint64_t)(int32_t)a); }
void __sanitizer_cov_trace_const_cmp8(uint64_t a, uint64_t b) { cmp(RA, b, a); }
void __sanitizer_cov_trace_cmpf(float a, float b) { cmp(RA, key(a), key(b)); }
void __sanitizer_cov_trace_cmpd(double a, double b) { cmp(RA, key(a), key(b)); }
void __sanitizer_cov_trace_switch(uint64_t v, uint64_t *c) { for (uint64_t i = 0; i < c[0] && i < 8; i++) cmp((char *)RA + i, v, c[2 + i]); }
}
