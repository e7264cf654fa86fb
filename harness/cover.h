// What one execution of the instrumented library did: a set of features.
#ifndef COVER_H
#define COVER_H
#include <cstdint>
struct Cover {
	static const int SIZE = 1 << 16;
	bool on;
	uint32_t prev;
	int nt;                      // touched features
	uint8_t hit[2 * SIZE];       // [0,SIZE): edges, [SIZE,2*SIZE): how near comparisons came
	uint32_t touched[2 * SIZE];
	int np;                      // operand pairs of comparisons
	struct { uint64_t a, b; } pair[32];
	void begin() { for (int i = 0; i < nt; i++) hit[touched[i]] = 0; nt = np = 0; prev = 0; on = true; }
	void end() { on = false; }
};
extern Cover *tk_cover;          // null unless the library is instrumented
#endif
