// Stand-ins, in plain C, for the AVX-512 intrinsics that the AVX512 codec uses,
// after Intel's intrinsics guide. Force-included when that codec is compiled for the
// "avx512emu" configuration, so that its code runs on every x86-64 machine,
// with memory accesses of the same width.
#ifndef AVX512EMU_H
#define AVX512EMU_H
#include <stdint.h>
#include <string.h>
#include <immintrin.h>
typedef struct { uint8_t b[64]; } emu512;
#define __m512i emu512
#define EMU static inline __attribute__((unused)) emu512
#define FOR64 for (int i = 0; i < 64; i++)
EMU emu_load(const void *p) { emu512 r; memcpy(r.b, p, 64); return r; }
static inline __attribute__((unused)) void emu_store(void *p, emu512 a) { memcpy(p, a.b, 64); }
EMU emu_permutexvar_epi8(emu512 idx, emu512 a) { emu512 r; FOR64 r.b[i] = a.b[idx.b[i] & 63]; return r; }
EMU emu_multishift(emu512 ctl, emu512 a) {
	emu512 r;
	for (int q = 0; q < 8; q++) {
		uint64_t v = 0;
		for (int k = 7; k >= 0; k--) v = v << 8 | a.b[8 * q + k];
		for (int k = 0; k < 8; k++) { int s = ctl.b[8 * q + k] & 63; r.b[8 * q + k] = (uint8_t) (s ? v >> s | v << (64 - s) : v); }
	}
	return r;
}
EMU emu_rep(uint64_t v, int w) { emu512 r; FOR64 r.b[i] = (uint8_t) (v >> 8 * (i % w)); return r; }
EMU emu_arr32(const uint32_t *v) { emu512 r; FOR64 r.b[i] = (uint8_t) (v[i / 4] >> 8 * (i % 4)); return r; }
EMU emu_arr64(const uint64_t *v) { emu512 r; FOR64 r.b[i] = (uint8_t) (v[i / 8] >> 8 * (i % 8)); return r; }
EMU emu_arr8(const uint8_t *v) { emu512 r; FOR64 r.b[i] = v[i]; return r; }
EMU emu_and(emu512 a, emu512 b) { FOR64 a.b[i] &= b.b[i]; return a; }
EMU emu_or(emu512 a, emu512 b) { FOR64 a.b[i] |= b.b[i]; return a; }
EMU emu_xor(emu512 a, emu512 b) { FOR64 a.b[i] ^= b.b[i]; return a; }
EMU emu_add8(emu512 a, emu512 b) { FOR64 a.b[i] = (uint8_t) (a.b[i] + b.b[i]); return a; }
EMU emu_sub8(emu512 a, emu512 b) { FOR64 a.b[i] = (uint8_t) (a.b[i] - b.b[i]); return a; }
EMU emu_shuffle8(emu512 a, emu512 m) { emu512 r; FOR64 r.b[i] = m.b[i] & 0x80 ? 0 : a.b[(i & 48) | (m.b[i] & 15)]; return r; }
EMU emu_permute32(emu512 idx, emu512 a) { emu512 r; FOR64 r.b[i] = a.b[4 * (idx.b[i & 60] & 15) + (i & 3)]; return r; }
#define _mm512_loadu_si512(p)			emu_load(p)
#define _mm512_loadu_epi8(p)			emu_load(p)
#define _mm512_loadu_epi32(p)			emu_load(p)
#define _mm512_loadu_epi64(p)			emu_load(p)
#define _mm512_storeu_si512(p, a)		emu_store(p, a)
#define _mm512_storeu_epi8(p, a)		emu_store(p, a)
#define _mm512_storeu_epi32(p, a)		emu_store(p, a)
#define _mm512_storeu_epi64(p, a)		emu_store(p, a)
#define _mm512_permutexvar_epi8(i, a)		emu_permutexvar_epi8(i, a)
#define _mm512_permutexvar_epi32(i, a)		emu_permute32(i, a)
#define _mm512_multishift_epi64_epi8(c, a)	emu_multishift(c, a)
#define _mm512_set1_epi8(v)			emu_rep((uint8_t) (v), 1)
#define _mm512_set1_epi16(v)			emu_rep((uint16_t) (v), 2)
#define _mm512_set1_epi32(v)			emu_rep((uint32_t) (v), 4)
#define _mm512_set1_epi64(v)			emu_rep((uint64_t) (v), 8)
#define _mm512_setzero_si512()			emu_rep(0, 1)
#define _mm512_setr_epi8(...)			emu_arr8((const uint8_t[64]) { __VA_ARGS__ })
#define _mm512_setr_epi32(...)			emu_arr32((const uint32_t[16]) { __VA_ARGS__ })
#define _mm512_setr_epi64(...)			emu_arr64((const uint64_t[8]) { __VA_ARGS__ })
#define emu_rev16(a, b, c, d, e, f, g, h, i, j, k, l, m, n, o, p) _mm512_setr_epi32(p, o, n, m, l, k, j, i, h, g, f, e, d, c, b, a)
#define _mm512_set_epi32(...)			emu_rev16(__VA_ARGS__)
#define emu_rev8(a, b, c, d, e, f, g, h)	_mm512_setr_epi64(h, g, f, e, d, c, b, a)
#define _mm512_set_epi64(...)			emu_rev8(__VA_ARGS__)
#define _mm512_and_si512(a, b)			emu_and(a, b)
#define _mm512_or_si512(a, b)			emu_or(a, b)
#define _mm512_xor_si512(a, b)			emu_xor(a, b)
#define _mm512_add_epi8(a, b)			emu_add8(a, b)
#define _mm512_sub_epi8(a, b)			emu_sub8(a, b)
#define _mm512_shuffle_epi8(a, m)		emu_shuffle8(a, m)
#endif
