/* One source for verifier harnesses and native replay. */
#ifndef VP_H
#define VP_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>
#include <stdlib.h>
#include <string.h>

#ifdef VP_VERIFIER
# ifndef VP_N
#  define VP_N 64
# endif
unsigned char VP_IN[VP_N];
static size_t vp_cur;
static inline unsigned char vp_u8(void) { return vp_cur < VP_N ? VP_IN[vp_cur++] : 0; }
static inline size_t vp_left(void) { return VP_N - vp_cur; }
# define VP_ASSERT(c, name) __CPROVER_assert(c, name)
# define VP_REACH(name) __CPROVER_assert(0, "REACH " name)
# define VP_MAIN() void vp_case(void); void vp_main(void) { \
      unsigned char in[VP_N]; for (size_t i = 0; i < VP_N; i++) VP_IN[i] = in[i]; vp_cur = 0; vp_case(); }
# define VP_REQUIRE(c) __CPROVER_assume(c)
#else
# include <stdio.h>
static const unsigned char *vp_data;
static size_t vp_size, vp_cur;
static inline unsigned char vp_u8(void) { return vp_cur < vp_size ? vp_data[vp_cur++] : 0; }
static inline size_t vp_left(void) { return vp_size - vp_cur; }
# define VP_ASSERT(c, name) do { if (!(c)) { fprintf(stderr, "PROPERTY BROKEN: %s (%s:%d)\n", name, __FILE__, __LINE__); abort(); } } while (0)
# define VP_REACH(name) do { } while (0)
# define VP_REQUIRE(c) do { if (!(c)) return; } while (0)
# ifdef VP_FUZZ
#  define VP_MAIN() void vp_case(void); \
   int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n) { vp_data = d; vp_size = n; vp_cur = 0; vp_case(); return 0; }
# else
#  define VP_MAIN() void vp_case(void); \
   int main(int argc, char **argv) { \
     static unsigned char b[1 << 20]; FILE *f = argc > 1 ? fopen(argv[1], "rb") : NULL; \
     vp_size = f ? fread(b, 1, sizeof(b), f) : 0; if (f) fclose(f); \
     unsigned char *c = malloc(vp_size ? vp_size : 1); memcpy(c, b, vp_size); vp_data = c; vp_cur = 0; vp_case(); free(c); return 0; }
# endif
#endif

static inline uint16_t vp_u16(void) { uint16_t a = vp_u8(); return (uint16_t)(a << 8 | vp_u8()); }
static inline uint32_t vp_u32(void) { uint32_t a = vp_u16(); return a << 16 | vp_u16(); }
static inline uint64_t vp_u64(void) { uint64_t a = vp_u32(); return a << 32 | vp_u32(); }
#endif
