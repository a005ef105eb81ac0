/* Verification-side meaning of the hooks in /repo/src (DRPM_VERIFY defined). */
#ifndef DRPM_VERIFY_H
#define DRPM_VERIFY_H
#include <stddef.h>
#include <stdint.h>
#include <stdbool.h>

#define DRPM_GHOST(...) __VA_ARGS__

/* clauses used inside DRPM_LOOP(...); bin/vp.py moves them behind the loop header */
#define INV(...)      __CPROVER_loop_invariant(__VA_ARGS__)
#define ASSIGNS(...)  __CPROVER_assigns(__VA_ARGS__)
#define DECREASES(...) __CPROVER_decreases(__VA_ARGS__)
#define WHOLE(p)      __CPROVER_object_whole(p)
#define ENTRY(x)      __CPROVER_loop_entry(x)
#define IMPLIES(a, b) (!(a) || (b))
/* an intermediate claim: proved, then used */
#ifndef VP_PART      /* 1: all but contents, 2: contents, using what 1 has proved */
# define VP_PART 0
#endif
#if VP_PART == 2
# define vp_proved(c, text) __CPROVER_assume(c)
#else
# define vp_proved(c, text) __CPROVER_assert(c, text)
#endif
#define vp_cut(c)     do { bool vp_c = (c); vp_proved(vp_c, "intermediate claim: " #c); __CPROVER_assume(vp_c); } while (0)


/* ghost (specification-only) variables: arbitrary but fixed positions ("Skolem" witnesses) */
size_t g_k, g_j, g_i;
/* an object a loop may write, where the program variable may also be null */
void *g_target;

/* spec functions */
static const signed char vp_hextab[256] = {-1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, -1, -1, -1, -1, -1, -1, -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, 10, 11, 12, 13, 14, 15, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1, -1};
#define HEXVAL(c) (vp_hextab[(unsigned char)(c)])

#include "vp_spec_seq.h"
#include "vp_spec_delta.h"
#include "vp_spec_search.h"
#include "vp_spec_diff.h"

/* an open file being read and hashed: position, bytes hashed, bytes that are to be hashed,
 * and the byte at position g_k */
struct vp_file { size_t pos, hashed, want; unsigned char byte_k; bool eof, fail, final, cmp; bool open; } g_file;
#endif
