/* C14, C01: matches.  g_n is an arbitrary position of the new data (g_new). */
#ifndef VP_SPEC_SEARCH_H
#define VP_SPEC_SEARCH_H
size_t g_n;
const unsigned char *g_new, *g_old;
/* the old data at distance d from position g_n of the new data has the same byte */
#define EQ_AT(d) (g_old[(size_t)(d) + g_n] == g_new[g_n])
#ifdef VP_SAFE
# define MATCHES(pos, scan, len) 1
#else
# define MATCHES(pos, scan, len) IMPLIES(g_n >= (size_t)(scan) && g_n - (size_t)(scan) < (len), EQ_AT((size_t)(pos) - (size_t)(scan)))
#endif
/* hash table entry: 0 or 1 + offset of a whole block of 16 bytes within the first n bytes */
#define HASH_ENTRY(e, n) ((e) == 0 || ((n) >= 16 && (e) - 1 <= (n) - 16))
void vp_hash_entry(size_t e, size_t n);
#endif
