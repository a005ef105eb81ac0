/* C14: the match search (drpm_search.c, hash_create, hash_search) */
#include "drpm_verify.h"
#include "vp.h"
#include <sys/types.h>
#include "drpm.h"
#include "drpm_private.h"
#ifndef MAXLEN
#define MAXLEN ((size_t)1 << 40)
#endif
int nondet_int(void); _Bool nondet_b(void); size_t nondet_size(void); uint32_t nondet_u32(void);

/* the universally quantified precondition (invariant of the table), instantiated at an entry read */
void vp_hash_entry(size_t e, size_t n) { __CPROVER_assume(HASH_ENTRY(e, n)); }

/* contract of memcmp at the ghost position g_n of the new data */
int memcmp(const void *a, const void *b, size_t n)
{
    __CPROVER_assert(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp reads its operands");
    const unsigned char *x = a, *y = b;
    int r = nondet_int();
#ifndef VP_SAFE
    if (r == 0 && g_new != NULL) {
        if (__CPROVER_same_object(x, g_old) && __CPROVER_same_object(y, g_new)) __CPROVER_assume(MATCHES(x - g_old, y - g_new, n));
        if (__CPROVER_same_object(y, g_old) && __CPROVER_same_object(x, g_new)) __CPROVER_assume(MATCHES(y - g_old, x - g_new, n));
    }
#endif
    return r;
}
#ifdef H_CREATE
/* contract of calloc at the ghost position g_k */
void *calloc(size_t n, size_t m)
{
    if (nondet_b() || (m > 0 && n > ((size_t)-1) / 16 / m))
        return NULL;
    void *p = malloc(n * m);
    if (p != NULL && m == sizeof(size_t) && g_k < n)
        __CPROVER_assume(((size_t *)p)[g_k] == 0);
    return p;
}
#endif

static size_t match_len(const unsigned char *old, size_t old_len, const unsigned char *new, size_t new_len)
__CPROVER_requires(__CPROVER_r_ok(old, old_len) && __CPROVER_r_ok(new, new_len) && old_len <= MAXLEN && new_len <= MAXLEN)
__CPROVER_requires(__CPROVER_same_object(new, g_new) && __CPROVER_same_object(old, g_old))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value <= old_len && __CPROVER_return_value <= new_len)
#ifndef VP_SAFE
__CPROVER_ensures(MATCHES(old - g_old, new - g_new, __CPROVER_return_value))
#endif
;
#ifndef H_BUZ
static uint32_t buzhash(const unsigned char *buf)
__CPROVER_requires(__CPROVER_r_ok(buf, 16))
__CPROVER_assigns();
#endif
#include "drpm_search.c"

void h_match_len(void)
{
    size_t nl = nondet_size(), ol = nondet_size(), no = nondet_size(), oo = nondet_size();
    g_n = nondet_size();
    __CPROVER_assume(nl <= MAXLEN && ol <= MAXLEN && no <= nl && oo <= ol);
    unsigned char *n = malloc(nl), *o = malloc(ol);
    __CPROVER_assume(n != NULL && o != NULL);
    g_new = n; g_old = o;
    size_t r = match_len(o + oo, ol - oo, n + no, nl - no);
    VP_REACH("match_len returns");
}
void h_buz(void)
{
    size_t nl = nondet_size(), no = nondet_size();
    __CPROVER_assume(nl <= MAXLEN && nl >= 16 && no <= nl - 16);
    unsigned char *n = malloc(nl);
    __CPROVER_assume(n != NULL);
    (void)buzhash(n + no);
    VP_REACH("buzhash returns");
}
void h_search(void)
{
    size_t nl = nondet_u32(), ol = nondet_u32(), ht = nondet_u32(), scan = nondet_u32();
    g_n = nondet_size();
    __CPROVER_assume(nl <= MAXLEN && ol <= MAXLEN && ht >= 1 && scan <= nl);
    unsigned char *n = malloc(nl), *o = malloc(ol);
    struct hash h = {malloc(ht * sizeof(size_t)), ht};
    __CPROVER_assume(n != NULL && o != NULL && h.hash_table != NULL);
    g_new = n; g_old = o;
    size_t pos, len;
    size_t r = hash_search(&h, o, ol, n, nl, nondet_size(), scan, &pos, &len);
    __CPROVER_assert(r >= scan && r <= nl, "the reported position is at or after the scan position, inside the new data");
    __CPROVER_assert(len <= nl - r && len <= ol && (len == 0 || pos <= ol - len), "the match lies inside both data");
    __CPROVER_assert(len == 0 || len >= 16, "a match has at least the length of a block");
    __CPROVER_assert(len > 0 || r == nl, "no match only at the end of the new data");
    __CPROVER_assert(pos <= ol, "the old position lies inside the old data");
    __CPROVER_assert(MATCHES(pos, r, len), "every byte of the reported match is equal in both data");
    if (len > 0) VP_REACH("match found");
}
void h_create(void)
{
    size_t ol = nondet_size();
    g_k = nondet_size(); g_n = 0; g_new = NULL;
    __CPROVER_assume(ol <= MAXLEN);
    unsigned char *o = malloc(ol);
    __CPROVER_assume(o != NULL);
    struct hash *h;
    int e = hash_create(&h, o, ol);
    __CPROVER_assert(e == DRPM_ERR_OK || e == DRPM_ERR_MEMORY, "creating the table succeeds or reports lack of memory");
    if (e == DRPM_ERR_OK) {
        __CPROVER_assert(h->ht_len >= 1 && h->ht_len <= 0xFFFFFFFFu && __CPROVER_OBJECT_SIZE(h->hash_table) == h->ht_len * sizeof(size_t), "the table has the stated length");
        __CPROVER_assert(IMPLIES(g_k < h->ht_len, HASH_ENTRY(h->hash_table[g_k], ol)), "every entry names a whole block of the old data");
        VP_REACH("created");
        hash_free(&h);
    } else {
        __CPROVER_assert(h == NULL, "nothing is left behind on failure");
        VP_REACH("failed");
    }
    free(o);
}
