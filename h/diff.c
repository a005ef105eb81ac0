/* C01: the diff (drpm_diff.c) */
#include "drpm_verify.h"
#include "vp.h"
#include <sys/types.h>
#include "drpm.h"
#include "drpm_private.h"
#ifndef MAXB
#define MAXB ((size_t)1 << 31)
#endif
int nondet_int(void); _Bool nondet_b(void); size_t nondet_size(void); uint32_t nondet_u32(void);
static size_t g_ol, g_nl;
static bool g_addblk; 
static unsigned g_step;     /* 1: instruction lists made, 2: literal data made, 3: add block finished */
static uint32_t *g_er, *g_ir, g_ec, g_ic;
static const unsigned char **g_da;
static uint64_t g_dl;
static struct { int x; } g_dhash, g_dstrm;
static bool g_hash_live, g_strm_live;

#ifdef H_DIFF
#define PTRS (er == &g_er && ec == &g_ec && ir == &g_ir && ic == &g_ic)
static int create_diff_copies(const struct diff_copy *dc, size_t n, uint32_t **er, uint32_t *ec, uint32_t **ir, uint32_t *ic);
static int create_int_data_array(const struct diff_copy *dc, const unsigned char *new, const uint32_t *icp, uint32_t ic, const unsigned char ***da, uint64_t *dl);
#endif
#include "drpm_diff.c"
#ifdef H_DIFF
static int create_diff_copies(const struct diff_copy *dc, size_t n, uint32_t **er, uint32_t *ec, uint32_t **ir, uint32_t *ic)
__CPROVER_requires(n == g_diff.n && (n == 0 || dc == g_diff_buf))
__CPROVER_requires(g_diff.pos == g_nl)
__CPROVER_requires(DIFF_KEPT(n))
__CPROVER_requires(er == &g_er && ec == &g_ec && ir == &g_ir && ic == &g_ic && g_step == 0)
__CPROVER_assigns(g_er, g_ec, g_ir, g_ic, g_step)
__CPROVER_ensures((__CPROVER_return_value == DRPM_ERR_OK && g_step == 1) || (__CPROVER_return_value == DRPM_ERR_MEMORY && g_step == 0));
static int create_int_data_array(const struct diff_copy *dc, const unsigned char *new, const uint32_t *icp, uint32_t ic, const unsigned char ***da, uint64_t *dl)
__CPROVER_requires(g_step == 1 && (g_diff.n == 0 || dc == g_diff_buf) && new == g_new && icp == g_ir && ic == g_ic && da == &g_da && dl == &g_dl)
__CPROVER_requires(DIFF_KEPT(g_diff.n))
__CPROVER_assigns(g_da, g_dl, g_step)
__CPROVER_ensures((__CPROVER_return_value == DRPM_ERR_OK && g_step == 2) || (__CPROVER_return_value == DRPM_ERR_MEMORY && g_step == 1));

int hash_create(struct hash **h, const unsigned char *old, size_t old_len)
{
    __CPROVER_assert(old == g_old && old_len == g_ol, "the old data is indexed");
    if (nondet_b()) { *h = NULL; g_diff.failed = true; return DRPM_ERR_MEMORY; }
    *h = (struct hash *)&g_dhash; g_hash_live = true;
    return DRPM_ERR_OK;
}
void hash_free(struct hash **h) { __CPROVER_assert(*h == (struct hash *)&g_dhash && g_hash_live, "the index is released once"); g_hash_live = false; }
/* contract of hash_search: obligations hash_search.safe and hash_search.match (C14) */
size_t hash_search(struct hash *h, const unsigned char *old, size_t old_len, const unsigned char *new, size_t new_len,
                   size_t last_offset, size_t scan, size_t *pos_ret, size_t *len_ret)
{
    __CPROVER_assert(h == (struct hash *)&g_dhash && g_hash_live && old == g_old && old_len == g_ol && new == g_new && new_len == g_nl && scan <= new_len,
                     "match search is asked about these data and a position inside them");
    size_t r = nondet_size(), pos = nondet_size(), len = nondet_size();
    __CPROVER_assume(r >= scan && r <= new_len && len <= new_len - r && len <= old_len && (len == 0 || pos <= old_len - len));
    __CPROVER_assume((len == 0 || len >= 16) && (len > 0 || r == new_len) && pos <= old_len);
    *pos_ret = pos; *len_ret = len;
    return r;
}
int compstrm_init(struct compstrm **s, int fd, unsigned short comp, int level)
{
    __CPROVER_assert(g_addblk && fd == -1, "an add block is compressed in memory, if asked for");
    int e = nondet_int();
    __CPROVER_assume(e >= 0);
    if (e == DRPM_ERR_OK || nondet_b()) { *s = (struct compstrm *)&g_dstrm; g_strm_live = true; } else *s = NULL;
    if (e) g_diff.failed = true;
    return e;
}
int compstrm_write(struct compstrm *s, size_t len, const void *buf)
{
    __CPROVER_assert(s == (struct compstrm *)&g_dstrm && g_strm_live && __CPROVER_r_ok(buf, len), "add bytes are written from a valid buffer");
    if (nondet_b()) { g_diff.failed = true; return DRPM_ERR_IO; }
    if (g_diff.seen && g_diff.at >= g_diff.written && g_diff.at - g_diff.written < len) {
        g_diff.got = true;
        g_diff.byte = ((const unsigned char *)buf)[g_diff.at - g_diff.written];
    }
    g_diff.written += len;
    return DRPM_ERR_OK;
}
int compstrm_finish(struct compstrm *s, unsigned char **d, size_t *n)
{
    __CPROVER_assert(s == (struct compstrm *)&g_dstrm && g_strm_live && g_step == 2, "the add block is finished after everything else");
    if (nondet_b()) { g_diff.failed = true; *d = NULL; return DRPM_ERR_IO; }
    *d = NULL; *n = nondet_u32();
    g_step = 3;
    return DRPM_ERR_OK;
}
int compstrm_destroy(struct compstrm **s)
{
    __CPROVER_assert(*s == (struct compstrm *)&g_dstrm && g_strm_live, "the stream is released once");
    g_strm_live = false; *s = NULL;
    return DRPM_ERR_OK;
}
/* contract of resize32: room for 32 more when the count is a multiple of 32 */
bool resize32(void **b, size_t n, size_t size)
{
    __CPROVER_assert(size == sizeof(struct diff_copy) && n == g_diff.n, "room for another entry is asked for");
    if (n % 32 == 0) {
        if (nondet_b() || n + 32 > g_diff_max) { g_diff.failed = true; return false; }
        __CPROVER_assert(n == 0 ? *b == NULL : *b == g_diff_buf, "the list grows");
        *b = g_diff_buf;
        g_diff.cap = n + 32;
    }
    return true;
}
void vp_diff_copy(const void *p)
{
    const struct diff_copy *e = p;
    __CPROVER_assert(e == g_diff_buf + g_diff.n && g_diff.n < g_diff.cap, "entry is appended where there is room");
    vp_proved(e->old_len <= g_nl - g_diff.pos && e->new_off == g_diff.pos + e->old_len && e->new_len <= g_nl - e->new_off, "external and literal part follow each other without gap or overlap");
    vp_proved(e->old_len <= g_ol && e->old_off <= g_ol - e->old_len, "external part lies inside the old data");
    g_diff.cur = VP_PART != 1 && g_n >= g_diff.pos && g_n - g_diff.pos < e->old_len;
    if (!g_addblk)
        __CPROVER_assert(IMPLIES(g_diff.cur, EQ_AT(e->old_off - g_diff.pos)), "without add block the external part equals the new data");
    else {
        if (g_diff.cur) { g_diff.seen = true; g_diff.at = g_diff.total + (g_n - g_diff.pos); g_diff.d = e->old_off - g_diff.pos; }
        g_diff.total += e->old_len;
    }
    if (g_diff.n == g_k) { g_diff.e_oo = e->old_off; g_diff.e_ol = e->old_len; g_diff.e_no = e->new_off; g_diff.e_nl = e->new_len; }
    g_diff.pos = e->new_off + e->new_len;
    g_diff.n++;
}
void h_diff(void)
{
    g_n = nondet_size(); g_k = nondet_size();
    g_diff = (struct vp_diff){0};
    g_diff.failed = g_hash_live = g_strm_live = false; g_step = 0;
    g_nl = nondet_u32(); g_ol = nondet_u32(); g_diff_max = nondet_u32();
    __CPROVER_assume(g_nl <= MAXB && g_ol <= MAXB);
    g_old = malloc(g_ol); g_new = malloc(g_nl);
    g_diff_buf = malloc(g_diff_max * sizeof(struct diff_copy));
    __CPROVER_assume(g_old != NULL && g_new != NULL && g_diff_buf != NULL);
    g_addblk = ADDBLK;
    unsigned char *ab = (void *)1; uint32_t abl;
    int r = make_diff(g_old, g_ol, g_new, g_nl, &g_da, &g_dl, &g_er, &g_ec, &g_ir, &g_ic, g_addblk ? &ab : NULL, g_addblk ? &abl : NULL, 3, 9);
    __CPROVER_assert(!g_hash_live && !g_strm_live, "index and stream are released");
    if (r == DRPM_ERR_OK) {
        __CPROVER_assert(g_step == (g_addblk ? 3 : 2), "all parts of the diff were made");
        __CPROVER_assert(!g_addblk || (g_diff.written == g_diff.total && IMPLIES(VP_PART != 1 && g_diff.seen, g_diff.got && g_diff.byte == ADD_AT(g_diff.d))),
                         "the add block holds exactly the differences over the external copies");
        __CPROVER_assert(!g_diff.failed, "no failure is hidden");
        VP_REACH("diff made");
    }
}
#endif

#if defined(H_COPIES)
static size_t g_n_entries;
bool resize16(void **b, size_t n, size_t size)
{
    bool ext = (void *)b == g_pext;
    __CPROVER_assert(size == 4 && (ext || (void *)b == g_pint) && n == 2 * (ext ? g_ox.n : g_oi.n), "room for another instruction is asked for");
    if (n % 16 == 0) {
        if (nondet_b() || n + 16 > (ext ? g_ext_max : g_int_max)) { if (ext) g_ox.failed = true; else g_oi.failed = true; return false; }
        __CPROVER_assert(n == 0 ? *b == NULL : *b == (ext ? g_ext_buf : g_int_buf), "the list grows");
        if (ext) { *b = g_ext_buf; g_ox.cap = n + 16; } else { *b = g_int_buf; g_oi.cap = n + 16; }
    }
    return true;
}
void vp_lists(void *e, void *i) { g_pext = e; g_pint = i; }
void vp_out_entry(const void *d, size_t i)
{
    const struct diff_copy *e = (const struct diff_copy *)d + i;
    __CPROVER_assert(i == g_out.i && i < g_n_entries && g_ox.left == 0 && g_oi.left == 0, "entries are taken in order, each completely");
    /* precondition, for every entry (obligation make_diff) */
    __CPROVER_assume(e->old_len <= g_out.oldlen && e->old_off <= g_out.oldlen - e->old_len && e->new_len <= g_out.newmax && e->new_off <= g_out.newmax);
    g_ox.left = e->old_len; g_ox.src = e->old_off;
    g_oi.left = e->new_len; g_out.no = e->new_off; g_out.nl = e->new_len;
    g_out.i++;
}
void vp_ext_emit(size_t k)
{
    __CPROVER_assert(k == g_ox.n && 2 * k + 1 < g_ox.cap, "instruction is appended where there is room");
    uint32_t l = g_ext_buf[2 * k + 1];
    size_t off = g_ox.off + (size_t)(int64_t)(int32_t)g_ext_buf[2 * k];
    if (l == 0)
        __CPROVER_assert(off <= g_out.oldlen, "move stays inside the old data");
    else {
        /* which lies inside the old data */
        __CPROVER_assert(off == g_ox.src && l <= g_ox.left, "external copy reads the next bytes of the external part");
        g_ox.src += l; g_ox.left -= l;
    }
    g_ox.off = off + l;
    if (k == g_k) { g_ox.a = g_ext_buf[2 * k]; g_ox.l = l; }
    g_ox.n++; g_ox.pend++;
}
void vp_int_emit(size_t k)
{
    __CPROVER_assert(k == g_oi.n && 2 * k + 1 < g_oi.cap, "instruction is appended where there is room");
    uint32_t l = g_int_buf[2 * k + 1];
    __CPROVER_assert(g_int_buf[2 * k] == g_ox.pend, "internal copy follows all external copies made before it");
    __CPROVER_assert(g_ox.left == 0 && l <= g_oi.left && !g_oi.zero, "internal copy takes the next bytes of the literal part");
    if (k == g_j) { g_oi.a = g_int_buf[2 * k]; g_oi.l = l; g_oi.lit = g_out.no + (g_out.nl - g_oi.left); g_oi.entry = g_out.i - 1; }
    g_oi.zero = l == 0;
    g_ox.pend = 0; g_oi.left -= l; g_oi.n++;
}
void h_copies(void)
{
    g_k = nondet_size(); g_j = nondet_size();
    g_ox = (struct vp_ox){0}; g_oi = (struct vp_oi){0}; g_out = (struct vp_out){0};
    size_t n = g_n_entries = nondet_u32();
    g_out.oldlen = nondet_u32(); g_out.newmax = nondet_u32();
    g_ext_max = nondet_u32(); g_int_max = nondet_u32();
    __CPROVER_assume(g_ext_max <= MAXB && g_int_max <= MAXB);
    struct diff_copy *dc = malloc(n * sizeof(*dc));
    g_ext_buf = malloc(g_ext_max * sizeof(uint32_t)); g_int_buf = malloc(g_int_max * sizeof(uint32_t));
    __CPROVER_assume(dc != NULL && g_ext_buf != NULL && g_int_buf != NULL);
    uint32_t *er = NULL, *ir = NULL, ec, ic;
    int r = create_diff_copies(dc, n, &er, &ec, &ir, &ic);
    if (r == DRPM_ERR_OK) {
        __CPROVER_assert(g_out.i == n && g_ox.left == 0 && g_oi.left == 0 && g_ox.pend == 0, "all parts of all entries are covered, every external copy by an internal one");
        __CPROVER_assert(ec == g_ox.n && ic == g_oi.n && (ec == 0 || er == g_ext_buf) && (ic == 0 || ir == g_int_buf), "lists and counts are handed over");
        __CPROVER_assert(IMPLIES(g_k < ec, g_ext_buf[2 * g_k] == g_ox.a && g_ext_buf[2 * g_k + 1] == g_ox.l), "external copies stay as they were made");
        __CPROVER_assert(IMPLIES(g_j < ic, g_int_buf[2 * g_j] == g_oi.a && g_int_buf[2 * g_j + 1] == g_oi.l), "internal copies stay as they were made");
        __CPROVER_assert(!g_ox.failed && !g_oi.failed, "no failure is hidden");
        VP_REACH("lists made");
    } else
        __CPROVER_assert(r == DRPM_ERR_MEMORY && er == NULL && ir == NULL, "on failure nothing is handed over");
}
#endif

#ifdef H_DATA
static size_t g_ndc;
void vp_lit_next(const void *d, const unsigned char *new, const uint32_t *ic, size_t i)
{
    const struct diff_copy *dc = d;
    uint32_t l = ic[2 * i + 1];
    __CPROVER_assert(i == g_lit.i, "internal copies are taken in order");
    /* what create_diff_copies guarantees about internal copy i and the one before it (obligation create_diff_copies) */
    if (l > 0) {
        size_t J = nondet_size(), O = nondet_size();
        __CPROVER_assume(!g_lit.zero && J < g_ndc && dc[J].new_len <= g_nl && dc[J].new_off <= g_nl && O <= dc[J].new_len && l <= dc[J].new_len - O);
        if (!g_lit.started) __CPROVER_assume(O == 0);
        else if (g_lit.end < dc[g_lit.J].new_len) __CPROVER_assume(J == g_lit.J && O == g_lit.end);
        else __CPROVER_assume(O == 0 && J > g_lit.J);
        g_lit.J = J; g_lit.O = O; g_lit.end = O + l; g_lit.started = true;
        if (i == g_j) g_lit.ptr = new + dc[J].new_off + O;
    } else {
        __CPROVER_assume(!g_lit.zero);
        g_lit.zero = true;
        if (i == g_j) g_lit.kzero = true;
    }
    g_lit.sum += l; g_lit.i++;
}
void vp_lit_entry(const void *d, size_t j)
{
    const struct diff_copy *dc = d;
    __CPROVER_assert(j <= g_lit.J, "only entries up to the one the literal belongs to are looked at");
    __CPROVER_assume(j == g_lit.J ? dc[j].new_len > 0 : dc[j].new_len == 0);
}
void h_data(void)
{
    g_j = nondet_size();
    g_lit = (struct vp_lit){0};
    g_nl = nondet_u32(); g_ndc = nondet_u32();
    g_lit_n = g_ndc;
    uint32_t ic = nondet_u32();
    __CPROVER_assume(g_nl <= MAXB && ic <= MAXB);
    struct diff_copy *dc = malloc(g_ndc * sizeof(*dc));
    uint32_t *icp = malloc((size_t)ic * 8);
    unsigned char *new = malloc(g_nl);
    __CPROVER_assume(dc != NULL && icp != NULL && new != NULL);
    const unsigned char **da = NULL; uint64_t dl = 7;
    int r = create_int_data_array(dc, new, icp, ic, &da, &dl);
    if (r == DRPM_ERR_OK) {
        __CPROVER_assert(g_lit.i == ic && dl == g_lit.sum, "the literal data is as long as the internal copies together");
        __CPROVER_assert(IMPLIES(g_j < ic && !g_lit.kzero, da[g_j] == g_lit.ptr), "every literal is the one its internal copy stands for");
        VP_REACH("literal data made");
    } else
        __CPROVER_assert(r == DRPM_ERR_MEMORY && da == NULL, "on failure nothing is handed over");
}
#endif
