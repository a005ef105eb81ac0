/* C03: encoding the file order (drpm_make.c: seq_add, seq_append, seq_final).
 * The ghost decoder of vp_spec_seq.h runs along with the encoder. */
#include "drpm_verify.h"
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"
#ifndef MAXF
#define MAXF 0x1000000
#endif
size_t nondet_size(void); unsigned nondet_unsigned(void); _Bool nondet_b(void); unsigned char nondet_u8(void);
size_t g_fc;
#define NIB(d, i) ((i) % 2 == 0 ? (d)[(i) / 2] >> 4 : (d)[(i) / 2] & 15)

/* the decoder having consumed number v */
#define D_OLD(f) __CPROVER_old(g_dec.f)
#define D_KEEP(f) (g_dec.f == D_OLD(f))
#define D_JUMPED(v) (g_dec.pos == (v) && g_dec.toggle && !g_dec.jump && D_KEEP(len) && D_KEEP(val) && D_KEEP(bad))
#define D_ZERO (g_dec.jump && !g_dec.toggle == !D_OLD(toggle) && D_KEEP(pos) && D_KEEP(len) && D_KEEP(val) && D_KEEP(bad))
#define D_GAP(v) (g_dec.pos == D_OLD(pos) + (v) && g_dec.toggle && !g_dec.jump && D_KEEP(len) && D_KEEP(val) && D_KEEP(bad))
#define D_FITS(v) ((v) <= g_fc - D_OLD(len) && D_OLD(pos) < g_fc && (v) <= g_fc - D_OLD(pos))
#define D_RUN(v) (D_FITS(v) ? (g_dec.len == D_OLD(len) + (v) && g_dec.pos == D_OLD(pos) + (v) && !g_dec.toggle && !g_dec.jump && D_KEEP(bad) && \
    g_dec.val == (g_k >= D_OLD(len) && g_k - D_OLD(len) < (v) ? D_OLD(pos) + (g_k - D_OLD(len)) : D_OLD(val))) : g_dec.bad)
#define D_NUMBER(v) (D_OLD(jump) ? D_JUMPED(v) : (v) == 0 ? D_ZERO : !D_OLD(toggle) ? D_GAP(v) : D_RUN(v))

struct files_seq;
static bool seq_append(struct files_seq *seq, unsigned val)
__CPROVER_requires(g_dec.num == 0 && g_dec.shift == 0)
__CPROVER_assigns(g_dec)
__CPROVER_ensures(g_dec.num == 0 && g_dec.shift == 0)
__CPROVER_ensures(IMPLIES(__CPROVER_return_value, D_NUMBER((size_t)val)));

static size_t g_old_len, g_new_len;
static unsigned char *g_old_data;
/* contract of realloc, at the ghost nibble g_j and at the partly filled last byte */
static size_t g_last;
void *realloc(void *p, size_t n)
{
    __CPROVER_assert(p == g_old_data && (p == NULL || __CPROVER_r_ok(p, g_old_len)), "realloc of the sequence buffer");
    if (nondet_b())
        return NULL;
    unsigned char *q = malloc(n);
    if (!q)
        return NULL;
    size_t m = g_old_len < n ? g_old_len : n;
    if (p) {
        if (g_j / 2 < m) __CPROVER_assume(q[g_j / 2] == ((unsigned char *)p)[g_j / 2]);
        if (g_last / 2 < m) __CPROVER_assume(q[g_last / 2] == ((unsigned char *)p)[g_last / 2]);
    }
    return q;
}
#include "drpm_make.c"

static void any_dec(void)
{
    struct vp_dec d;
    g_dec = d;
    __CPROVER_assume(g_dec.num == 0 && g_dec.shift == 0);
    g_dec.toggle = nondet_b(); g_dec.jump = nondet_b(); g_dec.bad = false;
    g_k = nondet_size(); g_j = nondet_size(); g_fc = nondet_size();
    __CPROVER_assume(g_fc <= MAXF && g_dec.len <= g_fc);
}

/* the nibbles appended are the number, for every number and every state of the buffer */
void h_append(void)
{
    any_dec();
    struct files_seq seq;
    __CPROVER_assume(seq.alloc_len <= 0x10000000 && seq.alloc_len % SEQ_ALLOC_SIZE == 0);
    __CPROVER_assume(seq.index <= 2 * seq.alloc_len);
    seq.data = seq.alloc_len ? malloc(seq.alloc_len) : NULL;
    __CPROVER_assume(seq.alloc_len == 0 || seq.data != NULL);
    g_old_data = seq.data; g_old_len = seq.alloc_len; g_last = seq.index;
    if (seq.index % 2) __CPROVER_assume((seq.data[seq.index / 2] & 15) == 0);
    const size_t idx = seq.index, lss = seq.last_seq_start; const ssize_t ls = seq.last_seq;
    __CPROVER_assume(g_j < idx || g_j == idx);
    unsigned oldnib = g_j < idx ? NIB(seq.data, g_j) : 0;
    unsigned val = nondet_unsigned();
#ifdef VP_PARITY
    __CPROVER_assume(seq.index % 2 == VP_PARITY);
#endif
#ifdef VP_GROW
    /* case split: does the buffer have room for the number */
    size_t oct = 1;
    for (unsigned v = val; v >= 8; v /= 8) oct++;
    __CPROVER_assume((SEQ_BYTE_LEN(seq.index + oct) > seq.alloc_len) == VP_GROW);
#endif
    bool r = seq_append(&seq, val);
    VP_ASSERT(seq.last_seq == ls && seq.last_seq_start == lss, "only the buffer changes");
    if (!r) {
        VP_ASSERT(seq.index == idx, "nothing is appended on failure");
#if VP_GROW
        VP_REACH("append failed");
#endif
        return;
    }
    VP_ASSERT(seq.index > idx && seq.index - idx <= 11 && seq.index <= 2 * seq.alloc_len, "a number takes at most 11 nibbles, inside the buffer");
    VP_ASSERT(__CPROVER_r_ok(seq.data, seq.alloc_len) && seq.alloc_len % SEQ_ALLOC_SIZE == 0, "buffer of the recorded size");
    VP_ASSERT(g_j >= idx || NIB(seq.data, g_j) == oldnib, "earlier nibbles are kept");
    if (seq.index % 2) VP_ASSERT((seq.data[seq.index / 2] & 15) == 0, "the padding nibble is zero");
    /* vp_dec_payload over the new nibbles, with the single vp_dec_number(num) at the end */
    const size_t n = seq.index - idx;
    uint64_t num = 0;
    for (size_t i = 0; i < 11; i++)
        if (i < n) {
            unsigned b = NIB(seq.data, idx + i);
            VP_ASSERT(!(b & 8) == (i == n - 1), "exactly one number is appended");
            num += (uint64_t)(b & 7) << (3 * i);
        }
    VP_ASSERT(num == val, "the appended nibbles decode to the number");
    VP_REACH("appended");
}

/* representation invariant between two calls: k files encoded; the last run is still open */
static size_t g_count, g_idx_k;
static bool inv(const struct files_seq *s)
{
    if (s->last_seq < -1 || s->last_seq >= (ssize_t)g_fc || s->last_seq_start > (size_t)(s->last_seq + 1))
        return false;
    size_t run = (size_t)(s->last_seq + 1) - s->last_seq_start;
    if (s->last_seq == -1 ? s->last_seq_start != 0 : run == 0)
        return false;
    return g_dec.num == 0 && g_dec.shift == 0 && !g_dec.bad && g_dec.toggle && !g_dec.jump &&
           g_dec.pos == s->last_seq_start && g_dec.len + run == g_count && g_count <= g_fc &&
           (s->last_seq != -1 || g_count == 0) &&
           (g_k >= g_dec.len || g_dec.val == g_idx_k) &&
           (g_k < g_dec.len || g_k >= g_count || g_dec.pos + (g_k - g_dec.len) == g_idx_k);
}
void h_seq_init(void)
{
    any_dec();
    g_dec = (struct vp_dec){0}; g_dec.toggle = true; g_count = 0; g_idx_k = nondet_size();
    struct files_seq s = SEQ_INIT;
    VP_ASSERT(inv(&s), "the invariant holds initially");
    VP_REACH("init");
}
void h_seq_add(void)
{
    any_dec();
    g_count = nondet_size(); g_idx_k = nondet_size();
    struct files_seq s;
    __CPROVER_assume(inv(&s));
    unsigned index = nondet_unsigned();
    __CPROVER_assume(index < g_fc && g_count < g_fc);
    int r = seq_add(&s, index);
    VP_ASSERT(r == DRPM_ERR_OK || r == DRPM_ERR_MEMORY, "fails only when out of memory");
    if (r != DRPM_ERR_OK) { VP_REACH("no memory"); return; }
    if (g_k == g_count) g_idx_k = index;
    g_count++;
    VP_ASSERT(inv(&s), "after encoding one more file, the sequence decodes to the same files and this one");
    VP_REACH("added");
}
void h_seq_final(void)
{
    any_dec();
    g_count = nondet_size(); g_idx_k = nondet_size();
    struct files_seq s;
    __CPROVER_assume(inv(&s) && s.index <= SIZE_MAX - 1);
    size_t idx = s.index;
    unsigned char *d = s.data, *buf = NULL; size_t size = 0;
    int r = seq_final(&s, &buf, &size);
    if (r != DRPM_ERR_OK) { VP_ASSERT(r == DRPM_ERR_MEMORY, "out of memory"); VP_REACH("no memory"); return; }
    VP_ASSERT(buf == s.data && size == s.index / 2 + s.index % 2, "the whole buffer is returned");
    VP_ASSERT(!g_dec.bad && g_dec.len == g_count && (g_k >= g_count || g_dec.val == g_idx_k), "the sequence decodes to the encoded files");
    if (s.index % 2) {
        vp_dec_payload(0, g_fc); /* the padding nibble */
        VP_ASSERT(!g_dec.bad && g_dec.shift == 0 && g_dec.len == g_count && (g_k >= g_count || g_dec.val == g_idx_k), "padding changes nothing");
    }
    VP_REACH("final");
}
