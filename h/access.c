/* C10: what the information getters report; C17: error texts and argument checks (drpm.c) */
#include "drpm_verify.h"
#include "vp.h"
#include <limits.h>
#include "drpm.h"
#include "drpm_private.h"
#define VP_MAXSTR 0x10000000
#include "libc_str.h"
#include "drpm.c"
int nondet_int(void); _Bool nondet_b(void); size_t nondet_size(void); uint32_t nondet_u32(void);
#define MAXA 0x4000000

static size_t len[7];
static char *strs[7];
static char ch[7];
static uint32_t *arr[3], el[3];
/* any information object drpm_read can have produced */
static struct drpm *any_info(void)
{
    g_k = nondet_size();
    struct drpm *d = malloc(sizeof(*d));
    __CPROVER_assume(d != NULL);
    d->filename = vp_str_new(&len[0]);
    d->sequence = vp_str_new(&len[1]);
    d->src_nevr = vp_str_new(&len[2]);
    d->tgt_nevr = nondet_b() ? vp_str_new(&len[3]) : NULL;
    d->tgt_comp_param = nondet_b() ? vp_str_new(&len[4]) : NULL;
    d->tgt_leadsig = vp_str_new(&len[5]);
    len[6] = nondet_size();
    __CPROVER_assume(len[6] < sizeof(d->tgt_md5));
    d->tgt_md5[len[6]] = 0;
    if (g_k < len[6]) __CPROVER_assume(d->tgt_md5[g_k] != 0);
    vp_str_note(d->tgt_md5, len[6]);
    strs[0] = d->filename; strs[1] = d->sequence; strs[2] = d->src_nevr; strs[3] = d->tgt_nevr;
    strs[4] = d->tgt_comp_param; strs[5] = d->tgt_leadsig; strs[6] = d->tgt_md5;
    for (int i = 0; i < 7; i++)
        if (strs[i] && g_k < len[i]) ch[i] = strs[i][g_k];
    __CPROVER_assume(d->offadj_elems_size <= MAXA && d->int_copies_size <= MAXA && d->ext_copies_size <= MAXA);
    d->offadj_elems = arr[0] = d->offadj_elems_size ? malloc((size_t)d->offadj_elems_size * 4) : NULL;
    d->int_copies = arr[1] = d->int_copies_size ? malloc((size_t)d->int_copies_size * 4) : NULL;
    d->ext_copies = arr[2] = d->ext_copies_size ? malloc((size_t)d->ext_copies_size * 4) : NULL;
    __CPROVER_assume((!d->offadj_elems_size || arr[0]) && (!d->int_copies_size || arr[1]) && (!d->ext_copies_size || arr[2]));
    if (g_k < d->offadj_elems_size) el[0] = arr[0][g_k];
    if (g_k < d->int_copies_size) el[1] = arr[1][g_k];
    if (g_k < d->ext_copies_size) el[2] = arr[2][g_k];
    return d;
}
#define SAME(d, o) ((d)->version == (o).version && (d)->type == (o).type && (d)->comp == (o).comp && \
    (d)->tgt_size == (o).tgt_size && (d)->tgt_comp == (o).tgt_comp && (d)->tgt_header_len == (o).tgt_header_len && \
    (d)->payload_fmt_off == (o).payload_fmt_off && (d)->ext_data_len == (o).ext_data_len && \
    (d)->int_data_len == (o).int_data_len && (d)->filename == (o).filename && (d)->sequence == (o).sequence && \
    (d)->src_nevr == (o).src_nevr && (d)->tgt_nevr == (o).tgt_nevr && (d)->tgt_comp_param == (o).tgt_comp_param && \
    (d)->tgt_leadsig == (o).tgt_leadsig && (d)->offadj_elems == (o).offadj_elems && \
    (d)->int_copies == (o).int_copies && (d)->ext_copies == (o).ext_copies && \
    (d)->offadj_elems_size == (o).offadj_elems_size && (d)->int_copies_size == (o).int_copies_size && \
    (d)->ext_copies_size == (o).ext_copies_size)

/* number kept under a tag: level 1 unsigned, 2 also unsigned long, 3 also unsigned long long, 0 none */
static int number(const struct drpm *d, int tag, unsigned long long *v)
{
    switch (tag) {
    case DRPM_TAG_VERSION: *v = d->version; return 1;
    case DRPM_TAG_TYPE: *v = d->type; return 1;
    case DRPM_TAG_COMP: *v = d->comp; return 1;
    case DRPM_TAG_TGTSIZE: *v = d->tgt_size; return 1;
    case DRPM_TAG_TGTCOMP: *v = d->tgt_comp; return 1;
    case DRPM_TAG_TGTHEADERLEN: *v = d->tgt_header_len; return 2;
    case DRPM_TAG_PAYLOADFMTOFF: *v = d->payload_fmt_off; return 2;
    case DRPM_TAG_EXTDATALEN: *v = d->ext_data_len; return 3;
    case DRPM_TAG_INTDATALEN: *v = d->int_data_len; return 3;
    }
    return 0;
}
void h_numbers(void)
{
    struct drpm *d = any_info(), old = *d;
    int tag = nondet_int();
    unsigned u, u0 = u; unsigned long l, l0 = l; unsigned long long q, q0 = q, v = 0;
    int lv = number(d, tag, &v);
    int r1 = drpm_get_uint(d, tag, &u), r2 = drpm_get_ulong(d, tag, &l), r3 = drpm_get_ullong(d, tag, &q);
    VP_ASSERT(r1 == (lv == 1 ? DRPM_ERR_OK : DRPM_ERR_ARGS), "drpm_get_uint accepts exactly its tags");
    VP_ASSERT(r2 == (lv == 1 || lv == 2 ? DRPM_ERR_OK : DRPM_ERR_ARGS), "drpm_get_ulong accepts exactly its tags");
    VP_ASSERT(r3 == (lv ? DRPM_ERR_OK : DRPM_ERR_ARGS), "drpm_get_ullong accepts exactly its tags");
    VP_ASSERT(r1 == DRPM_ERR_OK ? u == v : u == u0, "drpm_get_uint value");
    VP_ASSERT(r2 == DRPM_ERR_OK ? l == v : l == l0, "drpm_get_ulong value");
    VP_ASSERT(r3 == DRPM_ERR_OK ? q == v : q == q0, "drpm_get_ullong value");
    VP_ASSERT(SAME(d, old), "reading changes nothing");
    if (lv == 1) VP_REACH("32-bit"); else if (lv == 2) VP_REACH("long"); else if (lv == 3) VP_REACH("64-bit"); else VP_REACH("refused");
}
static int string_tag(int tag)
{
    switch (tag) {
    case DRPM_TAG_FILENAME: return 0;
    case DRPM_TAG_SEQUENCE: return 1;
    case DRPM_TAG_SRCNEVR: return 2;
    case DRPM_TAG_TGTNEVR: return 3;
    case DRPM_TAG_TGTCOMPPARAM: return 4;
    case DRPM_TAG_TGTLEAD: return 5;
    case DRPM_TAG_TGTMD5: return 6;
    }
    return -1;
}
void h_strings(void)
{
    struct drpm *d = any_info(), old = *d;
    int tag = nondet_int(), t = string_tag(tag);
    char *s;
    int r = drpm_get_string(d, tag, &s);
    if (t < 0) {
        VP_ASSERT(r == DRPM_ERR_ARGS, "drpm_get_string accepts exactly its tags");
        VP_REACH("refused");
    } else if (strs[t] == NULL) {
        VP_ASSERT(r == DRPM_ERR_OK && s == NULL, "absent string reported as NULL");
        VP_REACH("absent");
    } else {
        VP_ASSERT(r == DRPM_ERR_OK || r == DRPM_ERR_MEMORY, "drpm_get_string accepts exactly its tags");
        if (r == DRPM_ERR_OK) {
            VP_ASSERT(__CPROVER_r_ok(s, len[t] + 1) && s[len[t]] == 0 && (g_k >= len[t] || s[g_k] == ch[t]), "string value");
            VP_ASSERT(!__CPROVER_same_object(s, strs[t]), "string is the caller's own copy");
            VP_REACH("string");
        } else
            VP_REACH("out of memory");
    }
    VP_ASSERT(SAME(d, old), "reading changes nothing");
    VP_ASSERT(t < 0 || !strs[t] || g_k >= len[t] || strs[t][g_k] == ch[t], "reading does not change the string");
}
void h_arrays(void)
{
    struct drpm *d = any_info(), old = *d;
    int tag = nondet_int(), t = tag == DRPM_TAG_ADJELEMS ? 0 : tag == DRPM_TAG_INTCOPIES ? 1 : tag == DRPM_TAG_EXTCOPIES ? 2 : -1;
    unsigned long *a, n;
    int r = drpm_get_ulong_array(d, tag, &a, &n);
    if (t < 0) {
        VP_ASSERT(r == DRPM_ERR_ARGS, "drpm_get_ulong_array accepts exactly its tags");
        VP_REACH("refused");
    } else {
        unsigned long want = t == 0 ? old.offadj_elems_size : t == 1 ? old.int_copies_size : old.ext_copies_size;
        VP_ASSERT(r == DRPM_ERR_OK || r == DRPM_ERR_MEMORY, "drpm_get_ulong_array accepts exactly its tags");
        if (r == DRPM_ERR_OK) {
            VP_ASSERT(n == want, "array length");
            VP_ASSERT(want ? __CPROVER_r_ok(a, want * sizeof(*a)) : a == NULL, "array storage");
            VP_ASSERT(g_k >= want || a[g_k] == el[t], "array elements");
            VP_REACH("array");
            if (want == 0) VP_REACH("empty array");
        }
    }
    VP_ASSERT(SAME(d, old), "reading changes nothing");
}
/* the same three calls without an object or without a place for the result */
void h_nullargs(void)
{
    struct drpm *d = any_info(), old = *d, *none = NULL, *keep = d;
    int tag = nondet_int(), mode = nondet_int();
    unsigned u; unsigned long l, n; unsigned long long q; char *s; unsigned long *a;
    VP_ASSERT(drpm_get_uint(NULL, tag, &u) == DRPM_ERR_ARGS && drpm_get_uint(d, tag, NULL) == DRPM_ERR_ARGS, "drpm_get_uint NULL");
    VP_ASSERT(drpm_get_ulong(NULL, tag, &l) == DRPM_ERR_ARGS && drpm_get_ulong(d, tag, NULL) == DRPM_ERR_ARGS, "drpm_get_ulong NULL");
    VP_ASSERT(drpm_get_ullong(NULL, tag, &q) == DRPM_ERR_ARGS && drpm_get_ullong(d, tag, NULL) == DRPM_ERR_ARGS, "drpm_get_ullong NULL");
    VP_ASSERT(drpm_get_string(NULL, tag, &s) == DRPM_ERR_ARGS && drpm_get_string(d, tag, NULL) == DRPM_ERR_ARGS, "drpm_get_string NULL");
    VP_ASSERT(drpm_get_ulong_array(NULL, tag, &a, &n) == DRPM_ERR_ARGS && drpm_get_ulong_array(d, tag, NULL, &n) == DRPM_ERR_ARGS &&
              drpm_get_ulong_array(d, tag, &a, NULL) == DRPM_ERR_ARGS, "drpm_get_ulong_array NULL");
    VP_ASSERT(drpm_destroy(NULL) == DRPM_ERR_ARGS && drpm_destroy(&none) == DRPM_ERR_ARGS, "drpm_destroy NULL");
    VP_ASSERT(drpm_read(NULL, "x") == DRPM_ERR_ARGS && drpm_read(&d, NULL) == DRPM_ERR_ARGS && d == keep, "drpm_read NULL");
    VP_ASSERT(drpm_make(NULL, NULL, "x", NULL) == DRPM_ERR_ARGS && drpm_make("x", "y", NULL, NULL) == DRPM_ERR_ARGS, "drpm_make NULL");
    VP_ASSERT(drpm_apply("x", NULL, "y") == DRPM_ERR_ARGS && drpm_apply("x", "y", NULL) == DRPM_ERR_ARGS, "drpm_apply NULL");
    VP_ASSERT(drpm_check(NULL, mode) == DRPM_ERR_ARGS, "drpm_check NULL");
    VP_ASSERT(mode == DRPM_CHECK_FULL || mode == DRPM_CHECK_FILESIZES || drpm_check("x", mode) == DRPM_ERR_ARGS, "drpm_check mode");
    VP_ASSERT(drpm_check_sequence("x", NULL, mode) == DRPM_ERR_ARGS, "drpm_check_sequence NULL");
    VP_ASSERT(mode == DRPM_CHECK_NONE || mode == DRPM_CHECK_FULL || mode == DRPM_CHECK_FILESIZES ||
              drpm_check_sequence(NULL, "a-b", mode) == DRPM_ERR_ARGS, "drpm_check_sequence mode");
    VP_ASSERT(mode == DRPM_CHECK_NONE || drpm_check_sequence("x", "a-b", mode) == DRPM_ERR_ARGS, "drpm_check_sequence: a mode other than none needs the file system");
    VP_ASSERT(SAME(d, old), "refused calls change nothing");
    VP_REACH("null");
}
/* strings are compared character by character: literals of known length */
void h_strerror(void)
{
    int e = nondet_int();
    const char *s = drpm_strerror(e);
    VP_ASSERT(s != NULL && __CPROVER_r_ok(s, 2) && s[0] != 0, "every error number has a non-empty text");
    int f = nondet_int();
    const char *t = drpm_strerror(f);
    bool known_e = e >= DRPM_ERR_OK && e <= DRPM_ERR_NOINSTALL, known_f = f >= DRPM_ERR_OK && f <= DRPM_ERR_NOINSTALL;
    unsigned i = 0;
    while (i < 40 && s[i] == t[i] && s[i] != 0) i++;
    VP_ASSERT(i < 40, "texts are short");
    bool same = s[i] == t[i];
    VP_ASSERT(same == (e == f || (!known_e && !known_f)), "documented errors have texts of their own, all other numbers share one");
    VP_REACH("strerror");
}
