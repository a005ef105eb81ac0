/* C10: from the delta to the information object (drpm_read.c, deltarpm_to_drpm, drpm_free) and releasing a delta (C06: free_deltarpm) */
#include "drpm_verify.h"
#include "vp.h"
#include <sys/types.h>
#include <fcntl.h>
#include "drpm.h"
#include "drpm_private.h"
size_t nondet_size(void); uint32_t nondet_u32(void); uint64_t nondet_u64(void); _Bool nondet_b(void); int nondet_int(void); unsigned short nondet_us(void);
const unsigned char *g_piece_i, *g_now; size_t g_now_len; uint32_t g_len_i;
#define VP_STRCPY_OBJECT
#include "libc_str.h"
static char *g_nevr; static struct rpm *g_rpm;
#define HEXD(v) ((char)((v) < 10 ? '0' + (v) : 'a' + (v) - 10))
/* discharged for C07 (dump_hex), at the ghost position */
void dump_hex(char *d, const unsigned char *s, size_t n)
{
    __CPROVER_assert((n == 0 || __CPROVER_r_ok(s, n)) && __CPROVER_w_ok(d, 2 * n + 1), "dump_hex gets a buffer of twice the size and one");
    if (WHAT && g_k < n) { d[2 * g_k] = HEXD(s[g_k] >> 4); d[2 * g_k + 1] = HEXD(s[g_k] & 15); }
    d[2 * n] = 0;
}
void *memcpy(void *d, const void *s, size_t n)
{
    __CPROVER_assert(__CPROVER_r_ok(s, n) && __CPROVER_w_ok(d, n), "memcpy operands");
    if (WHAT && g_k < n / 4) ((uint32_t *)d)[g_k] = ((const uint32_t *)s)[g_k];
    return d;
}
int rpm_get_nevr(struct rpm *r, char **s)
{
    __CPROVER_assert(r == g_rpm, "the target package");
    /* variants about contents: only runs in which nothing fails */
    if (!WHAT && nondet_b()) return DRPM_ERR_MEMORY;
    size_t l;
    *s = g_nevr = vp_str_new(&l);
    return DRPM_ERR_OK;
}
#include "drpm_read.c"
static void *buf(size_t n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
void h_todrpm(void)
{
    struct deltarpm d;
    struct drpm o = {0};
    size_t l;
    vp_nstr = 0; g_k = nondet_size(); g_nevr = NULL; g_rpm = buf(1);
    g_piece_i = g_now = NULL; g_now_len = 0; g_len_i = 0;
    d.type = STD ? DRPM_TYPE_STANDARD : DRPM_TYPE_RPMONLY;
    d.filename = vp_str_new(&l); size_t fl = l;
    d.src_nevr = vp_str_new(&l); size_t nl = l, tl = 0;
    d.sequence = buf(d.sequence_len); d.tgt_leadsig = buf(d.tgt_leadsig_len);
    d.tgt_comp_param = d.tgt_comp_param_len ? buf(d.tgt_comp_param_len) : NULL;
    /* what the reader guarantees (readdelta_rest) */
    __CPROVER_assume(d.offadj_elems_count <= UINT32_MAX / 2 && d.int_copies_count <= UINT32_MAX / 2 && d.ext_copies_count <= UINT32_MAX / 2);
    d.offadj_elems = d.offadj_elems_count ? buf((size_t)d.offadj_elems_count * 8) : NULL;
    d.int_copies = d.int_copies_count ? buf((size_t)d.int_copies_count * 8) : NULL;
    d.ext_copies = d.ext_copies_count ? buf((size_t)d.ext_copies_count * 8) : NULL;
    if (STD) d.head.tgt_rpm = g_rpm; else { d.head.tgt_nevr = vp_str_new(&l); tl = l; }
    int r = deltarpm_to_drpm(&d, &o);
#if WHAT
    __CPROVER_assume(r == DRPM_ERR_OK);
#else
    if (r != DRPM_ERR_OK) {
        VP_ASSERT(o.filename == NULL && o.src_nevr == NULL && o.tgt_nevr == NULL && o.sequence == NULL && o.tgt_comp_param == NULL && o.tgt_leadsig == NULL && o.offadj_elems == NULL && o.int_copies == NULL && o.ext_copies == NULL, "a failed conversion holds nothing");
        VP_REACH("failed");
        return;
    }
#endif
    VP_ASSERT(o.version == d.version && o.type == d.type && o.comp == d.comp && o.tgt_size == d.tgt_size && o.tgt_comp == d.tgt_comp && o.tgt_header_len == d.tgt_header_len &&
              o.payload_fmt_off == d.payload_fmt_off && o.ext_data_len == d.ext_data_len && o.int_data_len == d.int_data_len, "numbers are taken over");
    VP_ASSERT(o.offadj_elems_size == 2 * d.offadj_elems_count && o.int_copies_size == 2 * d.int_copies_count && o.ext_copies_size == 2 * d.ext_copies_count, "array lengths");
#if WHAT == 1
    if (g_k < o.offadj_elems_size) VP_ASSERT(o.offadj_elems[g_k] == d.offadj_elems[g_k], "adjustments are taken over");
    if (g_k < o.int_copies_size) VP_ASSERT(o.int_copies[g_k] == d.int_copies[g_k], "internal copies are taken over");
    if (g_k < o.ext_copies_size) VP_ASSERT(o.ext_copies[g_k] == d.ext_copies[g_k], "external copies are taken over");
#endif
#define HEX(s, b, n, what) do { VP_ASSERT((s)[2 * (size_t)(n)] == 0, what); if (g_k < (n)) VP_ASSERT((s)[2 * g_k] == HEXD((b)[g_k] >> 4) && (s)[2 * g_k + 1] == HEXD((b)[g_k] & 15), what); } while (0)
#if WHAT == 2
    HEX(o.sequence, d.sequence, d.sequence_len, "sequence in hexadecimal");
    HEX(o.tgt_md5, d.tgt_md5, 16, "MD5 sum in hexadecimal");
#endif
#if WHAT == 3
    HEX(o.tgt_leadsig, d.tgt_leadsig, d.tgt_leadsig_len, "lead and signature in hexadecimal");
    if (d.tgt_comp_param_len) HEX(o.tgt_comp_param, d.tgt_comp_param, d.tgt_comp_param_len, "compression parameters in hexadecimal");
    else VP_ASSERT(o.tgt_comp_param == NULL, "no compression parameters");
#endif
#define STR(a, b, n, what) do { VP_ASSERT((a) != (b) && (a)[n] == 0, what); if (g_k < (n)) VP_ASSERT((a)[g_k] == (b)[g_k], what); } while (0)
#if WHAT == 4
    STR(o.filename, d.filename, fl, "file name is copied");
    STR(o.src_nevr, d.src_nevr, nl, "source NEVR is copied");
#endif
#if STD
    VP_ASSERT(o.tgt_nevr == g_nevr, "target NEVR is the package's");
#else
    if (WHAT == 4) STR(o.tgt_nevr, d.head.tgt_nevr, tl, "target NEVR is copied");
#endif
#if !WHAT
    drpm_free(&o);
    VP_ASSERT(o.filename == NULL && o.ext_copies == NULL && o.tgt_nevr == NULL, "released");
#endif
    VP_REACH("converted");
}
