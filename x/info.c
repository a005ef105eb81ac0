/* concrete oracle for C10: delta -> information object -> getters */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"
VP_MAIN()
static char *hex(const unsigned char *b, size_t n)
{
    char *s = malloc(2 * n + 1);
    for (size_t i = 0; i < n; i++) { s[2 * i] = "0123456789abcdef"[b[i] >> 4]; s[2 * i + 1] = "0123456789abcdef"[b[i] & 15]; }
    s[2 * n] = 0;
    return s;
}
static unsigned char *bytes(size_t n) { unsigned char *b = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) b[i] = vp_u8(); return b; }
static uint32_t *words(size_t n) { uint32_t *b = n ? malloc(4 * n) : NULL; for (size_t i = 0; i < n; i++) b[i] = vp_u32(); return b; }
static char *str(size_t n) { char *b = malloc(n + 1); for (size_t i = 0; i < n; i++) b[i] = 'a' + vp_u8() % 26; b[n] = 0; return b; }
static void chk_str(struct drpm *d, int tag, const char *want)
{
    char *s = (char *)1;
    VP_ASSERT(drpm_get_string(d, tag, &s) == DRPM_ERR_OK, "string tag is accepted");
    VP_ASSERT(want ? s && !strcmp(s, want) : s == NULL, "string value");
    if (s) { s[0] = '#'; free(s); }
    VP_ASSERT(drpm_get_string(d, tag, &s) == DRPM_ERR_OK && (want ? s && !strcmp(s, want) : s == NULL), "string is the caller's own copy");
    free(s);
}
static void chk_num(struct drpm *d, int tag, unsigned long long want, int lv)
{
    unsigned u = 77; unsigned long l = 77; unsigned long long q = 77;
    VP_ASSERT(drpm_get_uint(d, tag, &u) == (lv < 2 ? DRPM_ERR_OK : DRPM_ERR_ARGS) && u == (lv < 2 ? want : 77), "drpm_get_uint");
    VP_ASSERT(drpm_get_ulong(d, tag, &l) == (lv < 3 ? DRPM_ERR_OK : DRPM_ERR_ARGS) && l == (lv < 3 ? want : 77), "drpm_get_ulong");
    VP_ASSERT(drpm_get_ullong(d, tag, &q) == DRPM_ERR_OK && q == want, "drpm_get_ullong");
}
static void chk_arr(struct drpm *d, int tag, const uint32_t *want, size_t n)
{
    unsigned long *a = NULL, k = 0;
    VP_ASSERT(drpm_get_ulong_array(d, tag, &a, &k) == DRPM_ERR_OK && k == n, "array length");
    for (size_t i = 0; i < n; i++) VP_ASSERT(a[i] == want[i], "array elements");
    VP_ASSERT(n || a == NULL, "empty array");
    free(a);
}
void vp_case(void)
{
    struct deltarpm s = {0};
    struct drpm *d = malloc(sizeof(*d));
    s.type = DRPM_TYPE_RPMONLY;
    s.version = vp_u8(); s.comp = vp_u8(); s.tgt_size = vp_u32(); s.tgt_comp = vp_u8(); s.tgt_header_len = vp_u32();
    s.payload_fmt_off = vp_u32(); s.ext_data_len = vp_u64(); s.int_data_len = vp_u64();
    s.filename = str(vp_u8() % 9);
    s.head.tgt_nevr = str(vp_u8() % 9);
    s.src_nevr = str(vp_u8() % 9);
    s.sequence = bytes(s.sequence_len = vp_u8() % 24);
    for (int i = 0; i < 16; i++) s.tgt_md5[i] = vp_u8();
    s.tgt_leadsig = bytes(s.tgt_leadsig_len = vp_u8() % 24);
    if ((s.tgt_comp_param_len = vp_u8() % 5)) s.tgt_comp_param = bytes(s.tgt_comp_param_len);
    s.offadj_elems = words(2 * (s.offadj_elems_count = vp_u8() % 5));
    s.int_copies = words(2 * (s.int_copies_count = vp_u8() % 5));
    s.ext_copies = words(2 * (s.ext_copies_count = vp_u8() % 5));
    VP_ASSERT(deltarpm_to_drpm(&s, d) == DRPM_ERR_OK, "conversion");
    int standard = vp_u8() & 1;
    if (standard) d->type = DRPM_TYPE_STANDARD;
    chk_str(d, DRPM_TAG_FILENAME, s.filename);
    chk_str(d, DRPM_TAG_SRCNEVR, s.src_nevr);
    chk_str(d, DRPM_TAG_TGTNEVR, s.head.tgt_nevr);
    char *h = hex(s.sequence, s.sequence_len); chk_str(d, DRPM_TAG_SEQUENCE, h); free(h);
    h = hex(s.tgt_md5, 16); chk_str(d, DRPM_TAG_TGTMD5, h); free(h);
    h = hex(s.tgt_leadsig, s.tgt_leadsig_len); chk_str(d, DRPM_TAG_TGTLEAD, h); free(h);
    h = s.tgt_comp_param_len ? hex(s.tgt_comp_param, s.tgt_comp_param_len) : NULL; chk_str(d, DRPM_TAG_TGTCOMPPARAM, h); free(h);
    chk_num(d, DRPM_TAG_VERSION, s.version, 1); chk_num(d, DRPM_TAG_TYPE, standard ? DRPM_TYPE_STANDARD : DRPM_TYPE_RPMONLY, 1);
    chk_num(d, DRPM_TAG_COMP, s.comp, 1); chk_num(d, DRPM_TAG_TGTSIZE, s.tgt_size, 1); chk_num(d, DRPM_TAG_TGTCOMP, s.tgt_comp, 1);
    chk_num(d, DRPM_TAG_TGTHEADERLEN, s.tgt_header_len, 2); chk_num(d, DRPM_TAG_PAYLOADFMTOFF, s.payload_fmt_off, 2);
    chk_num(d, DRPM_TAG_EXTDATALEN, s.ext_data_len, 3); chk_num(d, DRPM_TAG_INTDATALEN, s.int_data_len, 3);
    chk_arr(d, DRPM_TAG_ADJELEMS, s.offadj_elems, 2 * s.offadj_elems_count);
    chk_arr(d, DRPM_TAG_INTCOPIES, s.int_copies, 2 * s.int_copies_count);
    chk_arr(d, DRPM_TAG_EXTCOPIES, s.ext_copies, 2 * s.ext_copies_count);
    for (int tag = -2; tag < 25; tag++) {
        unsigned u; unsigned long l, *a; unsigned long long q; char *x = NULL;
        bool num = tag == DRPM_TAG_VERSION || tag == DRPM_TAG_TYPE || tag == DRPM_TAG_COMP || tag == DRPM_TAG_TGTSIZE || tag == DRPM_TAG_TGTCOMP ||
                   tag == DRPM_TAG_TGTHEADERLEN || tag == DRPM_TAG_PAYLOADFMTOFF || tag == DRPM_TAG_EXTDATALEN || tag == DRPM_TAG_INTDATALEN;
        bool ar = tag == DRPM_TAG_ADJELEMS || tag == DRPM_TAG_INTCOPIES || tag == DRPM_TAG_EXTCOPIES, st = tag >= 0 && tag <= 18 && !num && !ar;
        if (!num) VP_ASSERT(drpm_get_uint(d, tag, &u) == DRPM_ERR_ARGS && drpm_get_ulong(d, tag, &l) == DRPM_ERR_ARGS && drpm_get_ullong(d, tag, &q) == DRPM_ERR_ARGS, "number tags");
        if (!ar) VP_ASSERT(drpm_get_ulong_array(d, tag, &a, &l) == DRPM_ERR_ARGS, "array tags");
        if (!st) VP_ASSERT(drpm_get_string(d, tag, &x) == DRPM_ERR_ARGS, "string tags");
    }
    free((char *)s.filename); free(s.head.tgt_nevr); free(s.src_nevr); free(s.sequence); free(s.tgt_leadsig); free(s.tgt_comp_param);
    free(s.offadj_elems); free(s.int_copies); free(s.ext_copies);
    VP_ASSERT(drpm_destroy(&d) == DRPM_ERR_OK && d == NULL && drpm_destroy(&d) == DRPM_ERR_ARGS, "destroy");
}
