/* C06: releasing a delta (drpm_deltarpm.c, free_deltarpm) */
#include "drpm_verify.h"
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"
_Bool nondet_b(void); size_t nondet_size(void);
const unsigned char *g_piece_i, *g_now; size_t g_now_len; uint32_t g_len_i;
static unsigned g_rpm_freed; static struct rpm *g_rpm;
int rpm_destroy(struct rpm **r) { __CPROVER_assert(*r == g_rpm, "the delta's package"); if (*r == NULL) return DRPM_ERR_PROG; g_rpm_freed++; *r = NULL; return DRPM_ERR_OK; }
#include "drpm_deltarpm.c"
static void *any(void) { return nondet_b() ? NULL : malloc(nondet_size()); }
void h_free(void)
{
    struct deltarpm d;
    g_rpm_freed = 0;
    static char obj;
    g_rpm = nondet_b() ? NULL : (struct rpm *)&obj;
    d.type = nondet_b() ? DRPM_TYPE_STANDARD : DRPM_TYPE_RPMONLY;
    if (d.type == DRPM_TYPE_STANDARD) d.head.tgt_rpm = g_rpm; else d.head.tgt_nevr = any();
    _Bool std = d.type == DRPM_TYPE_STANDARD;
    d.src_nevr = any(); d.sequence = any(); d.tgt_comp_param = any(); d.offadj_elems = any(); d.tgt_leadsig = any();
    d.int_copies = any(); d.ext_copies = any(); d.add_data = any();
    d.int_data_as_ptrs = nondet_b();
    if (d.int_data_as_ptrs) d.int_data.ptrs = any(); else d.int_data.bytes = any();
    free_deltarpm(&d);
    VP_ASSERT(d.src_nevr == NULL && d.sequence == NULL && d.tgt_comp_param == NULL && d.offadj_elems == NULL && d.tgt_leadsig == NULL && d.int_copies == NULL &&
              d.ext_copies == NULL && d.add_data == NULL && d.int_data.bytes == NULL && d.head.tgt_rpm == NULL && d.sequence_len == 0 && d.ext_data_len == 0 &&
              d.int_data_len == 0 && d.add_data_len == 0, "the delta holds nothing");
    VP_ASSERT(g_rpm_freed == (std && g_rpm != NULL), "the package is released once");
    VP_REACH("released");
}
