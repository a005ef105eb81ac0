/* concrete oracle for C17 */
#include "vp.h"
#include <unistd.h>
#include <sys/stat.h>
#include "drpm.h"
#include "drpm_private.h"
VP_MAIN()
void vp_case(void)
{
    struct drpm dd = {0}, *d = &dd, *none = NULL;
    int tag = (int)vp_u8() - 5, mode = (int)vp_u32();
    unsigned u; unsigned long l, n; unsigned long long q; char *s; unsigned long *a;
    struct stat st;
    if (vp_u8() & 1) mode = vp_u8() % 8;
    VP_ASSERT(drpm_get_uint(NULL, tag, &u) == DRPM_ERR_ARGS && drpm_get_uint(d, tag, NULL) == DRPM_ERR_ARGS, "drpm_get_uint NULL");
    VP_ASSERT(drpm_get_ulong(NULL, tag, &l) == DRPM_ERR_ARGS && drpm_get_ulong(d, tag, NULL) == DRPM_ERR_ARGS, "drpm_get_ulong NULL");
    VP_ASSERT(drpm_get_ullong(NULL, tag, &q) == DRPM_ERR_ARGS && drpm_get_ullong(d, tag, NULL) == DRPM_ERR_ARGS, "drpm_get_ullong NULL");
    VP_ASSERT(drpm_get_string(NULL, tag, &s) == DRPM_ERR_ARGS && drpm_get_string(d, tag, NULL) == DRPM_ERR_ARGS, "drpm_get_string NULL");
    VP_ASSERT(drpm_get_ulong_array(NULL, tag, &a, &n) == DRPM_ERR_ARGS && drpm_get_ulong_array(d, tag, NULL, &n) == DRPM_ERR_ARGS &&
              drpm_get_ulong_array(d, tag, &a, NULL) == DRPM_ERR_ARGS, "drpm_get_ulong_array NULL");
    VP_ASSERT(drpm_destroy(NULL) == DRPM_ERR_ARGS && drpm_destroy(&none) == DRPM_ERR_ARGS, "drpm_destroy NULL");
    VP_ASSERT(drpm_read(NULL, "x") == DRPM_ERR_ARGS && drpm_read(&d, NULL) == DRPM_ERR_ARGS && d == &dd, "drpm_read NULL");
    VP_ASSERT(drpm_make(NULL, NULL, "x", NULL) == DRPM_ERR_ARGS && drpm_make("x", "y", NULL, NULL) == DRPM_ERR_ARGS, "drpm_make NULL");
    VP_ASSERT(drpm_apply("x", NULL, "vp_out") == DRPM_ERR_ARGS && drpm_apply("x", "y", NULL) == DRPM_ERR_ARGS && stat("vp_out", &st) != 0, "drpm_apply NULL");
    VP_ASSERT(drpm_check(NULL, mode) == DRPM_ERR_ARGS, "drpm_check NULL");
    VP_ASSERT(mode == DRPM_CHECK_FULL || mode == DRPM_CHECK_FILESIZES || drpm_check("x", mode) == DRPM_ERR_ARGS, "drpm_check mode");
    VP_ASSERT(drpm_check_sequence("x", NULL, mode) == DRPM_ERR_ARGS, "drpm_check_sequence NULL");
    VP_ASSERT(mode == DRPM_CHECK_NONE || mode == DRPM_CHECK_FULL || mode == DRPM_CHECK_FILESIZES ||
              drpm_check_sequence(NULL, "a-b", mode) == DRPM_ERR_ARGS, "drpm_check_sequence mode");
    VP_ASSERT(mode == DRPM_CHECK_NONE || drpm_check_sequence("x", "a-b", mode) == DRPM_ERR_ARGS, "drpm_check_sequence mode with a file");
    struct drpm_make_options *o;
    VP_ASSERT(drpm_make_options_init(&o) == DRPM_ERR_OK, "options");
    o->rpm_only = true; o->version = vp_u8() % 4;
    VP_ASSERT(o->version >= 3 || drpm_make("x", "y", "vp_out", o) == DRPM_ERR_ARGS, "rpm-only deltas need version 3");
    VP_ASSERT(stat("vp_out", &st) != 0, "a refused call writes nothing");
    drpm_make_options_destroy(&o);
    const char *t[13];
    for (int i = 0; i < 13; i++) {
        t[i] = drpm_strerror(i < 11 ? i : i == 11 ? (mode >= 0 && mode <= 10 ? 11 : mode) : -1);
        VP_ASSERT(t[i] && t[i][0], "every error number has a text");
        for (int j = 0; j < i; j++)
            VP_ASSERT((strcmp(t[i], t[j]) == 0) == (j > 10), "error texts");
    }
}
