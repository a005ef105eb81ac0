/* concrete oracle for C09: a call sequence on two options objects against a reference model */
#include "vp.h"
#include <limits.h>
#include <stdio.h>
#include "drpm.h"
#include "drpm_private.h"
VP_MAIN()
static int fail_in;             /* allocation that fails (0: none) */
static bool oom;
static bool alloc_fails(void) { if (fail_in && --fail_in == 0) { oom = true; return true; } return false; }
static void *vp_malloc(size_t n) { return alloc_fails() ? NULL : malloc(n); }
static void *vp_realloc(void *p, size_t n) { return alloc_fails() ? NULL : realloc(p, n); }
static char *vp_strdup(const char *s) { return alloc_fails() ? NULL : strdup(s); }
static void *vp_calloc(size_t a, size_t b) { return alloc_fails() ? NULL : calloc(a, b); }
#undef strdup
#define malloc(n) vp_malloc(n)
#define realloc(p, n) vp_realloc(p, n)
#define calloc(a, b) vp_calloc(a, b)
#define strdup(s) vp_strdup(s)
#include "drpm_options.c"
#undef malloc
#undef realloc
#undef calloc
#undef strdup
typedef struct drpm_make_options O;
static char *dup0(const char *s) { return s ? strdup(s) : NULL; }
static bool streq(const char *a, const char *b) { return a && b ? !strcmp(a, b) : a == b; }
static O dflt(void)
{
    O d = {0};
    d.version = 3; d.comp_from_rpm = true; d.comp = USHRT_MAX; d.addblk = true; d.addblk_comp = DRPM_COMP_BZIP2;
    return d;
}
static void same(const O *a, const O *m)
{
    VP_ASSERT(a->rpm_only == m->rpm_only && a->version == m->version && a->comp_from_rpm == m->comp_from_rpm &&
              a->comp == m->comp && a->comp_level == m->comp_level && a->addblk == m->addblk &&
              a->addblk_comp == m->addblk_comp && a->addblk_comp_level == m->addblk_comp_level &&
              a->mbytes == m->mbytes, "settings are exactly those made");
    VP_ASSERT(streq(a->seqfile, m->seqfile) && streq(a->oldrpmprint, m->oldrpmprint) &&
              streq(a->oldpatchrpm, m->oldpatchrpm), "stored names are exactly those given");
}
static void mfree(O *m) { free(m->seqfile); free(m->oldrpmprint); free(m->oldpatchrpm); }
static bool comp_known(unsigned c)
{
#ifdef WITH_ZSTD
    if (c == DRPM_COMP_ZSTD) return true;
#endif
    return c <= 5;
}
static char *str(void)
{
    size_t n = vp_u8() % 20;
    char *s = malloc(n + 1);
    for (size_t i = 0; i < n; i++) s[i] = 'a' + vp_u8() % 26;
    s[n] = 0;
    return s;
}
void vp_case(void)
{
    O *o[2], m[2];
    fail_in = 0;
    for (int i = 0; i < 2; i++) { VP_ASSERT(drpm_make_options_init(&o[i]) == DRPM_ERR_OK, "init"); m[i] = dflt(); same(o[i], &m[i]); }
    while (vp_left() > 0) {
        unsigned op = vp_u8(), i = op >> 7, ok = 1, f = vp_u8();
        O *p = o[i], *q = &m[i];
        unsigned short a = f < 128 ? f % 16 : vp_u16(), b = 0;
        int r;
        fail_in = 0; oom = false;
        switch (op % 16) {
        case 0: r = drpm_make_options_set_type(p, a); if ((ok = a <= 1)) q->rpm_only = a == DRPM_TYPE_RPMONLY; break;
        case 1: r = drpm_make_options_set_version(p, a); if ((ok = a >= 1 && a <= 3)) q->version = a; break;
        case 2: case 3: b = vp_u8() % 12; r = drpm_make_options_set_delta_comp(p, a, b);
            if ((ok = comp_known(a) && b <= 9)) { q->comp_from_rpm = false; q->comp = a; q->comp_level = b; } break;
        case 4: r = drpm_make_options_get_delta_comp_from_rpm(p); q->comp_from_rpm = true; break;
        case 5: r = drpm_make_options_forbid_addblk(p); q->addblk = false; break;
        case 6: case 7: b = vp_u8() % 12; r = drpm_make_options_set_addblk_comp(p, a, b);
            if ((ok = comp_known(a) && b <= 9)) { q->addblk = true; q->addblk_comp = a; q->addblk_comp_level = b; } break;
        case 8: r = drpm_make_options_set_memlimit(p, a); q->mbytes = a; break;
        case 9: case 10: {
            char *s = f & 1 ? str() : NULL;
            fail_in = f >> 6;
            r = drpm_make_options_set_seqfile(p, s);
            if (oom) { VP_ASSERT(r == DRPM_ERR_MEMORY, "failed allocation is reported"); same(p, q); free(s); continue; }
            free(q->seqfile); q->seqfile = s; break; }
        case 11: case 12: {
            char *s = str(), *t = str();
            fail_in = f >> 6;
            r = drpm_make_options_add_patches(p, s, t);
            if (oom) { VP_ASSERT(r == DRPM_ERR_MEMORY, "failed allocation is reported"); same(p, q); free(s); free(t); continue; }
            free(q->oldrpmprint); free(q->oldpatchrpm); q->oldrpmprint = s; q->oldpatchrpm = t; break; }
        case 13: r = drpm_make_options_defaults(p); mfree(q); *q = dflt(); break;
        case 14: {
            unsigned j = f & 1;
            fail_in = f >> 6;
            r = drpm_make_options_copy(p, o[j]);
            if (oom) { VP_ASSERT(r == DRPM_ERR_MEMORY, "failed allocation is reported"); same(o[0], &m[0]); same(o[1], &m[1]); continue; }
            if (j != i) { mfree(q); *q = m[j]; q->seqfile = dup0(q->seqfile); q->oldrpmprint = dup0(q->oldrpmprint); q->oldpatchrpm = dup0(q->oldpatchrpm); }
            break; }
        default:
            VP_ASSERT(drpm_make_options_copy(NULL, p) == DRPM_ERR_ARGS && drpm_make_options_copy(p, NULL) == DRPM_ERR_ARGS, "copy NULL");
            VP_ASSERT(drpm_make_options_init(NULL) == DRPM_ERR_ARGS && drpm_make_options_destroy(NULL) == DRPM_ERR_ARGS &&
                      drpm_make_options_defaults(NULL) == DRPM_ERR_ARGS && drpm_make_options_set_type(NULL, 0) == DRPM_ERR_ARGS &&
                      drpm_make_options_set_version(NULL, 1) == DRPM_ERR_ARGS && drpm_make_options_set_delta_comp(NULL, 0, 0) == DRPM_ERR_ARGS &&
                      drpm_make_options_get_delta_comp_from_rpm(NULL) == DRPM_ERR_ARGS && drpm_make_options_forbid_addblk(NULL) == DRPM_ERR_ARGS &&
                      drpm_make_options_set_addblk_comp(NULL, 0, 0) == DRPM_ERR_ARGS && drpm_make_options_set_seqfile(NULL, "") == DRPM_ERR_ARGS &&
                      drpm_make_options_add_patches(NULL, "", "") == DRPM_ERR_ARGS && drpm_make_options_add_patches(p, NULL, "") == DRPM_ERR_ARGS &&
                      drpm_make_options_add_patches(p, "", NULL) == DRPM_ERR_ARGS && drpm_make_options_set_memlimit(NULL, 1) == DRPM_ERR_ARGS, "NULL arguments");
            r = DRPM_ERR_OK;
        }
        VP_ASSERT(r == (ok ? DRPM_ERR_OK : DRPM_ERR_ARGS), "accepted exactly when documented");
        same(o[0], &m[0]); same(o[1], &m[1]);
    }
    for (int i = 0; i < 2; i++) { VP_ASSERT(drpm_make_options_destroy(&o[i]) == DRPM_ERR_OK && o[i] == NULL, "destroy"); VP_ASSERT(drpm_make_options_destroy(&o[i]) == DRPM_ERR_ARGS, "destroy twice"); mfree(&m[i]); }
}
