/* C09: make-options API (drpm_options.c) */
#include "drpm_verify.h"
#include "vp.h"
#include <limits.h>
#include "drpm.h"
#include "drpm_private.h"
#include "libc_str.h"
/* releasing is counted for the three watched strings */
static void *w0, *w1, *w2;
static unsigned n0, n1, n2;
static void vp_free(void *p)
{
    if (p != NULL) { n0 += p == w0; n1 += p == w1; n2 += p == w2; }
    free(p);
}
#define free(p) vp_free(p)
#include "drpm_options.c"
#undef free

typedef struct drpm_make_options O;
unsigned short nondet_us(void);
_Bool nondet_b(void);

static size_t len[3];        /* lengths of the three strings of the option object under test */
static char at_k[3];         /* their characters at the ghost position */

/* any options object a caller can hold: any scalar values, each string absent or any string */
static O *any_opts(void)
{
    O *o = malloc(sizeof(O));
    __CPROVER_assume(o != NULL);
    o->rpm_only = nondet_b(); o->comp_from_rpm = nondet_b(); o->addblk = nondet_b();
    o->seqfile = nondet_b() ? vp_str_new(&len[0]) : NULL;
    o->oldrpmprint = nondet_b() ? vp_str_new(&len[1]) : NULL;
    o->oldpatchrpm = nondet_b() ? vp_str_new(&len[2]) : NULL;
    if (o->seqfile && g_k < len[0]) at_k[0] = o->seqfile[g_k];
    if (o->oldrpmprint && g_k < len[1]) at_k[1] = o->oldrpmprint[g_k];
    if (o->oldpatchrpm && g_k < len[2]) at_k[2] = o->oldpatchrpm[g_k];
    return o;
}
#define SAME_SCALARS(a, b) ((a).rpm_only == (b).rpm_only && (a).version == (b).version && \
    (a).comp_from_rpm == (b).comp_from_rpm && (a).comp == (b).comp && (a).comp_level == (b).comp_level && \
    (a).addblk == (b).addblk && (a).addblk_comp == (b).addblk_comp && \
    (a).addblk_comp_level == (b).addblk_comp_level && (a).mbytes == (b).mbytes)
/* string value l-long, character c at the ghost position */
#define HOLDS(s, l, c) ((s) != NULL && __CPROVER_r_ok(s, (l) + 1) && (s)[l] == 0 && (g_k >= (l) || (s)[g_k] == (c)))
#define KEPT(o, old, f, i) ((old).f == NULL ? (o).f == NULL : HOLDS((o).f, len[i], at_k[i]))
#define KEPT_ALL(o, old) (KEPT(o, old, seqfile, 0) && KEPT(o, old, oldrpmprint, 1) && KEPT(o, old, oldpatchrpm, 2))

static bool comp_known(unsigned short c)
{
#ifdef WITH_ZSTD
    if (c == DRPM_COMP_ZSTD) return true;
#endif
    return c == DRPM_COMP_NONE || c == DRPM_COMP_GZIP || c == DRPM_COMP_BZIP2 || c == DRPM_COMP_LZMA ||
           c == DRPM_COMP_XZ || c == DRPM_COMP_LZIP;
}
static bool level_ok(unsigned short l) { return l == DRPM_COMP_LEVEL_DEFAULT || (l >= 1 && l <= 9); }

static O defaults_value(void)
{
    O d = {0};
    d.rpm_only = false; d.version = 3; d.comp_from_rpm = true; d.comp = USHRT_MAX; d.comp_level = 0;
    d.addblk = true; d.addblk_comp = DRPM_COMP_BZIP2; d.addblk_comp_level = 0; d.mbytes = 0;
    return d;
}

void h_setters(void)
{
    g_k = nondet_size();
    O *o = any_opts(), old = *o, want = old;
    unsigned short a = nondet_us(), b = nondet_us();
    unsigned mb;
    unsigned op;
    int r;
    bool ok;
    switch (op % 7) {
    case 0:
        r = drpm_make_options_set_type(o, a);
        if ((ok = a == DRPM_TYPE_STANDARD || a == DRPM_TYPE_RPMONLY)) want.rpm_only = a == DRPM_TYPE_RPMONLY;
        break;
    case 1:
        r = drpm_make_options_set_version(o, a);
        if ((ok = a >= 1 && a <= 3)) want.version = a;
        break;
    case 2:
        r = drpm_make_options_set_delta_comp(o, a, b);
        if ((ok = comp_known(a) && level_ok(b))) { want.comp_from_rpm = false; want.comp = a; want.comp_level = b; }
        break;
    case 3:
        r = drpm_make_options_get_delta_comp_from_rpm(o);
        ok = true; want.comp_from_rpm = true;
        break;
    case 4:
        r = drpm_make_options_forbid_addblk(o);
        ok = true; want.addblk = false;
        break;
    case 5:
        r = drpm_make_options_set_addblk_comp(o, a, b);
        if ((ok = comp_known(a) && level_ok(b))) { want.addblk = true; want.addblk_comp = a; want.addblk_comp_level = b; }
        break;
    default:
        r = drpm_make_options_set_memlimit(o, mb);
        ok = true; want.mbytes = mb;
    }
    VP_ASSERT(r == (ok ? DRPM_ERR_OK : DRPM_ERR_ARGS), "accepted exactly when the value is documented");
    VP_ASSERT(SAME_SCALARS(*o, want), "only the documented setting changes, and only on success");
    VP_ASSERT(KEPT_ALL(*o, old), "strings are kept");
    if (ok) VP_REACH("accepted"); else VP_REACH("refused");
}

void h_strings(void)
{
    g_k = nondet_size();
    O *o = any_opts(), old = *o;
    size_t l1, l2;
    char *s1 = vp_str_new(&l1), *s2 = vp_str_new(&l2);
    char c1 = g_k < l1 ? s1[g_k] : 0, c2 = g_k < l2 ? s2[g_k] : 0;
    int r;
    if (nondet_b()) {
        bool clear = nondet_b();
        r = drpm_make_options_set_seqfile(o, clear ? NULL : s1);
        VP_ASSERT(r == DRPM_ERR_OK || (r == DRPM_ERR_MEMORY && !clear), "sequence file name: result code");
        if (r == DRPM_ERR_OK)
            VP_ASSERT(clear ? o->seqfile == NULL : HOLDS(o->seqfile, l1, c1) && o->seqfile != s1, "the sequence file name is stored as a private copy");
        else
            VP_ASSERT(KEPT(*o, old, seqfile, 0), "a failed change leaves the old name");
        VP_ASSERT(KEPT(*o, old, oldrpmprint, 1) && KEPT(*o, old, oldpatchrpm, 2), "other strings are kept");
        if (r == DRPM_ERR_OK) VP_REACH("seqfile set"); else VP_REACH("seqfile out of memory");
    } else {
        r = drpm_make_options_add_patches(o, s1, s2);
        VP_ASSERT(r == DRPM_ERR_OK || r == DRPM_ERR_MEMORY, "patch names: result code");
        if (r == DRPM_ERR_OK)
            VP_ASSERT(HOLDS(o->oldrpmprint, l1, c1) && HOLDS(o->oldpatchrpm, l2, c2) &&
                      o->oldrpmprint != s1 && o->oldpatchrpm != s2, "patch names are stored as private copies");
        else
            VP_ASSERT(KEPT_ALL(*o, old), "a failed change leaves the old names");
        VP_ASSERT(KEPT(*o, old, seqfile, 0), "other strings are kept");
        if (r == DRPM_ERR_OK) VP_REACH("patches set"); else VP_REACH("patches out of memory");
    }
    VP_ASSERT(SAME_SCALARS(*o, old), "scalars are kept");
    VP_ASSERT(s1[l1] == 0 && s2[l2] == 0 && (g_k >= l1 || s1[g_k] == c1) && (g_k >= l2 || s2[g_k] == c2), "arguments are not modified");
}

void h_copy(void)
{
    g_k = nondet_size();
    O *d = any_opts(), dold = *d;
    size_t dl0 = len[0], dl1 = len[1], dl2 = len[2];
    char dc0 = at_k[0], dc1 = at_k[1], dc2 = at_k[2];
    bool self = nondet_b();
    O *s = self ? d : any_opts(), sold = *s;
    int r = drpm_make_options_copy(d, s);
    VP_ASSERT(r == DRPM_ERR_OK || r == DRPM_ERR_MEMORY, "copy: result code");
    if (r == DRPM_ERR_OK) {
        VP_ASSERT(SAME_SCALARS(*d, sold) && KEPT_ALL(*d, sold), "the copy equals the source");
        VP_ASSERT(self || ((d->seqfile == NULL || d->seqfile != s->seqfile) &&
                  (d->oldrpmprint == NULL || d->oldrpmprint != s->oldrpmprint) &&
                  (d->oldpatchrpm == NULL || d->oldpatchrpm != s->oldpatchrpm)), "the copy shares nothing with the source");
        VP_REACH("copied");
        if (self) VP_REACH("copied onto itself");
    } else {
        VP_ASSERT(SAME_SCALARS(*d, dold), "a failed copy leaves the destination's settings");
        VP_ASSERT((dold.seqfile == NULL ? d->seqfile == NULL : HOLDS(d->seqfile, dl0, dc0)) &&
                  (dold.oldrpmprint == NULL ? d->oldrpmprint == NULL : HOLDS(d->oldrpmprint, dl1, dc1)) &&
                  (dold.oldpatchrpm == NULL ? d->oldpatchrpm == NULL : HOLDS(d->oldpatchrpm, dl2, dc2)),
                  "a failed copy leaves the destination's strings");
        VP_REACH("copy out of memory");
    }
    if (!self) VP_ASSERT(SAME_SCALARS(*s, sold) && KEPT_ALL(*s, sold), "the source is not modified");
}

/* every block is released exactly once: the allocation functions count */
void h_lifecycle(void)
{
    g_k = nondet_size();
    O dflt = defaults_value();
    O *o = (O *)1;
    int r = drpm_make_options_init(&o);
    VP_ASSERT(r == DRPM_ERR_OK || r == DRPM_ERR_MEMORY, "init: result code");
    if (r == DRPM_ERR_OK) {
        VP_ASSERT(SAME_SCALARS(*o, dflt) && !o->seqfile && !o->oldrpmprint && !o->oldpatchrpm, "init gives the defaults");
        VP_ASSERT(drpm_make_options_destroy(&o) == DRPM_ERR_OK && o == NULL, "destroy clears the pointer");
        VP_REACH("init");
    }
    VP_ASSERT(drpm_make_options_destroy(&o) == DRPM_ERR_ARGS || r != DRPM_ERR_OK, "destroying twice is refused");
    O *p = any_opts();
    w0 = p->seqfile; w1 = p->oldrpmprint; w2 = p->oldpatchrpm;
    if (nondet_b()) {
        VP_ASSERT(drpm_make_options_defaults(p) == DRPM_ERR_OK, "reset: result code");
        VP_ASSERT(SAME_SCALARS(*p, dflt) && !p->seqfile && !p->oldrpmprint && !p->oldpatchrpm, "reset gives the defaults");
        VP_REACH("reset");
    } else {
        VP_ASSERT(drpm_make_options_destroy(&p) == DRPM_ERR_OK && p == NULL, "destroy: result code");
        VP_REACH("destroy");
    }
    VP_ASSERT((!w0 || n0 == 1) && (!w1 || n1 == 1) && (!w2 || n2 == 1), "owned strings are released exactly once");
}

void h_null(void)
{
    char s[1] = {0};
    unsigned short a = nondet_us(), b = nondet_us();
    O *o = any_opts(), old = *o;
    VP_ASSERT(drpm_make_options_init(NULL) == DRPM_ERR_ARGS, "init(NULL)");
    VP_ASSERT(drpm_make_options_destroy(NULL) == DRPM_ERR_ARGS, "destroy(NULL)");
    VP_ASSERT(drpm_make_options_defaults(NULL) == DRPM_ERR_ARGS, "defaults(NULL)");
    VP_ASSERT(drpm_make_options_copy(NULL, o) == DRPM_ERR_ARGS, "copy(NULL, x)");
    VP_ASSERT(drpm_make_options_copy(o, NULL) == DRPM_ERR_ARGS, "copy(x, NULL)");
    VP_ASSERT(drpm_make_options_set_type(NULL, a) == DRPM_ERR_ARGS, "set_type(NULL)");
    VP_ASSERT(drpm_make_options_set_version(NULL, a) == DRPM_ERR_ARGS, "set_version(NULL)");
    VP_ASSERT(drpm_make_options_set_delta_comp(NULL, a, b) == DRPM_ERR_ARGS, "set_delta_comp(NULL)");
    VP_ASSERT(drpm_make_options_get_delta_comp_from_rpm(NULL) == DRPM_ERR_ARGS, "comp_from_rpm(NULL)");
    VP_ASSERT(drpm_make_options_forbid_addblk(NULL) == DRPM_ERR_ARGS, "forbid_addblk(NULL)");
    VP_ASSERT(drpm_make_options_set_addblk_comp(NULL, a, b) == DRPM_ERR_ARGS, "set_addblk_comp(NULL)");
    VP_ASSERT(drpm_make_options_set_seqfile(NULL, s) == DRPM_ERR_ARGS, "set_seqfile(NULL)");
    VP_ASSERT(drpm_make_options_add_patches(NULL, s, s) == DRPM_ERR_ARGS, "add_patches(NULL)");
    VP_ASSERT(drpm_make_options_add_patches(o, NULL, s) == DRPM_ERR_ARGS, "add_patches(.., NULL, ..)");
    VP_ASSERT(drpm_make_options_add_patches(o, s, NULL) == DRPM_ERR_ARGS, "add_patches(.., .., NULL)");
    VP_ASSERT(drpm_make_options_set_memlimit(NULL, a) == DRPM_ERR_ARGS, "set_memlimit(NULL)");
    VP_ASSERT(SAME_SCALARS(*o, old) && o->seqfile == old.seqfile && o->oldrpmprint == old.oldrpmprint &&
              o->oldpatchrpm == old.oldpatchrpm, "refused calls change nothing");
    VP_REACH("null");
}
