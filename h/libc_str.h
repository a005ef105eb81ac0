/* Assumed contracts on libc string functions, as executable stubs over strings of
 * arbitrary length.  A harness registers each string it builds together with its
 * length; contents stay symbolic.  For an unregistered pointer strlen returns some
 * index of a terminator inside the object (an over-approximation). */
#ifndef LIBC_STR_H
#define LIBC_STR_H
#include "vp.h"
#ifndef VP_MAXSTR
#define VP_MAXSTR 0x100000
#endif
size_t nondet_size(void);
struct vp_str { const char *p; size_t len; };
struct vp_str vp_strs[8];
unsigned vp_nstr;
static void vp_str_note(const char *p, size_t len)
{
    __CPROVER_assume(vp_nstr < 8);
    vp_strs[vp_nstr].p = p; vp_strs[vp_nstr].len = len; vp_nstr++;
}
/* a fresh string of arbitrary length and contents */
static char *vp_str_new(size_t *len)
{
    size_t n = nondet_size();
    __CPROVER_assume(n <= VP_MAXSTR);
    char *p = malloc(n + 1);
    __CPROVER_assume(p != NULL);
    p[n] = 0;
    /* no terminator earlier: instantiated at the ghost position */
    if (g_k < n)
        __CPROVER_assume(p[g_k] != 0);
    vp_str_note(p, n);
    *len = n;
    return p;
}
size_t strlen(const char *s)
{
#define VP_S1(i) if (i < vp_nstr && vp_strs[i].p == s) return vp_strs[i].len;
    VP_S1(0) VP_S1(1) VP_S1(2) VP_S1(3) VP_S1(4) VP_S1(5) VP_S1(6) VP_S1(7)
    size_t n = nondet_size();
    __CPROVER_assert(__CPROVER_r_ok(s, 1), "strlen of a readable string");
    __CPROVER_assume(n < __CPROVER_OBJECT_SIZE(s) - __CPROVER_POINTER_OFFSET(s) && s[n] == 0);
    return n;
}
char *strcpy(char *d, const char *s)
{
    size_t n = strlen(s);
    __CPROVER_assert(__CPROVER_w_ok(d, n + 1), "strcpy fits its destination");
    if (d != s) {
#ifdef VP_STRCPY_OBJECT
        __CPROVER_assert(__CPROVER_POINTER_OFFSET(d) == 0, "strcpy to the start of an object");
        __CPROVER_havoc_object(d);
#else
        __CPROVER_havoc_slice(d, n + 1);
#endif
        __CPROVER_assume(d[n] == 0);
        if (g_k < n)
            __CPROVER_assume(d[g_k] == s[g_k]);
    }
    return d;
}
char *strdup(const char *s)
{
    char *d = malloc(strlen(s) + 1);
    return d ? strcpy(d, s) : NULL;
}
#endif
