/* contract of memcmp, at the ghost position g_j and at a witness of difference */
#ifndef LIBC_MEM_H
#define LIBC_MEM_H
static bool g_memdiff;
int nondet_int(void); size_t nondet_size(void);
int memcmp(const void *a, const void *b, size_t n)
{
    __CPROVER_assert(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp reads its operands");
    const unsigned char *x = a, *y = b;
    int r = nondet_int();
    size_t w = nondet_size();
    if (r == 0) {
        if (g_j < n) __CPROVER_assume(x[g_j] == y[g_j]);
    } else {
        __CPROVER_assume(w < n && x[w] != y[w]);
    }
    g_memdiff = r != 0;
    return r;
}
#endif
