/* concrete oracle for C01 and C14: diff and match search */
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <zlib.h>
#include "drpm.h"
#include "drpm_private.h"
static int fail_at;     /* the n-th allocation fails */
static bool fails(void) { return fail_at > 0 && --fail_at == 0; }
static void *x_malloc(size_t n) { return fails() ? NULL : malloc(n); }
static void *x_calloc(size_t n, size_t s) { return fails() ? NULL : calloc(n, s); }
static void *x_realloc(void *p, size_t n) { return fails() ? NULL : realloc(p, n); }
#define malloc x_malloc
#define calloc x_calloc
#define realloc x_realloc
#include "../src/drpm_search.c"
#include "../src/drpm_diff.c"
#undef malloc
#undef calloc
#undef realloc
VP_MAIN()
#define CAP 4000
static unsigned rnd;
static unsigned rn(void) { return (rnd = rnd * 1103515245 + 12345) >> 16 & 0x7FFF; }
static unsigned char *dup_exact(const unsigned char *b, size_t n) { unsigned char *p = malloc(n ? n : 1); memcpy(p, b, n); if (n == 0) { free(p); p = malloc(1); } return p; }

/* two strings with something in common, steered by the input */
static void strings(unsigned char *o, size_t *ol, unsigned char *n, size_t *nl)
{
    unsigned kind = vp_u8() % 4, alpha = vp_u8();
    rnd = vp_u16();
    *ol = kind == 0 ? vp_u8() % 70 : vp_u16() % CAP;
    for (size_t i = 0; i < *ol; i++) o[i] = rn() % (alpha % 255 + 1);
    *nl = 0;
    for (unsigned ops = vp_u8() % 24; ops--; ) {
        unsigned what = vp_u8();
        size_t len = kind == 0 ? vp_u8() % 40 : vp_u16() % 700, at = vp_u16();
        if (len > CAP - *nl) len = CAP - *nl;
        if (what % 4 == 3 || *ol == 0) {
            for (size_t i = 0; i < len; i++) n[*nl + i] = rn() % (alpha % 255 + 1);
        } else {
            at %= *ol;
            if (len > *ol - at) len = *ol - at;
            memcpy(n + *nl, o + at, len);
            if (what % 4 && len) for (unsigned m = what / 4 % 16; m--; ) n[*nl + rn() % len] = rn();
        }
        *nl += len;
    }
}

/* the applying side: external copies relative to a running position, internal ones in order */
static void follow(const uint32_t *ext, uint32_t ec, const uint32_t *in, uint32_t ic, uint64_t oldlen, void (*on_ext)(uint64_t off, uint32_t len), void (*on_int)(uint32_t i, uint32_t len))
{
    uint64_t off = 0; uint32_t e = 0;
    for (uint32_t i = 0; i < ic; i++) {
        VP_ASSERT(in[2 * i] <= ec - e, "internal copies count no more external ones than there are");
        for (uint32_t k = in[2 * i]; k--; e++) {
            off += (int64_t)(int32_t)ext[2 * e];
            VP_ASSERT(off <= oldlen && ext[2 * e + 1] <= oldlen - off, "external copy stays inside the old data");
            on_ext(off, ext[2 * e + 1]);
            off += ext[2 * e + 1];
        }
        on_int(i, in[2 * i + 1]);
    }
    VP_ASSERT(e == ec, "every external copy is used");
}
static const unsigned char *f_old, *f_new, *f_add, **f_da;
static size_t f_nl, f_out, f_addpos, f_addlen; static uint64_t f_lit;
static void chk_ext(uint64_t off, uint32_t len)
{
    VP_ASSERT(len <= f_nl - f_out, "no more than the new data is made");
    for (uint32_t i = 0; i < len; i++) {
        unsigned char a = 0;
        if (f_add) { VP_ASSERT(f_addpos < f_addlen, "the add block is long enough"); a = f_add[f_addpos++]; }
        VP_ASSERT((unsigned char)(f_old[off + i] + a) == f_new[f_out], "the diff rebuilds the new data (external)");
        f_out++;
    }
}
static void chk_int(uint32_t i, uint32_t len)
{
    VP_ASSERT(len <= f_nl - f_out, "no more than the new data is made");
    VP_ASSERT(len == 0 || memcmp(f_da[i], f_new + f_out, len) == 0, "the diff rebuilds the new data (literal)");
    f_out += len; f_lit += len;
}

/* entries with large numbers: only the lists are made */
static struct diff_copy *b_dc; static size_t b_n, b_i; static uint64_t b_ext, b_int;
static void skip(void) { while (b_i < b_n && b_ext == b_dc[b_i].old_len && b_int == b_dc[b_i].new_len) { b_i++; b_ext = b_int = 0; } }
static void big_ext(uint64_t off, uint32_t len)
{
    if (len == 0) return;
    skip();
    VP_ASSERT(b_i < b_n && b_int == 0 && off == b_dc[b_i].old_off + b_ext && len <= b_dc[b_i].old_len - b_ext, "external copies make up the external parts in order");
    b_ext += len;
}
static void big_int(uint32_t i, uint32_t len)
{
    (void)i;
    if (len == 0) return;
    skip();
    VP_ASSERT(b_i < b_n && b_ext == b_dc[b_i].old_len && len <= b_dc[b_i].new_len - b_int, "internal copies make up the literal parts in order");
    b_int += len;
}

void vp_case(void)
{
    static unsigned char ob[CAP], nb[CAP]; size_t ol, nl;
    unsigned op = vp_u8() % 8;
    fail_at = 0;
    if (op == 0) {
        size_t n = b_n = vp_u8() % 24;
        struct diff_copy *dc = b_dc = calloc(n + 1, sizeof(*dc));
        uint64_t oldlen = vp_u32() | (uint64_t)(vp_u8() & 1) << 32, pos = 0;
        for (size_t i = 0; i < n; i++) {
            unsigned sh = vp_u8();
            dc[i].old_off = (vp_u32() | (uint64_t)(sh & 1) << 32) % (oldlen + 1);
            dc[i].old_len = sh & 2 ? (vp_u32() >> (sh >> 3)) % (oldlen - dc[i].old_off + 1) : 0;
            if (sh & 4 && sh < 32) dc[i].old_len = oldlen - dc[i].old_off;
            if (sh & 8) dc[i].new_len = vp_u32() >> (sh >> 4) * 2;
            dc[i].new_off = pos += dc[i].old_len;
            pos += dc[i].new_len;
        }
        uint32_t *ext = NULL, *in = NULL, ec = 0, ic = 0;
        int r = create_diff_copies(dc, n, &ext, &ec, &in, &ic);
        VP_ASSERT(r == DRPM_ERR_OK, "lists are made");
        b_i = 0; b_ext = b_int = 0;
        follow(ext, ec, in, ic, oldlen, big_ext, big_int);
        skip();
        VP_ASSERT(b_i == b_n, "all parts are covered");
        free(ext); free(in); free(dc);
        return;
    }
    strings(ob, &ol, nb, &nl);
    unsigned char *o = dup_exact(ob, ol), *n = dup_exact(nb, nl);
    if (op <= 2) {
        struct hash *h;
        size_t scan = vp_u16(), last = vp_u8() & 1 ? ol : (size_t)vp_u16() - vp_u16(), pos = 99, len = 99;
        scan = nl ? scan % (nl + 1) : 0;
        if (hash_create(&h, o, ol) != DRPM_ERR_OK) abort();
        for (unsigned turns = 0; turns < 50; turns++) {
            size_t r = hash_search(h, o, ol, n, nl, last, scan, &pos, &len);
            VP_ASSERT(r >= scan && r <= nl, "search moves forward inside the new data");
            VP_ASSERT(len <= nl - r && len <= ol && (len == 0 || pos <= ol - len), "match lies inside both strings");
            VP_ASSERT(len == 0 || memcmp(o + pos, n + r, len) == 0, "match is a true match");
            VP_ASSERT(len > 0 || r == nl, "without a match everything was searched");
            if (len == 0) break;
            last = op == 1 ? pos - r : ol; scan = r + len;
        }
        hash_free(&h);
    } else {
        const unsigned char **da = NULL; uint64_t dl = 0; uint32_t *ext = NULL, *in = NULL, ec = 0, ic = 0, al = 0; unsigned char *ab = NULL;
        bool add = op & 1;
        int how = op >= 6 ? vp_u8() : 0;
        fail_at = op >= 6 && how % 4 == 1 ? how / 4 % 12 + 1 : 0;
        bool badcomp = op >= 6 && how % 4 == 2;
        int r = make_diff(o, ol, n, nl, &da, &dl, &ext, &ec, &in, &ic, add ? &ab : NULL, add ? &al : NULL, badcomp ? 99 : DRPM_COMP_GZIP, 1 + how % 9);
        fail_at = 0;
        if (r == DRPM_ERR_OK) {
            static unsigned char un[CAP + 8];
            f_old = o; f_new = n; f_nl = nl; f_da = da; f_out = f_addpos = f_addlen = 0; f_lit = 0; f_add = NULL;
            if (add) {
                z_stream z = {0};
                VP_ASSERT(inflateInit2(&z, 31) == Z_OK, "zlib");
                z.next_in = ab; z.avail_in = al; z.next_out = un; z.avail_out = sizeof(un);
                VP_ASSERT(inflate(&z, Z_FINISH) == Z_STREAM_END && z.avail_in == 0, "the add block is one gzip stream");
                f_addlen = sizeof(un) - z.avail_out; f_add = un;
                inflateEnd(&z);
            }
            follow(ext, ec, in, ic, ol, chk_ext, chk_int);
            VP_ASSERT(f_out == nl, "the diff makes all of the new data");
            VP_ASSERT(f_lit == dl, "the literal data has the stated length");
            VP_ASSERT(!add || f_addpos == f_addlen, "the add block holds nothing else");
            free(ab); free(da); free(ext); free(in);
        }
        else if (how % 4 == 0) VP_ASSERT(0, "a diff is made");
    }
    free(o); free(n);
}
