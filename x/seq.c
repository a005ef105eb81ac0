/* concrete oracle for C03 and C04: the file-order sequence and the checks of installed files */
#include "vp.h"
#include "../src/drpm_make.c"
#include <stdio.h>
VP_MAIN()
#define NF 6000
static size_t want[NF + 8];
static int refdec(const unsigned char *s, size_t n, size_t fc, size_t *out, size_t *outn)
{
    size_t pos = 0, len = 0; bool toggle = true, jump = false;
    unsigned __int128 num = 0; unsigned shift = 0;
    for (size_t k = 0; k < 2 * n; k++) {
        unsigned nib = k % 2 ? s[k / 2] & 15 : s[k / 2] >> 4;
        if (shift > 60) return -1;
        num += (unsigned __int128)(nib & 7) << shift;
        if (nib & 8) { shift += 3; if (shift > 60) return -1; continue; }
        size_t v = (size_t)num; num = 0; shift = 0;
        if (jump) { pos = v; toggle = true; jump = false; }
        else if (v == 0) jump = true;
        else if (!toggle) { pos += v; toggle = true; }
        else {
            if (v > fc - len || pos >= fc || v > fc - pos) return -1;
            for (size_t i = 0; i < v; i++) out[len++] = pos++;
            toggle = false;
        }
    }
    if (shift) return -1;
    *outn = len;
    return 0;
}
static uint32_t fsize(const struct file_info *f) { return S_ISREG(f->mode) ? f->size : S_ISLNK(f->mode) ? strlen(f->linkto) : 0; }
static void be(MD5_CTX *c, uint32_t v) { unsigned char b[4] = {v >> 24, v >> 16, v >> 8, v}; MD5_Update(c, b, 4); }
static void refmd5(unsigned char *d, const struct file_info *files, const size_t *p, size_t n, unsigned algo)
{
    MD5_CTX c; MD5_Init(&c);
    for (size_t i = 0; i < n; i++) {
        const struct file_info *f = &files[p[i]];
        const char *nm = f->name + (f->name[0] == '/');
        MD5_Update(&c, nm, strlen(nm) + 1);
        be(&c, f->mode); be(&c, fsize(f)); be(&c, S_ISBLK(f->mode) || S_ISCHR(f->mode) ? f->rdev : 0);
        if (S_ISLNK(f->mode)) MD5_Update(&c, f->linkto, strlen(f->linkto) + 1);
        else if (S_ISREG(f->mode) && f->size) {
            unsigned char b[32]; unsigned n = algo == DIGESTALGO_MD5 ? 16 : 32;
            for (unsigned k = 0; k < n; k++) { unsigned x; sscanf(f->md5 + 2 * k, "%2x", &x); b[k] = x; }
            MD5_Update(&c, b, n);
        }
    }
    MD5_Final(d, &c);
}
static size_t r4(size_t n) { return (n + 3) / 4 * 4; }
void vp_case(void)
{
    static char dir[] = "vp.XXXXXX"; static int in;
    if (!in) { in = 1; if (!mkdtemp(dir) || chdir(dir)) exit(0); }
    unsigned algo = vp_u8() & 1 ? DIGESTALGO_MD5 : DIGESTALGO_SHA256;
    unsigned op = vp_u8() % 4;
    size_t fc = op == 0 ? vp_u16() % NF : vp_u8() % 24;
    int mode = op == 3 ? (vp_u8() & 1 ? DRPM_CHECK_FULL : DRPM_CHECK_FILESIZES) : DRPM_CHECK_NONE;
    int spoil = op == 3 ? vp_u8() % 6 : 0;
    unsigned spoilf = op == 3 ? vp_u8() : 0;
    struct file_info *files = calloc(fc + 1, sizeof(*files));
    unsigned r = vp_u16();
    for (size_t i = 0; i < fc; i++) {
        char nm[64], hex[65], lk[40];
        r = r * 1103515245 + 12345 + (i % 7);
        unsigned x = r >> 8;
        sprintf(nm, "%s%s%zx", op != 3 && x & 1 ? "/" : "", &"abcdefgh"[x / 2 % 8], i);
        files[i].name = strdup(nm);
        files[i].mode = (op == 3 || x / 16 % 4 ? 0100644 : ((unsigned[]){040755, 0120777, 0060600, 0020600, 0010644, 0100000, 0120777, 0100644})[x / 64 % 8]);
        files[i].size = op == 3 ? x / 512 % 9000 : x / 512 % 5 ? x / 512 : 0;
        if (op != 3 && x % 97 == 0) files[i].size = 0xFFFFFFFF - x % 4;
        files[i].rdev = x;
        sprintf(lk, "%.*s", (int)(x / 1024 % 30), "the/target/of/this/symlink/is/here");
        files[i].linkto = strdup(lk);
        for (int k = 0; k < 64; k++) { r = r * 1103515245 + 12345; hex[k] = "0123456789abcdef"[r >> 20 & 15]; }
        hex[algo == DIGESTALGO_MD5 ? 32 : 64] = 0;
        if (op == 3) {
            FILE *f = fopen(nm, "wb");
            unsigned char *d = malloc(files[i].size + 8), dg[32];
            for (size_t k = 0; k < files[i].size + 8; k++) d[k] = (r = r * 1103515245 + 12345) >> 16;
            size_t wn = files[i].size;
            if (algo == DIGESTALGO_MD5) MD5(d, wn, dg); else SHA256(d, wn, dg);
            for (int k = 0; k < (algo == DIGESTALGO_MD5 ? 16 : 32); k++) sprintf(hex + 2 * k, "%02x", dg[k]);
            if (i == spoilf % fc && wn) {
                if (spoil == 1) d[vp_u16() % wn] ^= 1 << (r & 7);
                if (spoil == 2) wn--;
                if (spoil == 3) d[wn - 1] ^= 1;
                if (spoil == 5) d[0] ^= 128;
            }
            fwrite(d, 1, wn, f); fclose(f); free(d);
            if (i == spoilf % fc && spoil == 4) remove(nm);
        }
        files[i].md5 = strdup(hex);
    }
    size_t n = 0, slen = 0; unsigned char *s = NULL; int ok = 0;
    if (op == 1 || op == 2) { /* any nibbles */
        slen = op == 1 ? vp_left() : vp_u8() % 20; if (slen > 300) slen = 300;
        s = malloc(16 + slen);
        for (size_t i = 0; i < slen; i++) s[16 + i] = op == 1 ? vp_u8() : (vp_u8() & 0x77) | (vp_u8() % 8 == 0 ? 0x80 : 0);
        ok = refdec(s + 16, slen, fc, want, &n) == 0;
    } else {  /* an encoded order */
        struct files_seq q = SEQ_INIT;
        size_t used = 0, pos = 0;
        while (vp_left() && used < fc) {
            unsigned c = vp_u8();
            size_t step = c & 3 ? c >> 4 : vp_u16(), run = c & 4 ? 1 + vp_u8() % 9 : 1 + vp_u16() % 900;
            pos = c & 8 ? (pos + 1 + step) % fc : step % fc;
            for (size_t i = 0; i < run && pos < fc && used < fc; i++) {
                VP_ASSERT(seq_add(&q, pos) == DRPM_ERR_OK, "seq_add");
                want[used++] = pos++;
            }
            if (pos) pos--;
        }
        n = used; ok = 1;
        unsigned char *b; 
        VP_ASSERT(seq_final(&q, &b, &slen) == DRPM_ERR_OK, "seq_final");
        size_t m; static size_t got[NF + 8];
        VP_ASSERT(refdec(b, slen, fc, got, &m) == 0 && m == n && !memcmp(got, want, n * sizeof(*want)), "encoded order decodes to the same order");
        s = malloc(16 + slen); if (slen) memcpy(s + 16, b, slen); free(b);
    }
    unsigned char dg[16]; memset(dg, 7, 16);
    if (ok) refmd5(dg, files, want, n, algo);
    memcpy(s, dg, 16);
    bool damage = op != 3 && (r >> 9) % 5 == 0;
    if (damage) s[r % 16] ^= 1 << (r / 16 % 8);
    bool spoiled = false;
    if (op == 3 && fc && files[spoilf % fc].size)
        for (size_t i = 0; i < n; i++) if (want[i] == spoilf % fc) spoiled = spoil == 4 || spoil == 2 || (mode == DRPM_CHECK_FULL && (spoil == 1 || spoil == 3 || spoil == 5));
    struct cpio_file *cf = (void *)1; size_t cn = 77;
    bool index = r & 64;
    int e = expand_sequence(index ? &cf : NULL, index ? &cn : NULL, s, 16 + slen, files, fc, algo, mode);
    VP_ASSERT((e == DRPM_ERR_OK) == (ok && !damage && !spoiled), "expanding succeeds exactly for the sequence made from the list (and intact files)");
    if (e != DRPM_ERR_OK) VP_ASSERT(cf == (void *)1 && cn == 77, "nothing returned on failure");
    else if (index) {
        VP_ASSERT(cn == n + 1, "index length");
        size_t off = 0;
        for (size_t i = 0; i < n; i++) {
            const struct file_info *f = &files[want[i]];
            VP_ASSERT(cf[i].index == (ssize_t)want[i] && cf[i].header_len == r4(110 + 2 + strlen(f->name + (f->name[0] == '/')) + 1) &&
                      cf[i].content_len == r4(fsize(f)) && cf[i].offset == off, "index entry");
            off += cf[i].header_len + cf[i].content_len;
        }
        VP_ASSERT(cf[n].index == -1 && cf[n].header_len == 124 && cf[n].content_len == 0 && cf[n].offset == off, "trailer entry");
        free(cf);
    }
    for (size_t i = 0; i < fc; i++) { if (op == 3) remove(files[i].name); free(files[i].name); free(files[i].linkto); free(files[i].md5); }
    free(files); free(s);
}
