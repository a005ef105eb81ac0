/* C03, C04: expanding the file-order sequence (drpm_apply.c, expand_sequence) */
#include "drpm_verify.h"
#include "vp.h"
#include <sys/types.h>
#include <sys/stat.h>
#include "drpm.h"
#include "drpm_private.h"
#include "libc_str.h"
#ifndef MAXF
#define MAXF 0x1000000
#endif
int nondet_int(void); _Bool nondet_b(void); size_t nondet_size(void); uint32_t nondet_u32(void); unsigned short nondet_us(void);
static unsigned char g_final[16];
static unsigned g_diglen;
static bool g_finished, g_memdiff;

static size_t round4(size_t n) { return (n + 3) / 4 * 4; }

/* the universally quantified precondition "every file has valid strings", instantiated at file i,
 * and the parameters of the digest and of the index entry for this file */
void vp_file_next(const struct file_info *files, size_t fc, const size_t *positions, size_t i, bool check)
{
    __CPROVER_assert(i < fc, "selected file is in the list");
    __CPROVER_assert(g_fs.n < g_dec.len && i == positions[g_fs.n], "files are taken in sequence order");
    __CPROVER_assert(g_fs.need == 0, "previous file is completely covered by the digest");
    __CPROVER_assume(files[i].name == g_fs.name && files[i].linkto == g_fs.link && files[i].md5 == g_fs.md5);
    g_fs.fi = &files[i];
    g_fs.mode = files[i].mode;
    unsigned t = files[i].mode & 0170000;
    g_fs.is_reg = t == 0100000; g_fs.is_lnk = t == 0120000; g_fs.is_dev = t == 0060000 || t == 0020000;
    g_fs.size = g_fs.is_reg ? files[i].size : g_fs.is_lnk ? g_fs.linklen : 0;
    g_fs.rdev = g_fs.is_dev ? files[i].rdev : 0;
    g_fs.ev = 0;
    g_fs.need = 4 + (g_fs.is_lnk || (g_fs.is_reg && g_fs.size > 0)) + (check && g_fs.is_reg && g_fs.size > 0);
    g_fs.parsed = false;
    size_t hl = round4(110 + 2 + (g_fs.namelen - g_fs.slash) + 1), cl = round4(g_fs.size);
    if (g_fs.n == g_k) { g_fs.k_hl = hl; g_fs.k_cl = cl; g_fs.k_off = g_fs.off; }
    g_fs.off += hl + cl;
    g_fs.n++;
}
static void event(unsigned e)
{
    __CPROVER_assert(g_fs.ev == e && g_fs.need > 0, "digest covers name, mode, size, device, then contents, in this order");
    g_fs.ev++; g_fs.need--;
}
#ifdef VP_PHASE1
/* cut: what follows the decoding loop is obligation expand_sequence.digest */
int MD5_Init(MD5_CTX *c) { VP_REACH("decoded"); return 0; }
#else
int MD5_Init(MD5_CTX *c) { return nondet_b(); }
#endif
int MD5_Update(MD5_CTX *c, const void *data, size_t len)
{
    if (!nondet_b())
        return 0;
    if (g_fs.ev == 0) {
        event(0);
        __CPROVER_assert(data == g_fs.name + g_fs.slash && len == g_fs.namelen - g_fs.slash + 1, "digest over the file name without leading slash");
    } else {
        event(4);
        if (g_fs.is_lnk)
            __CPROVER_assert(data == g_fs.link && len == g_fs.linklen + 1, "digest over the link target");
        else
            __CPROVER_assert(g_fs.is_reg && g_fs.parsed && data == g_fs.digest && len == g_diglen, "digest over the file digest");
    }
    return 1;
}
static unsigned short g_algo;
int md5_update_be32(MD5_CTX *c, uint32_t v)
{
    if (!nondet_b())
        return 0;
    event(g_fs.ev >= 1 && g_fs.ev <= 3 ? g_fs.ev : 9);
    __CPROVER_assert(v == (g_fs.ev == 2 ? g_fs.mode : g_fs.ev == 3 ? g_fs.size : g_fs.rdev), "digest over mode, size and device number");
    return 1;
}
static bool parse(unsigned char *d, const char *s, unsigned n, unsigned algo)
{
    __CPROVER_assert(__CPROVER_w_ok(d, n) && s == g_fs.md5 && g_algo == algo, "digest of this file is parsed with the package's digest algorithm");
    if (nondet_b())
        return false;
    __CPROVER_havoc_slice(d, n);
    g_fs.parsed = true; g_fs.digest = d; g_diglen = n;
    return true;
}
bool parse_md5(unsigned char *d, const char *s) { return parse(d, s, 16, DIGESTALGO_MD5); }
bool parse_sha256(unsigned char *d, const char *s) { return parse(d, s, 32, DIGESTALGO_SHA256); }
int MD5_Final(unsigned char *d, MD5_CTX *c)
{
    if (!nondet_b())
        return 0;
    __CPROVER_assert(g_fs.n == g_dec.len && g_fs.need == 0, "digest covers every selected file");
    __CPROVER_havoc_slice(d, 16);
    g_final[g_j] = d[g_j];
    g_finished = true;
    return 1;
}
/* contract of memcmp at the ghost position g_j and at a witness of difference */
int memcmp(const void *a, const void *b, size_t n)
{
    __CPROVER_assert(__CPROVER_r_ok(a, n) && __CPROVER_r_ok(b, n), "memcmp reads its operands");
    const unsigned char *x = a, *y = b;
    int r = nondet_int();
    size_t w = nondet_size();
    if (r == 0) {
        if (g_j < n) __CPROVER_assume(x[g_j] == y[g_j]);
    } else {
        __CPROVER_assume(w < n && x[w] != y[w]);
    }
    g_memdiff = r != 0;
    return r;
}
#define CHECK_CONTRACT(want_full) \
__CPROVER_requires(g_fs.check && name == g_fs.name && algo == g_algo && size == g_fs.size && g_fs.is_reg) \
__CPROVER_requires(g_fs.parsed && digest == g_fs.digest && g_fs.need == 1) \
__CPROVER_requires(g_fs.full == want_full) \
__CPROVER_assigns(g_fs.need) \
__CPROVER_ensures(g_fs.need == 0)
static int check_full(const char *name, unsigned short algo, const unsigned char *digest, size_t size)
CHECK_CONTRACT(true);
static int check_filesize(const char *name, unsigned short algo, const unsigned char *digest, size_t size)
CHECK_CONTRACT(false);
#include "drpm_apply.c"

void h_expand(void)
{
    g_k = nondet_size(); g_j = nondet_size();
    __CPROVER_assume(g_j < 16);
    g_dec = (struct vp_dec){0}; g_dec.toggle = true;
    g_fs = (struct vp_fs){0};
    vp_nstr = 0; g_finished = g_memdiff = false;
    size_t fc = nondet_size();
    uint32_t len = nondet_u32();
    __CPROVER_assume(fc <= MAXF && len <= 0x10000000);
    struct file_info *files = malloc(fc * sizeof(*files));
    unsigned char *seq = nondet_b() ? malloc(len) : NULL;
    __CPROVER_assume(files != NULL);
    size_t l1, l2, l3;
    g_fs.name = vp_str_new(&l1); g_fs.link = vp_str_new(&l2); g_fs.md5 = vp_str_new(&l3);
    __CPROVER_assume((l1 == 0) == (g_fs.name[0] == 0));
    g_fs.namelen = l1; g_fs.linklen = l2; g_fs.slash = g_fs.name[0] == '/';
    if (g_fs.slash) vp_str_note(g_fs.name + 1, l1 - 1);
    int mode = nondet_int();
    g_algo = nondet_us();
    __CPROVER_assume(g_algo == DIGESTALGO_MD5 || g_algo == DIGESTALGO_SHA256);
    g_fs.check = mode != DRPM_CHECK_NONE; g_fs.full = mode == DRPM_CHECK_FULL;
    bool want = nondet_b();
    struct cpio_file *out = (struct cpio_file *)1; size_t outlen = 7;
    unsigned char seqj = seq && len >= 16 ? seq[g_j] : 0;
    int r = expand_sequence(want ? &out : NULL, want ? &outlen : NULL, seq, len, files, fc, g_algo, mode);
    if (!seq || len < 16 || (mode != DRPM_CHECK_NONE && mode != DRPM_CHECK_FULL && mode != DRPM_CHECK_FILESIZES)) {
        VP_ASSERT(r == DRPM_ERR_PROG, "unusable arguments are refused");
        VP_REACH("refused");
        return;
    }
    if (r == DRPM_ERR_FORMAT && !g_dec.done) {
        VP_ASSERT(g_dec.bad || g_dec.shift != 0, "a well-formed sequence is not refused");
#ifndef VP_PHASE2
        VP_REACH("malformed");
#endif
    }
    if (r == DRPM_ERR_OK) {
        VP_ASSERT(g_dec.done && g_dec.nib == 2 * (size_t)(len - 16), "the whole sequence is expanded");
        VP_ASSERT(g_fs.n == g_dec.len && g_fs.need == 0, "every selected file is covered");
        VP_ASSERT(g_finished && g_final[g_j] == seqj, "the digest equals the one in the sequence");
        if (want) {
            VP_ASSERT(outlen == g_dec.len + 1 && __CPROVER_r_ok(out, outlen * sizeof(*out)), "index has one entry per file and the trailer");
            if (g_k < g_dec.len)
                VP_ASSERT(out[g_k].index == (ssize_t)g_dec.val && out[g_k].header_len == g_fs.k_hl &&
                          out[g_k].content_len == g_fs.k_cl && out[g_k].offset == g_fs.k_off, "index entry of every file in sequence order");
            VP_ASSERT(out[g_dec.len].index == -1 && out[g_dec.len].header_len == 124 && out[g_dec.len].content_len == 0 &&
                      out[g_dec.len].offset == g_fs.off, "trailer entry");
#ifndef VP_PHASE1
            VP_REACH("index");
#endif
        }
#ifndef VP_PHASE1
        VP_REACH("expanded");
#endif
    } else {
        VP_ASSERT(out == (struct cpio_file *)1 && outlen == 7, "no index after a failure");
        if (r == DRPM_ERR_MISMATCH && !g_fs.check)
            VP_ASSERT(g_finished && g_memdiff, "mismatch reported only when the digests differ");
        VP_REACH("failed");
    }
}
