/* C04, C11: the checks of one installed file (drpm_apply.c) */
#include "drpm_verify.h"
#include "vp.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "drpm.h"
#include "drpm_private.h"
#include <openssl/sha.h>
size_t nondet_size(void); int nondet_int(void); _Bool nondet_b(void); unsigned char nondet_u8(void); off_t nondet_off(void); unsigned short nondet_us(void);
static off_t g_size;                    /* size of the file on disk */
static const char *g_name; static const unsigned char *g_digest; static unsigned short g_algo;
static unsigned char g_final_j; static bool g_prelinked, g_prelink_ok, g_prelink_called; static unsigned g_dlen;
static int g_fd;
static size_t g_opens, g_closes;

int open(const char *n, int fl, ...) { __CPROVER_assert(n == g_name && fl == O_RDONLY, "opens the file to check"); if (nondet_b()) return -1; g_opens++; return g_fd; }
int close(int fd) { __CPROVER_assert(fd == g_fd && g_opens == g_closes + 1, "closes an open file"); g_closes++; return 0; }
int fstat(int fd, struct stat *s) { if (nondet_b()) return -1; s->st_size = g_size; return 0; }
int stat(const char *n, struct stat *s) { __CPROVER_assert(n == g_name, "the file to check"); if (nondet_b()) return -1; s->st_size = g_size; return 0; }
static size_t g_rlen; static const unsigned char *g_rbuf;
ssize_t read(int fd, void *b, size_t n)
{
    __CPROVER_assert(fd == g_fd && g_opens == g_closes + 1 && __CPROVER_w_ok(b, n), "reads the open file into a buffer");
    ssize_t r = nondet_off();
    __CPROVER_assume(r >= -1 && r <= (ssize_t)n);
    if (r <= 0) { if (r < 0) g_file.fail = true; else g_file.eof = true; return r; }
    __CPROVER_havoc_object(b);
    if (g_k >= g_file.pos && g_k - g_file.pos < (size_t)r) g_file.byte_k = ((unsigned char *)b)[g_k - g_file.pos];
    g_file.pos += r;
    return r;
}
#ifndef VP_REAL_PRELINK
int is_prelinked(bool *ret, int fd, const unsigned char *buf, ssize_t len)
__CPROVER_requires(fd == g_fd && g_opens == g_closes + 1 && len > 0 && __CPROVER_r_ok(buf, len) && (size_t)len == g_file.pos)
__CPROVER_assigns(*ret)
__CPROVER_ensures(IMPLIES(__CPROVER_return_value == DRPM_ERR_OK, *ret == g_prelinked) && __CPROVER_return_value != DRPM_ERR_MISMATCH);
int prelink_open(const char *n, int *fd)
__CPROVER_requires(n == g_name && g_opens == g_closes)
__CPROVER_assigns(*fd, g_opens)
__CPROVER_ensures(IMPLIES(__CPROVER_return_value == DRPM_ERR_OK, *fd == g_fd && g_opens == g_closes + 1) && IMPLIES(__CPROVER_return_value != DRPM_ERR_OK, g_opens == g_closes) && __CPROVER_return_value != DRPM_ERR_MISMATCH);
#endif
static int hash_init(void) { g_file.hashed = 0; return nondet_b(); }
static int hash_update(const void *b, size_t n)
{
    if (!nondet_b()) return 0;
    __CPROVER_assert(__CPROVER_r_ok(b, n) && n <= g_file.want - g_file.hashed && n <= g_file.pos - g_file.hashed, "hashes only data read, and no more than the recorded size");
    if (g_k >= g_file.hashed && g_k - g_file.hashed < n)
        __CPROVER_assert(((const unsigned char *)b)[g_k - g_file.hashed] == g_file.byte_k, "hashes the file's bytes in order");
    g_file.hashed += n;
    return 1;
}
static int hash_final(unsigned char *d, unsigned n)
{
    if (!nondet_b()) return 0;
    __CPROVER_havoc_slice(d, n);
    g_dlen = n; g_final_j = d[g_j];
    g_file.final = true;
    return 1;
}
int MD5_Init(MD5_CTX *c) { __CPROVER_assert(g_algo == DIGESTALGO_MD5, "package's digest algorithm"); return hash_init(); }
int SHA256_Init(SHA256_CTX *c) { __CPROVER_assert(g_algo == DIGESTALGO_SHA256, "package's digest algorithm"); return hash_init(); }
int MD5_Update(MD5_CTX *c, const void *b, size_t n) { __CPROVER_assert(g_algo == DIGESTALGO_MD5, "package's digest algorithm"); return hash_update(b, n); }
int SHA256_Update(SHA256_CTX *c, const void *b, size_t n) { __CPROVER_assert(g_algo == DIGESTALGO_SHA256, "package's digest algorithm"); return hash_update(b, n); }
int MD5_Final(unsigned char *d, MD5_CTX *c) { return hash_final(d, 16); }
int SHA256_Final(unsigned char *d, SHA256_CTX *c) { return hash_final(d, 32); }
#include "libc_mem.h"
#ifdef VP_USE_PRELINK_CONTRACT
static int check_prelink(const char *name, unsigned short algo, const unsigned char *digest, size_t size)
__CPROVER_requires(g_opens == g_closes && name == g_name && algo == g_algo && digest == g_digest && size == g_file.want)
__CPROVER_requires(g_prelinked)
__CPROVER_assigns(g_prelink_called)
__CPROVER_ensures(g_prelink_called);
#endif
#include "drpm_apply.c"

static unsigned char *setup(size_t *size)
{
    g_file = (struct vp_file){0};
    g_k = nondet_size(); g_j = nondet_size(); g_fd = nondet_int(); g_opens = g_closes = 0;
    g_prelinked = nondet_b(); g_prelink_called = false; g_dlen = 0;
    g_algo = nondet_us();
    __CPROVER_assume(g_algo == DIGESTALGO_MD5 || g_algo == DIGESTALGO_SHA256);
    g_size = nondet_off();
    __CPROVER_assume(g_size >= 0 && g_fd >= 0 && g_j < (g_algo == DIGESTALGO_MD5 ? 16 : 32));
    *size = nondet_size();
    __CPROVER_assume(*size > 0 && *size <= UINT32_MAX); /* called for non-empty regular files */
    g_file.want = *size;
    unsigned char *d = malloc(g_algo == DIGESTALGO_MD5 ? 16 : 32);
    __CPROVER_assume(d != NULL);
    g_digest = d;
    char *n = malloc(1);
    __CPROVER_assume(n != NULL);
    g_name = n;
    return d;
}
static void accepted(unsigned char *d)
{
    VP_ASSERT(g_file.final && d[g_j] == g_final_j && g_dlen == (g_algo == DIGESTALGO_MD5 ? 16 : 32), "success only if the digest of the data read equals the recorded one");
    VP_ASSERT(g_file.hashed == g_file.want || g_file.eof || g_file.fail, "the digest covers the recorded size unless the file ends early");
}
void h_check_full(void)
{
    size_t size; unsigned char *d = setup(&size);
    int r = check_full(g_name, g_algo, d, size);
    VP_ASSERT(g_opens == g_closes, "the file is closed");
    if (g_prelink_called) { VP_ASSERT(g_size > (off_t)g_file.want, "only a larger file can be prelinked"); VP_REACH("prelinked"); return; }
    if (r == DRPM_ERR_OK) { accepted(d); VP_REACH("accepted"); }
    if (r == DRPM_ERR_MISMATCH) { VP_ASSERT(g_file.final && g_memdiff, "mismatch only when the digests differ"); VP_REACH("mismatch"); }
}
void h_check_prelink(void)
{
    size_t size; unsigned char *d = setup(&size);
    int r = check_prelink(g_name, g_algo, d, size);
    VP_ASSERT(g_opens == g_closes, "the file is closed");
    if (r == DRPM_ERR_OK) { accepted(d); VP_ASSERT(!g_file.fail, "a read error is no success"); VP_REACH("accepted"); }
    if (r == DRPM_ERR_MISMATCH) { VP_ASSERT(g_file.final && g_memdiff, "mismatch only when the digests differ"); VP_REACH("mismatch"); }
}
void h_check_filesize(void)
{
    size_t size; unsigned char *d = setup(&size);
    int r = check_filesize(g_name, g_algo, d, size);
    VP_ASSERT(g_opens == g_closes, "the file is closed");
    if (g_prelink_called) { VP_ASSERT(g_size > (off_t)size, "only a larger file can be prelinked"); VP_REACH("prelinked"); return; }
    if (r == DRPM_ERR_OK) { VP_ASSERT(g_size == (off_t)size, "success only for the recorded size"); VP_REACH("accepted"); }
    if (r == DRPM_ERR_MISMATCH) { VP_ASSERT(g_size != (off_t)size, "mismatch only when the sizes differ"); VP_REACH("mismatch"); }
}

/* memory safety of the ELF section scan, for any file contents */
ssize_t pread(int fd, void *b, size_t n, off_t o)
{
    __CPROVER_assert(__CPROVER_w_ok(b, n), "reads into a buffer of that size");
    ssize_t r = nondet_off();
    __CPROVER_assume(r >= -1 && r <= (ssize_t)n);
    if (r > 0) __CPROVER_havoc_object(b);
    return r;
}
void h_is_prelinked(void)
{
    ssize_t len = nondet_off();
    __CPROVER_assume(len <= BUFFER_SIZE);
    unsigned char *buf = malloc(len > 0 ? len : 0);
    __CPROVER_assume(buf != NULL);
#ifdef VP_SSIZ
    /* the section header sizes of 32 and 64-bit ELF; buf[5] selects the byte order */
    if (len >= 0x40) {
        unsigned at = buf[4] == 2 ? 0x40 - 6 : 0x34 - 6;
        bool big = buf[5] == 2;
        __CPROVER_assume(buf[at + big] == VP_SSIZ && buf[at + !big] == 0);
    }
#endif
    bool p = nondet_b(), p0 = p;
    int r = is_prelinked(&p, nondet_int(), buf, len);
    if (len < 0) { VP_ASSERT(r == DRPM_ERR_IO && p == p0, "a failed read is reported"); VP_REACH("io"); return; }
    VP_ASSERT(r == DRPM_ERR_OK || r == DRPM_ERR_MEMORY, "anything else is only undecided for lack of memory");
    if (len < 0x34) VP_ASSERT(!p, "too short for an ELF file");
    VP_REACH("done");
}
