/* C05, C06: reading a delta (drpm_read.c) */
#include "drpm_verify.h"
#include "vp.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "drpm.h"
#include "drpm_private.h"
size_t nondet_size(void); unsigned nondet_unsigned(void); uint32_t nondet_u32(void); uint64_t nondet_u64(void); _Bool nondet_b(void); int nondet_int(void); unsigned short nondet_us(void); unsigned char nondet_u8(void);
const unsigned char *g_piece_i, *g_now; size_t g_now_len; uint32_t g_len_i;
#include "delta.h"
static struct deltarpm *g_delta;
static struct decompstrm *g_handle;
static bool g_init, g_destroyed, g_decoded, g_decode_ok;
static unsigned short g_dcomp, g_dlevel, g_icomp;
static int g_fd;
static int ret(void) { int e = nondet_int(); __CPROVER_assume(e > DRPM_ERR_OK && e <= DRPM_ERR_PROG); return nondet_b() ? DRPM_ERR_OK : e; }
#ifdef H_REST
/* contract of the decompression stream (C13): the next bytes, or an error.  The stream has
 * arbitrary contents; the byte at the observed position is g_byte. */
int decompstrm_init(struct decompstrm **s, int fd, unsigned short *comp, MD5_CTX *m, const unsigned char *b, size_t n)
{
    __CPROVER_assert(fd == g_fd && comp == &g_delta->comp && m == NULL && n == 0, "decompresses the rest of the file");
    int e = ret();
    if (e == DRPM_ERR_OK) { g_init = true; *s = g_handle; *comp = g_icomp; }
    return e;
}
int decompstrm_destroy(struct decompstrm **s)
{
    if (*s == NULL) return DRPM_ERR_PROG;
    __CPROVER_assert(*s == g_handle && g_init && !g_destroyed, "destroys the stream once");
    g_destroyed = true; *s = NULL;
    return DRPM_ERR_OK;
}
#define OPEN(s) __CPROVER_assert((s) == g_handle && g_init && !g_destroyed, "reads the open stream")
int decompstrm_read(struct decompstrm *s, size_t n, void *b)
{
    OPEN(s);
    __CPROVER_assert(n == 0 || __CPROVER_w_ok(b, n), "reads into a buffer of at least that size");
    if (n > 0) {
        if ((unsigned char *)b == g_delta->tgt_md5) {
            __CPROVER_assert(n == 16, "size of an MD5 sum");
            for (unsigned i = 0; i < 16; i++) g_delta->tgt_md5[i] = nondet_u8();
        } else __CPROVER_havoc_object(b);
    }
    int e = ret();
    if (e != DRPM_ERR_OK) return e;
    if (n > 0 && g_sect == g_cur && g_k >= g_strm.pos && g_k - g_strm.pos < n) __CPROVER_assume(((unsigned char *)b)[g_k - g_strm.pos] == g_byte);
    g_strm.pos += n;
    return DRPM_ERR_OK;
}
int decompstrm_read_be32(struct decompstrm *s, uint32_t *v)
{
    OPEN(s);
    uint32_t x = nondet_u32();
    int e = ret();
    if (e != DRPM_ERR_OK) return e;
    if (g_sect == g_cur && g_k >= g_strm.pos && g_k - g_strm.pos < 4) __CPROVER_assume(VP_BE(x, g_k - g_strm.pos) == g_byte);
    if (g_cur == S_HEAD && g_strm.pos == 0) /* this instance: version VER, or not a version at all */
        __CPROVER_assume((x >> 8) != 0x444C54 || (x & 255) < '1' || (x & 255) > '3' || (x & 255) == '0' + VER);
    if (g_cur == S_HEAD && g_strm.pos == 4) g_nevr_len = x;
    g_strm.pos += 4;
    *v = x;
    return DRPM_ERR_OK;
}
int decompstrm_read_be64(struct decompstrm *s, uint64_t *v)
{
    uint32_t h, l;
    int e = decompstrm_read_be32(s, &h);
    if (e == DRPM_ERR_OK) e = decompstrm_read_be32(s, &l);
    if (e == DRPM_ERR_OK) *v = (uint64_t)h << 32 | l;
    return e;
}
bool deltarpm_decode_comp(uint32_t id, unsigned short *c, unsigned short *l)
{
    g_comp_id = id; g_decoded = true; g_decode_ok = nondet_b();
    if (!g_decode_ok) return false;
    *c = g_dcomp; *l = g_dlevel;
    return true;
}
void vp_section(const struct deltarpm *d, unsigned sec)
{
    size_t len; bool sm0;
    unsigned char b = vp_delta_byte(d, sec, g_k, &len, &sm0);
    __CPROVER_assert(d == g_delta && (sec == g_cur || (VER < 3 && sec == S_ADJ1 && g_cur == S_HEAD) ||
        (VER == 3 && sec == S_ADJ1 && g_cur == S_ADJ0 && d->offadj_elems_count == 0) || (sec == S_INT1 && g_cur == S_INT0 && d->int_copies_count == 0) ||
        (sec == S_EXT1 && g_cur == S_EXT0 && d->ext_copies_count == 0)), "the sections come in order");
    __CPROVER_assert(g_strm.pos == len, "every part of the stream has the documented length");
    if (g_sect == g_cur && g_k < len)
        __CPROVER_assert(b == g_byte || (sm0 && g_byte == 0x80), "every byte of the stream is the documented one");
    g_seen |= 1u << sec;
    g_strm.pos = 0; g_cur = sec + 1;
}
void vp_int_next(const struct deltarpm *d, uint32_t i) { }
void vp_int_range(const struct deltarpm *d, uint32_t i)
{
    if (i == g_i) { g_int.start = g_int.sum; g_int.end = g_int.sum + d->int_copies[2 * i + 1]; }
    g_int.sum += d->int_copies[2 * i + 1];
}
void vp_ext_range(const struct deltarpm *d, uint32_t i)
{
    g_ext.off += (int32_t)d->ext_copies[2 * i];
    if (i == g_i) { g_ext.start = g_ext.off; g_ext.end = g_ext.off + d->ext_copies[2 * i + 1]; }
    g_ext.off += d->ext_copies[2 * i + 1];
}
#endif
#ifdef H_TOP
void free_deltarpm(struct deltarpm *d);
static bool g_freed, g_fopen, g_fclosed; static const char *g_name; static uint32_t g_magic; static size_t g_pos; static int g_sub;
int open(const char *f, int fl, ...) { __CPROVER_assert(f == g_name && fl == O_RDONLY, "opens the delta for reading"); if (nondet_b()) return -1; g_fopen = true; return g_fd; }
int close(int fd) { __CPROVER_assert(fd == g_fd && g_fopen && !g_fclosed, "closes the file once"); g_fclosed = true; return 0; }
ssize_t read(int fd, void *b, size_t n)
{
    __CPROVER_assert(fd == g_fd && g_fopen && !g_fclosed && g_pos == 0 && n == 4 && __CPROVER_w_ok(b, 4), "reads the magic number");
    ssize_t r = nondet_size(); __CPROVER_assume(r >= -1 && r <= 4);
    unsigned char *c = b;
    c[0] = VP_BE(g_magic, 0); c[1] = VP_BE(g_magic, 1); c[2] = VP_BE(g_magic, 2); c[3] = VP_BE(g_magic, 3);
    if (r > 0) g_pos = r;
    return r;
}
void free_deltarpm(struct deltarpm *d) { __CPROVER_assert(d == g_delta && !g_freed, "releases the delta once"); g_freed = true; }
/* contracts of the parts: discharged by readdelta_rest.*, readdelta_rpmonly, readdelta_standard */
static int readdelta_rest(int fd, struct deltarpm *d)
__CPROVER_requires(fd == g_fd && d == g_delta && g_fopen && !g_fclosed && g_sub == 1 && g_pos == 4)
__CPROVER_assigns(g_sub)
__CPROVER_ensures(__CPROVER_return_value >= 0 && IMPLIES(__CPROVER_return_value == 0, g_sub == 2));
static int readdelta_rpmonly(int fd, struct deltarpm *d)
__CPROVER_requires(fd == g_fd && d == g_delta && g_fopen && !g_fclosed && g_sub == 0 && g_pos == 4 && g_magic == 0x6472706D && d->type == DRPM_TYPE_RPMONLY)
__CPROVER_assigns(g_sub)
__CPROVER_ensures(__CPROVER_return_value >= 0 && IMPLIES(__CPROVER_return_value == 0, g_sub == 1));
static int readdelta_standard(int fd, struct deltarpm *d)
__CPROVER_requires(fd == g_fd && d == g_delta && g_fopen && !g_fclosed && g_sub == 0 && g_pos == 4 && g_magic == 0xEDABEEDB && d->type == DRPM_TYPE_STANDARD)
__CPROVER_requires(d->filename == g_name)
__CPROVER_assigns(g_sub)
__CPROVER_ensures(__CPROVER_return_value >= 0 && IMPLIES(__CPROVER_return_value == 0, g_sub == 1));
#endif
#if defined(H_RPMONLY) || defined(H_BE)
/* the uncompressed part of an rpm-only delta: byte g_k of it is g_byte */
static size_t g_pos;
ssize_t read(int fd, void *b, size_t n)
{
    __CPROVER_assert(fd == g_fd && (n == 0 || __CPROVER_w_ok(b, n)), "reads into a buffer of at least that size");
    ssize_t r = nondet_size(); __CPROVER_assume(r >= -1 && r <= (ssize_t)n);
    if (n > 0) __CPROVER_havoc_object(b);
    if (r <= 0) return r;
    if (g_k >= g_pos && g_k - g_pos < (size_t)r) __CPROVER_assume(((unsigned char *)b)[g_k - g_pos] == g_byte);
    g_pos += r;
    return r;
}
#endif
#ifdef H_STD
struct rpm;
static struct rpm *g_rpm; static unsigned short g_rcomp; static unsigned g_made, g_gone; static uint32_t g_full; static size_t g_pos;
static const char *g_name;
int rpm_read(struct rpm **r, const char *f, int a, unsigned short *c, unsigned char *s, unsigned char *m)
{
    __CPROVER_assert(f == g_name && a == RPM_ARCHIVE_DONT_READ && c == NULL && s == NULL && m == NULL, "reads lead, signature and header");
    int e = ret();
    if (e == DRPM_ERR_OK) { *r = g_rpm; g_made++; }
    return e;
}
int rpm_get_comp(struct rpm *r, unsigned short *c) { __CPROVER_assert(r == g_rpm && g_made == 1 && g_gone == 0, "the package read"); int e = ret(); if (e == DRPM_ERR_OK) *c = g_rcomp; return e; }
uint32_t rpm_size_full(struct rpm *r) { __CPROVER_assert(r == g_rpm && g_made == 1 && g_gone == 0, "the package read"); return g_full; }
int rpm_destroy(struct rpm **r) { __CPROVER_assert(*r == g_rpm && g_made == 1 && g_gone == 0, "releases the package once"); g_gone++; *r = NULL; return DRPM_ERR_OK; }
off_t lseek(int fd, off_t o, int w) { __CPROVER_assert(fd == g_fd && w == SEEK_SET, "positions the delta"); if (nondet_b()) return -1; g_pos = o; return o; }
#endif
/* discharged for C07 */
uint32_t parse_be32(const unsigned char *b) { return (uint32_t)b[0] << 24 | (uint32_t)b[1] << 16 | (uint32_t)b[2] << 8 | b[3]; }
uint64_t parse_be64(const unsigned char *b) { return (uint64_t)parse_be32(b) << 32 | parse_be32(b + 4); }
#include "drpm_read.c"

#ifdef H_REST
void h_rest(void)
{
    struct deltarpm d = {0};
    g_k = nondet_size(); g_i = nondet_size(); g_sect = nondet_unsigned(); g_byte = nondet_u8();
    g_strm = (struct vp_strm){0}; g_int = (struct vp_int){0}; g_ext = (struct vp_ext){0};
#ifdef SECT
    g_sect = SECT; /* the instances together cover every section */
#endif
    g_cur = S_HEAD; g_seen = 0; g_nevr_len = 0; g_comp_id = 0; g_init = g_destroyed = g_decoded = g_decode_ok = false;
    g_dcomp = nondet_us(); g_dlevel = nondet_us(); g_icomp = nondet_us(); g_fd = nondet_int();
    g_handle = malloc(1); __CPROVER_assume(g_handle != NULL);
    g_piece_i = g_now = NULL; g_now_len = 0; g_len_i = 0;
    d.type = RPMONLY ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    unsigned short hcomp = d.tgt_comp = nondet_us();   /* of the package header */
    uint32_t alen = 0; unsigned char *add = NULL;
    if (RPMONLY) { alen = d.add_data_len = nondet_u32(); add = d.add_data = malloc(d.add_data_len); __CPROVER_assume(d.add_data != NULL); }
    g_delta = &d;
    int r = readdelta_rest(g_fd, &d);
    VP_ASSERT(g_init == g_destroyed, "the stream is released");
    if (r != DRPM_ERR_OK) {
        VP_REACH("refused");
        return;
    }
    VP_ASSERT(!RPMONLY || VER == 3, "rpm-only deltas have version 3");
    VP_ASSERT(d.version == VER && d.comp == g_icomp, "version and compression of the delta");
    VP_ASSERT(d.type == (RPMONLY ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD), "type is kept");
    VP_ASSERT(vp_all_seen(&d) && (g_seen >> S_DATA & 1), "every part of the delta is read");
    VP_ASSERT(VER >= 2 ? g_decoded && g_decode_ok && d.tgt_comp == g_dcomp && d.tgt_comp_level == g_dlevel : d.tgt_comp == hcomp, "compression of the target");
    if (RPMONLY) VP_ASSERT(d.add_data == add && d.add_data_len == alen && d.sequence_len == 16, "rpm-only: add block kept, sequence is an MD5 sum");
    VP_ASSERT(d.sequence_len >= 16 && d.tgt_leadsig_len >= 112, "sequence, lead and signature have their minimal sizes");
    VP_ASSERT(d.src_nevr != NULL && d.src_nevr[g_nevr_len] == 0, "source NEVR is terminated");
    VP_ASSERT(!d.int_data_as_ptrs && (d.int_data_len == 0 || __CPROVER_r_ok(d.int_data.bytes, d.int_data_len)), "literal data is held as bytes");
    if (g_i < d.int_copies_count) {
        VP_ASSERT(g_int.start <= g_int.end && g_int.end <= d.int_data_len, "every literal copy stays inside the literal data");
    }
    if (g_i < d.ext_copies_count)
        VP_ASSERT(g_ext.start >= 0 && g_ext.start <= g_ext.end && g_ext.end <= (__int128)d.ext_data_len, "every external copy stays inside the external data");
    size_t len; bool sm0;
    unsigned sec = g_sect;
    if (VER < 3 && sec == S_HEAD) sec = S_ADJ1;
    if (sec <= S_DATA && !(VER < 3 && (g_sect == S_ADJ0 || g_sect == S_ADJ1))) {
        unsigned char b = vp_delta_byte(&d, sec, g_k, &len, &sm0);
        if (g_k < len) VP_ASSERT(b == g_byte || (sm0 && g_byte == 0x80), "the delta holds what the stream says");
    }
#if !RPMONLY || VER == 3
    VP_REACH("read");
#endif
}
#endif
#ifdef H_TOP
void h_top(void)
{
    struct deltarpm d = {0};
    g_fd = nondet_int(); __CPROVER_assume(g_fd >= 0);
    g_freed = g_fopen = g_fclosed = false; g_magic = nondet_u32(); g_pos = 0; g_sub = 0;
    g_name = malloc(1); __CPROVER_assume(g_name != NULL);
    g_delta = &d;
    _Bool nf = nondet_b(), nd = nondet_b();
    int r = read_deltarpm(nd ? NULL : &d, nf ? NULL : g_name);
    VP_ASSERT(g_fopen == g_fclosed, "the file is closed");
    if (nf || nd) { VP_ASSERT(r == DRPM_ERR_PROG && !g_fopen, "refused"); return; }
    if (r != DRPM_ERR_OK) { VP_ASSERT(g_freed || !g_fopen, "after a failure the delta holds nothing"); VP_REACH("refused"); return; }
    VP_ASSERT(!g_freed && g_sub == 2 && g_pos == 4 && d.filename == g_name, "success means everything was read");
    VP_ASSERT(d.type == (g_magic == 0x6472706D ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD), "type by the magic number");
    VP_REACH("read");
}
#endif
#ifdef H_RPMONLY
void h_rpmonly(void)
{
    struct deltarpm d = {0};
    g_fd = nondet_int(); g_k = nondet_size(); g_byte = nondet_u8(); g_pos = 4;
    d.type = DRPM_TYPE_RPMONLY;
    int r = readdelta_rpmonly(g_fd, &d);
    if (r != DRPM_ERR_OK) { VP_REACH("refused"); return; }
    size_t nl = g_pos - 16 - d.add_data_len;
    unsigned char b = 0;
    char *nevr = d.head.tgt_nevr;
    VP_ASSERT(nevr != NULL && d.add_data != NULL && g_pos >= 16 + (size_t)d.add_data_len && nl <= UINT32_MAX, "fields present");
    VP_ASSERT(nevr[nl] == 0, "target NEVR is terminated");
    if (g_k >= 4 && g_k < 8) b = VP_BE(0x444C5433, g_k - 4);
    else if (g_k >= 8 && g_k < 12) b = VP_BE((uint32_t)nl, g_k - 8);
    else if (g_k >= 12 && g_k < 12 + nl) b = (unsigned char)nevr[g_k - 12];
    else if (g_k >= 12 + nl && g_k < 16 + nl) b = VP_BE(d.add_data_len, g_k - 12 - nl);
    else if (g_k >= 16 + nl && g_k < g_pos) b = d.add_data[g_k - 16 - nl];
    if (g_k >= 4 && g_k < g_pos) VP_ASSERT(b == g_byte, "the delta holds what the file says");
    VP_REACH("read");
}
#endif
#ifdef H_BE
void h_be(void)
{
    uint32_t v = nondet_u32(), v0 = v; uint64_t w = nondet_u64(), w0 = w;
    g_fd = nondet_int(); g_k = nondet_size(); g_byte = nondet_u8(); g_pos = 0;
    int r = read_be32(g_fd, &v);
    if (r == DRPM_ERR_OK) VP_ASSERT(g_pos == 4 && (g_k >= 4 || VP_BE(v, g_k) == g_byte), "four bytes, big-endian");
    else VP_ASSERT(v == v0, "nothing stored on failure");
    g_pos = 0;
    r = read_be64(g_fd, &w);
    if (r == DRPM_ERR_OK) VP_ASSERT(g_pos == 8 && (g_k >= 8 || (unsigned char)(w >> (56 - 8 * g_k)) == g_byte), "eight bytes, big-endian");
    else VP_ASSERT(w == w0, "nothing stored on failure");
    VP_REACH("end");
}
#endif
#ifdef H_STD
void h_std(void)
{
    struct deltarpm d = {0};
    unsigned char name[2];
    g_fd = nondet_int(); g_made = g_gone = 0; g_full = nondet_u32(); g_rcomp = nondet_us(); g_pos = 4;
    g_rpm = malloc(1); __CPROVER_assume(g_rpm != NULL);
    d.type = DRPM_TYPE_STANDARD; d.filename = g_name = (const char *)name;
    int r = readdelta_standard(g_fd, &d);
    if (r != DRPM_ERR_OK) { VP_ASSERT(g_made == g_gone && d.head.tgt_rpm == NULL, "nothing kept after a failure"); VP_REACH("refused"); return; }
    VP_ASSERT(d.head.tgt_rpm == g_rpm && g_gone == 0 && d.tgt_comp == g_rcomp && g_pos == g_full, "package kept, file positioned behind it");
    VP_REACH("read");
}
#endif
