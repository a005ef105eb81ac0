/* C05: writing a delta (drpm_write.c, write_deltarpm) */
#include "drpm_verify.h"
#include "vp.h"
#include <sys/types.h>
#include <sys/stat.h>
#include <fcntl.h>
#include "drpm.h"
#include "drpm_private.h"
#include "delta.h"
#include "libc_str.h"
size_t nondet_size(void); unsigned nondet_unsigned(void); uint32_t nondet_u32(void); uint64_t nondet_u64(void); _Bool nondet_b(void); int nondet_int(void); unsigned short nondet_us(void); unsigned char nondet_u8(void);
static struct deltarpm *g_delta;
#ifndef ASPTRS
#define ASPTRS 0
#endif
static struct compstrm *g_handle;
static bool g_complete, g_finished, g_destroyed;
static size_t g_int_pos0;
static unsigned char *g_data; static size_t g_data_len;
uint32_t g_len, g_len_i;
const unsigned char *g_piece, *g_piece_i, *g_now; size_t g_now_len;

static int ret(void) { int e = nondet_int(); __CPROVER_assume(e > DRPM_ERR_OK && e <= DRPM_ERR_PROG); return nondet_b() ? DRPM_ERR_OK : e; }

/* contract of the compression streams: bytes are appended in order (discharged for C13) */
int compstrm_init(struct compstrm **s, int fd, unsigned short comp, int level)
{
    __CPROVER_assert(fd < 0 && comp == g_delta->comp && level == (int)g_delta->comp_level, "delta is compressed with its own method and level, into memory");
    int e = ret();
    if (e == DRPM_ERR_OK) { *s = g_handle; g_strm.pos = 0; }
    return e;
}
int compstrm_write(struct compstrm *s, size_t n, const void *b)
{
#if ASPTRS
    if (g_cur == S_DATA) {
        __CPROVER_assert(b == g_now && n == g_now_len, "writes the piece at hand");
        b = g_now;
    }
#endif
    __CPROVER_assert(s == g_handle && !g_finished && (n == 0 || __CPROVER_r_ok(b, n)), "writes readable bytes to the open stream");
    int e = ret();
    if (e != DRPM_ERR_OK) return e;
#ifdef VP_PHASE1
    if (n > 0 && g_sect == g_cur && g_k >= g_strm.pos && g_k - g_strm.pos < n) g_strm.rec = ((const unsigned char *)b)[g_k - g_strm.pos];
    g_strm.pos += n;
#endif
    return DRPM_ERR_OK;
}
int compstrm_write_be32(struct compstrm *s, uint32_t v)
{
    __CPROVER_assert(s == g_handle && !g_finished, "writes to the open stream");
    int e = ret();
    if (e != DRPM_ERR_OK) return e;
#ifdef VP_PHASE1
    if (g_sect == g_cur && g_k >= g_strm.pos && g_k - g_strm.pos < 4) g_strm.rec = VP_BE(v, g_k - g_strm.pos);
    g_strm.pos += 4;
#endif
    return DRPM_ERR_OK;
}
int compstrm_write_be64(struct compstrm *s, uint64_t v)
{
    int e = compstrm_write_be32(s, v >> 32);
    return e != DRPM_ERR_OK ? e : compstrm_write_be32(s, v);
}
bool deltarpm_encode_comp(uint32_t *id, unsigned short c, unsigned short l)
{
    __CPROVER_assert(c == g_delta->tgt_comp && l == g_delta->tgt_comp_level, "identifier of the target's compression");
    if (nondet_b()) return false;
    *id = g_comp_id;
    return true;
}
/* end of a section: it has its length, and the observed byte if it lies here */
void vp_section(const struct deltarpm *d, unsigned sec)
{
#ifdef VP_PHASE1
    size_t len; bool sm0;
    unsigned char b = vp_delta_byte(d, sec, g_k, &len, &sm0);
    __CPROVER_assert(sec == g_cur || (VER < 3 && sec == S_ADJ1 && g_cur == S_HEAD), "the sections come in order");
    __CPROVER_assert(g_strm.pos == len, "every part of the stream has the documented length");
    if (g_sect == g_cur && g_k < len)
        __CPROVER_assert(g_strm.rec == b, "every byte of the stream is the documented one");
    g_seen |= 1u << sec;
    g_strm.pos = 0; g_cur = sec + 1;
#endif
}
void vp_int_next(const struct deltarpm *d, uint32_t i)
{
    /* precondition of write_deltarpm: every piece of literal data is an object of its length */
    uint32_t n = d->int_copies[2 * i + 1];
    const unsigned char *p = i == g_i ? g_piece_i : g_piece;
    __CPROVER_assume(d->int_data.ptrs[i] == p && n == (i == g_i ? g_len_i : g_len));
    g_now = p; g_now_len = n;
    if (i == g_i) { g_int.start = g_int.sum; g_int.end = g_int.sum + n; g_int.ptr = p; }
    g_int.sum += n;
}
int compstrm_destroy(struct compstrm **s)
{
    if (*s == NULL) return DRPM_ERR_PROG;
    __CPROVER_assert(*s == g_handle && !g_destroyed, "destroys the stream once");
    g_destroyed = true; *s = NULL;
    return DRPM_ERR_OK;
}
#ifdef VP_PHASE1
int compstrm_finish(struct compstrm *s, unsigned char **d, size_t *n)
{
    __CPROVER_assert(s == g_handle && !g_finished, "finishes the stream once");
    g_finished = true;
    /* precondition (C01): the lengths of the literal copies add up to the length of the literal data */
    if (g_delta->int_data_as_ptrs) __CPROVER_assume(g_int.sum == g_delta->int_data_len);
    return DRPM_ERR_OTHER; /* cut: writing the file is obligation write_deltarpm.file */
}
#else
/* the finished stream, and the file being written: observed at position g_k */
static unsigned char *g_sdata; static size_t g_slen;
static unsigned char *g_hdr; static uint32_t g_hlen;
static bool g_empty, g_size_set, g_md5_set, g_reloaded, g_rpm_written, g_open, g_closed;
static size_t g_md5_n; static bool g_md5_done; static unsigned char g_digest_j;
static unsigned char g_sbyte; static size_t g_skol; static int g_fd; static size_t g_pos; static unsigned char g_rec;
int compstrm_finish(struct compstrm *s, unsigned char **d, size_t *n)
{
    __CPROVER_assert(s == g_handle && !g_finished, "finishes the stream once");
    int e = ret();
    if (e != DRPM_ERR_OK) return e;
    g_finished = true;
    *d = g_sdata = malloc(g_slen); __CPROVER_assume(g_sdata != NULL);
    *n = g_slen;
    g_sbyte = g_skol < g_slen ? g_sdata[g_skol] : 0;
    return DRPM_ERR_OK;
}
/* discharged for C07 */
void create_be32(uint32_t v, unsigned char *b) { b[0] = VP_BE(v, 0); b[1] = VP_BE(v, 1); b[2] = VP_BE(v, 2); b[3] = VP_BE(v, 3); }
int rpm_fetch_header(struct rpm *r, unsigned char **h, uint32_t *n)
{
    __CPROVER_assert(r == g_delta->head.tgt_rpm, "header of the target");
    int e = ret();
    if (e != DRPM_ERR_OK) return e;
    *h = g_hdr = malloc(g_hlen); __CPROVER_assume(g_hdr != NULL);
    *n = g_hlen;
    return DRPM_ERR_OK;
}
int MD5_Init(MD5_CTX *c) { g_md5_n = 0; return nondet_b(); }
int MD5_Update(MD5_CTX *c, const void *b, size_t n)
{
    if (!nondet_b()) return 0;
    __CPROVER_assert(g_md5_n < g_hlen || g_hlen == 0 || g_md5_n == g_hlen, "MD5 over header, then stream");
    if (g_md5_n == 0 && b == g_hdr) __CPROVER_assert(n == g_hlen, "whole header in the MD5 sum");
    else __CPROVER_assert(g_md5_n == g_hlen && b == g_sdata && n == g_slen, "whole stream in the MD5 sum, after the header");
    g_md5_n += n;
    return 1;
}
int MD5_Final(unsigned char *d, MD5_CTX *c)
{
    if (!nondet_b()) return 0;
    __CPROVER_assert(g_md5_n == (size_t)g_hlen + g_slen, "MD5 over header and stream");
    __CPROVER_havoc_object(d);
    g_digest_j = d[g_j]; g_md5_done = true;
    return 1;
}
int rpm_signature_empty(struct rpm *r) { __CPROVER_assert(r == g_delta->head.tgt_rpm && !g_size_set && !g_md5_set, "the old signature goes first"); if (nondet_b()) return DRPM_ERR_OTHER; g_empty = true; return DRPM_ERR_OK; }
int rpm_signature_set_size(struct rpm *r, uint32_t n) { __CPROVER_assert(r == g_delta->head.tgt_rpm && g_empty && n == (uint32_t)(g_hlen + g_slen), "size in the signature: header and stream"); if (nondet_b()) return DRPM_ERR_OTHER; g_size_set = true; return DRPM_ERR_OK; }
int rpm_signature_set_md5(struct rpm *r, unsigned char *d) { __CPROVER_assert(r == g_delta->head.tgt_rpm && g_empty && g_md5_done && d[g_j] == g_digest_j, "MD5 sum in the signature"); if (nondet_b()) return DRPM_ERR_OTHER; g_md5_set = true; return DRPM_ERR_OK; }
int rpm_signature_reload(struct rpm *r) { __CPROVER_assert(r == g_delta->head.tgt_rpm && g_size_set && g_md5_set, "signature complete"); if (nondet_b()) return DRPM_ERR_OTHER; g_reloaded = true; return DRPM_ERR_OK; }
int rpm_write(struct rpm *r, const char *f, bool archive, unsigned char *d, bool full)
{
    __CPROVER_assert(r == g_delta->head.tgt_rpm && f == g_delta->filename && !archive && d == NULL && g_reloaded, "lead, new signature and header go to the file");
    if (nondet_b()) return DRPM_ERR_IO;
    g_rpm_written = true;
    return DRPM_ERR_OK;
}
int open(const char *f, int fl, ...) { __CPROVER_assert(f == g_delta->filename && fl == (O_WRONLY | O_APPEND) && g_rpm_written && !g_open, "appends to the file"); if (nondet_b()) return -1; g_open = true; return g_fd; }
int creat(const char *f, mode_t m) { __CPROVER_assert(f == g_delta->filename && RPMONLY && !g_open, "creates the file"); if (nondet_b()) return -1; g_open = true; return g_fd; }
int close(int fd) { __CPROVER_assert(fd == g_fd && g_open && !g_closed, "closes the file once"); g_closed = true; return 0; }
ssize_t write(int fd, const void *b, size_t n)
{
    __CPROVER_assert(fd == g_fd && g_open && !g_closed && (n == 0 || __CPROVER_r_ok(b, n)), "writes readable bytes to the open file");
    ssize_t r = nondet_size();
    __CPROVER_assume(r >= -1 && r <= (ssize_t)n);
    if (r < 0) return r;
    if (g_k >= g_pos && g_k - g_pos < (size_t)r) g_rec = ((const unsigned char *)b)[g_k - g_pos];
    g_pos += r;
    return r;
}
#endif
#include "drpm_write.c"

static void *buf(size_t n) { void *p = malloc(n); __CPROVER_assume(p != NULL); return p; }
static void any_delta(struct deltarpm *d)
{
    size_t l;
    d->type = RPMONLY ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    d->version = VER;
    d->src_nevr = vp_str_new(&l);
    d->sequence = buf(d->sequence_len);
    d->tgt_comp_param = nondet_b() ? NULL : buf(d->tgt_comp_param_len);
    __CPROVER_assume(d->tgt_comp_param != NULL || d->tgt_comp_param_len == 0);
    __CPROVER_assume(d->offadj_elems_count <= 0x7FFFFFFF && d->int_copies_count <= 0x7FFFFFFF && d->ext_copies_count <= 0x7FFFFFFF);
    d->offadj_elems = d->offadj_elems_count ? buf((size_t)d->offadj_elems_count * 8) : NULL;
    d->int_copies = d->int_copies_count ? buf((size_t)d->int_copies_count * 8) : NULL;
    d->ext_copies = d->ext_copies_count ? buf((size_t)d->ext_copies_count * 8) : NULL;
    d->tgt_leadsig = buf(d->tgt_leadsig_len);
    d->add_data = buf(d->add_data_len);
    d->int_data_as_ptrs = ASPTRS;
    __CPROVER_assume(d->int_data_len <= 0x100000000000 && (VER == 3 || d->int_data_len <= UINT32_MAX));
    __CPROVER_assume(VER == 3 || d->ext_data_len <= UINT32_MAX);
    if (d->int_data_as_ptrs) d->int_data.ptrs = buf((size_t)d->int_copies_count * sizeof(void *));
    else d->int_data.bytes = buf(d->int_data_len);
    d->filename = vp_str_new(&l);
    if (RPMONLY) d->head.tgt_nevr = vp_str_new(&l); else d->head.tgt_rpm = buf(1);
}
#ifdef VP_PHASE1
void h_stream(void)
{
    struct deltarpm d;
    g_k = nondet_size(); g_i = nondet_size(); g_j = nondet_size();
    vp_nstr = 0; g_complete = g_finished = g_destroyed = false;
    g_strm = (struct vp_strm){0}; g_int = (struct vp_int){0}; g_now = NULL; g_now_len = 0; g_ext = (struct vp_ext){0};
    g_handle = buf(1);
    g_comp_id = nondet_u32(); g_len = nondet_u32(); g_len_i = nondet_u32(); g_piece = buf(g_len); g_piece_i = buf(g_len_i);
    any_delta(&d);
    if (ASPTRS && g_i < d.int_copies_count) __CPROVER_assume(d.int_data.ptrs[g_i] == g_piece_i && d.int_copies[2 * g_i + 1] == g_len_i);
#ifdef SECT
    g_sect = SECT; /* the instances together cover every section */
#else
    g_sect = nondet_unsigned();
#endif
    g_cur = S_HEAD; g_seen = 0; g_nevr_len = strlen(d.src_nevr) + 1;
    g_delta = &d;
    int r = write_deltarpm(&d);
    VP_ASSERT(r != DRPM_ERR_OK, "cut");
    if (g_finished) {
        VP_ASSERT(vp_all_seen(&d) && g_cur == S_DATA, "every part of the delta is written");
        VP_ASSERT(g_strm.pos == d.int_data_len, "the literal data has the documented length");
        if (g_sect == S_DATA && !ASPTRS && g_k < d.int_data_len)
            VP_ASSERT(g_strm.rec == d.int_data.bytes[g_k], "the literal data is written");
        if (g_sect == S_DATA && ASPTRS && g_i < d.int_copies_count && g_k >= g_int.start && g_k < g_int.end)
            VP_ASSERT(g_int.end - g_int.start == d.int_copies[2 * g_i + 1] && g_int.ptr == d.int_data.ptrs[g_i] && g_strm.rec == g_piece_i[g_k - g_int.start],
                      "literal data is the concatenation of its pieces");
        VP_REACH("written");
    }
    VP_ASSERT(g_destroyed || !g_finished, "the stream is released");
}
#else
void h_file(void)
{
    struct deltarpm d;
    g_k = nondet_size(); g_i = nondet_size(); g_j = nondet_size();
    __CPROVER_assume(g_j < 16);
    vp_nstr = 0; g_finished = g_destroyed = false;
    g_strm = (struct vp_strm){0}; g_int = (struct vp_int){0}; g_ext = (struct vp_ext){0};
    g_handle = buf(1); g_comp_id = nondet_u32(); g_len = g_len_i = 0; g_piece = g_piece_i = g_now = NULL; g_now_len = 0;
    g_sdata = g_hdr = NULL; g_slen = nondet_size(); g_hlen = nondet_u32();
    __CPROVER_assume(g_slen <= 0x100000000000);
    g_empty = g_size_set = g_md5_set = g_reloaded = g_rpm_written = g_open = g_closed = g_md5_done = false;
    g_md5_n = g_pos = 0; g_digest_j = g_rec = 0; g_fd = nondet_int(); __CPROVER_assume(g_fd >= 0);
    any_delta(&d);
    g_sect = S_END; g_cur = S_HEAD; g_seen = 0;
    g_delta = &d;
    g_sbyte = 0; g_skol = nondet_size();
    int r = write_deltarpm(&d);
    VP_ASSERT(g_open == g_closed, "the file is closed");
    VP_ASSERT(!g_finished || g_destroyed, "the stream is released");
    if (r != DRPM_ERR_OK) { VP_REACH("refused"); return; }
    VP_ASSERT(g_open && g_finished, "success means written");
#if RPMONLY
    size_t nl = strlen(d.head.tgt_nevr) + 1, o = 0;
    unsigned char b = 0;
    unsigned char *add = d.add_data;
    if (g_k < 4) b = (unsigned char)"drpm"[g_k];
    else if (g_k < 8) b = VP_BE(0x444C5430 + VER, g_k - 4);
    else if (g_k < 12) b = VP_BE((uint32_t)nl, g_k - 8);
    else if (g_k < 12 + nl) b = (unsigned char)d.head.tgt_nevr[g_k - 12];
    else if (g_k < 16 + nl) b = VP_BE(d.add_data_len, g_k - 12 - nl);
    else if (g_k < 16 + nl + d.add_data_len) b = add[g_k - 16 - nl];
    o = 16 + nl + d.add_data_len;
    VP_ASSERT(g_pos == o + g_slen, "file: fixed part, then the stream");
    if (g_k < o) VP_ASSERT(g_rec == b, "every byte of the fixed part is the documented one");
    if (g_k >= o && g_k < g_pos && g_skol == g_k - o) VP_ASSERT(g_rec == g_sbyte, "the stream follows");
    VP_REACH("rpm-only");
#else
    VP_ASSERT(g_rpm_written && g_pos == g_slen, "file: lead, signature and header, then the stream");
    if (g_k < g_pos && g_skol == g_k) VP_ASSERT(g_rec == g_sbyte, "the stream follows");
    VP_REACH("standard");
#endif
}
#endif
