/* C05, C06: deltas written by the real writer against an independent serialiser of the documented
 * layout, read back by the real reader; and damaged deltas through the real reader.  The target
 * package of standard deltas is replaced by a stand-in that only holds bytes. */
#define _GNU_SOURCE
#include "vp.h"
#include <sys/types.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdio.h>
#include <openssl/md5.h>
#include <zlib.h>
#include "drpm.h"
#include "drpm_private.h"

static int g_fail = -1;         /* allocation that fails */
static void *x_malloc(size_t n) { if (g_fail >= 0 && g_fail-- == 0) return NULL; return malloc(n); }
struct fake { unsigned char hdr[40]; unsigned hlen; unsigned comp; unsigned size; unsigned char md5[16]; int empty, nsize, nmd5, reload, alive; };
static struct fake fk;
static unsigned char lead[8] = {0xED, 0xAB, 0xEE, 0xDB, 3, 0, 0, 0};
static int x_fetch(struct rpm *r, unsigned char **h, uint32_t *n) { *h = malloc(fk.hlen + 1); memcpy(*h, fk.hdr, fk.hlen); *n = fk.hlen; return 0; }
static int x_empty(struct rpm *r) { fk.empty++; fk.nsize = fk.nmd5 = fk.reload = 0; return 0; }
static int x_setsize(struct rpm *r, uint32_t n) { fk.size = n; fk.nsize++; return 0; }
static int x_setmd5(struct rpm *r, unsigned char *m) { memcpy(fk.md5, m, 16); fk.nmd5++; return 0; }
static int x_reload(struct rpm *r) { fk.reload = fk.nsize && fk.nmd5; return 0; }
static int x_write(struct rpm *r, const char *f, bool a, unsigned char *m, bool full)
{
    int fd = creat(f, 0600);
    if (fd < 0 || write(fd, lead, 8) != 8 || write(fd, fk.hdr, fk.hlen) != (ssize_t)fk.hlen) abort();
    close(fd);
    return 0;
}
static int x_read(struct rpm **r, const char *f, int a, unsigned short *c, unsigned char *s, unsigned char *m) { if (fk.comp == 99) return DRPM_ERR_FORMAT; *r = (struct rpm *)&fk; fk.alive++; return 0; }
static int x_comp(struct rpm *r, unsigned short *c) { if (fk.comp == 98) return DRPM_ERR_FORMAT; *c = fk.comp; return 0; }
static uint32_t x_full(struct rpm *r) { return 8 + fk.hlen; }
static int x_destroy(struct rpm **r) { if (r == NULL || *r == NULL) return DRPM_ERR_PROG; VP_ASSERT(*r == (struct rpm *)&fk && fk.alive > 0, "releases the package once"); fk.alive--; *r = NULL; return 0; }
#define malloc x_malloc
#define rpm_fetch_header x_fetch
#define rpm_signature_empty x_empty
#define rpm_signature_set_size x_setsize
#define rpm_signature_set_md5 x_setmd5
#define rpm_signature_reload x_reload
#define rpm_write x_write
#define rpm_read x_read
#define rpm_get_comp x_comp
#define rpm_size_full x_full
#define rpm_destroy x_destroy
#include "drpm_write.c"
#include "drpm_read.c"
#include "drpm_deltarpm.c"
#undef malloc

#define MAXB 60000
struct out { unsigned char b[MAXB]; size_t n; };
static void o8(struct out *o, unsigned v) { o->b[o->n++] = v; }
static void o32(struct out *o, uint32_t v) { o8(o, v >> 24); o8(o, v >> 16 & 255); o8(o, v >> 8 & 255); o8(o, v & 255); }
static void o64(struct out *o, uint64_t v) { o32(o, v >> 32); o32(o, (uint32_t)v); }
static void om(struct out *o, const void *p, size_t n) { for (size_t i = 0; i < n; i++) o8(o, ((const unsigned char *)p)[i]); }
static uint32_t sm(uint32_t v) { return v >> 31 ? (~v + 1) | 0x80000000u : v; }

static const struct { unsigned comp, level; uint32_t id; } ids[] = {
    { DRPM_COMP_NONE, 0, 0 }, { DRPM_COMP_GZIP, 9, 0x901 }, { DRPM_COMP_GZIP, 1, 0x101 }, { DRPM_COMP_BZIP2, 9, 0x902 },
    { DRPM_COMP_LZMA, 6, 0x605 }, { DRPM_COMP_XZ, 2, 0x206 }, { DRPM_COMP_BZIP2, 3, 0x302 },
};
static unsigned lenbyte(void) { unsigned c = vp_u8(); return c < 200 ? c % 9 : c % 70; }
static uint32_t num(void) { unsigned c = vp_u8(); return c < 150 ? c % 16 : c < 180 ? 0xFFFFFFF0u + c % 16 : c < 200 ? 0x7FFFFFF8u + c % 16 : vp_u32(); }
static unsigned char *bytes(size_t n) { unsigned char *p = malloc(n ? n : 1); for (size_t i = 0; i < n; i++) p[i] = vp_u8(); return p; }
static char *text(size_t n) { char *p = malloc(n + 1); for (size_t i = 0; i < n; i++) p[i] = 'a' + vp_u8() % 26; p[n] = 0; return p; }

static uint32_t *pairs(unsigned n) { uint32_t *p = n ? malloc(n * 8) : NULL; for (unsigned i = 0; i < 2 * n; i++) p[i] = num(); return p; }

/* the compressed part, by the format description */
static void serialise(struct out *o, const struct deltarpm *d, const unsigned char *lit, uint32_t compid)
{
    o32(o, 0x444C5430 + d->version);
    o32(o, strlen(d->src_nevr) + 1); om(o, d->src_nevr, strlen(d->src_nevr) + 1);
    o32(o, d->sequence_len); om(o, d->sequence, d->sequence_len);
    om(o, d->tgt_md5, 16);
    if (d->version >= 2) {
        o32(o, d->tgt_size); o32(o, compid);
        o32(o, d->tgt_comp_param_len); om(o, d->tgt_comp_param, d->tgt_comp_param_len);
    }
    if (d->version >= 3) {
        o32(o, d->tgt_header_len); o32(o, d->offadj_elems_count);
        for (unsigned i = 0; i < d->offadj_elems_count; i++) o32(o, d->offadj_elems[2 * i]);
        for (unsigned i = 0; i < d->offadj_elems_count; i++) o32(o, sm(d->offadj_elems[2 * i + 1]));
    }
    o32(o, d->tgt_leadsig_len); om(o, d->tgt_leadsig, d->tgt_leadsig_len);
    o32(o, d->payload_fmt_off); o32(o, d->int_copies_count); o32(o, d->ext_copies_count);
    for (unsigned i = 0; i < d->int_copies_count; i++) o32(o, d->int_copies[2 * i]);
    for (unsigned i = 0; i < d->int_copies_count; i++) o32(o, d->int_copies[2 * i + 1]);
    for (unsigned i = 0; i < d->ext_copies_count; i++) o32(o, sm(d->ext_copies[2 * i]));
    for (unsigned i = 0; i < d->ext_copies_count; i++) o32(o, d->ext_copies[2 * i + 1]);
    if (d->version >= 3) o64(o, d->ext_data_len); else o32(o, (uint32_t)d->ext_data_len);
    if (d->type == DRPM_TYPE_STANDARD) { o32(o, d->add_data_len); om(o, d->add_data, d->add_data_len); } else o32(o, 0);
    if (d->version >= 3) o64(o, d->int_data_len); else o32(o, (uint32_t)d->int_data_len);
    om(o, lit, d->int_data_len);
}
static int invariants(const struct deltarpm *d, int open)
{
    VP_ASSERT(d->version >= 1 && d->version <= 3, "version 1 to 3");
    VP_ASSERT(d->type == DRPM_TYPE_STANDARD || (d->type == DRPM_TYPE_RPMONLY && d->version == 3), "type");
    VP_ASSERT(d->sequence_len >= 16 && (d->type == DRPM_TYPE_STANDARD || d->sequence_len == 16), "sequence size");
    VP_ASSERT(d->tgt_leadsig_len >= 112, "lead and signature size");
    unsigned __int128 sum = 0;
    for (unsigned i = 0; i < d->int_copies_count; i++) sum += d->int_copies[2 * i + 1];
    VP_ASSERT(sum <= d->int_data_len, "literal copies stay inside the literal data");
    __int128 off = 0;
    for (unsigned i = 0; i < d->ext_copies_count; i++) {
        off += (int32_t)d->ext_copies[2 * i];
        VP_ASSERT(off >= 0 && off <= (__int128)d->ext_data_len, "external copies stay inside the external data");
        off += d->ext_copies[2 * i + 1];
        VP_ASSERT(off <= (__int128)d->ext_data_len, "external copies stay inside the external data");
    }
    volatile unsigned char s = 0;
    for (size_t i = 0; i < d->int_data_len; i++) s ^= d->int_data.bytes[i];
    for (size_t i = 0; i < d->add_data_len; i++) s ^= d->add_data[i];
    for (size_t i = 0; i < d->tgt_leadsig_len; i++) s ^= d->tgt_leadsig[i];
    for (size_t i = 0; i < d->sequence_len; i++) s ^= d->sequence[i];
    s ^= strlen(d->src_nevr);
    if (d->type == DRPM_TYPE_RPMONLY) s ^= strlen(d->head.tgt_nevr);
    return s;
}
static void empty(const struct deltarpm *d)
{
    static const struct deltarpm z;
    VP_ASSERT(d->src_nevr == NULL && d->sequence == NULL && d->tgt_comp_param == NULL && d->offadj_elems == NULL && d->tgt_leadsig == NULL &&
              d->int_copies == NULL && d->ext_copies == NULL && d->add_data == NULL && d->int_data.bytes == NULL && d->head.tgt_rpm == NULL &&
              fk.alive == 0, "after a failure the delta holds nothing");
}
static struct out o, f;
void vp_case(void)
{
    struct deltarpm d = {0}, r = {0};
    unsigned mode = vp_u8();
    int fd = memfd_create("d", 0);
    char name[40];
    snprintf(name, sizeof(name), "/proc/self/fd/%d", fd);
    memset(&fk, 0, sizeof(fk));
    d.version = mode & 1 ? 3 : 1 + vp_u8() % 3;
    d.type = d.version == 3 && (mode & 2) ? DRPM_TYPE_RPMONLY : DRPM_TYPE_STANDARD;
    int rpmonly = d.type == DRPM_TYPE_RPMONLY;
    d.filename = name;
    d.comp = mode & 4 ? DRPM_COMP_GZIP : DRPM_COMP_NONE; d.comp_level = d.comp == DRPM_COMP_GZIP ? 6 : 0;
    d.src_nevr = text(lenbyte());
    d.sequence_len = 16 + (rpmonly ? 0 : lenbyte()); d.sequence = bytes(d.sequence_len);
    for (int i = 0; i < 16; i++) d.tgt_md5[i] = vp_u8();
    unsigned ci = vp_u8() % (sizeof(ids) / sizeof(ids[0]));
    d.tgt_comp = ids[ci].comp; d.tgt_comp_level = ids[ci].level;
    if (d.version >= 2) { d.tgt_size = num(); d.tgt_comp_param_len = lenbyte(); d.tgt_comp_param = d.tgt_comp_param_len ? bytes(d.tgt_comp_param_len) : NULL; }
    if (d.version >= 3) { d.tgt_header_len = num(); if (rpmonly && d.tgt_header_len == 0) d.tgt_header_len = 1; d.offadj_elems_count = lenbyte() % 12; d.offadj_elems = pairs(d.offadj_elems_count); }
    for (unsigned i = 0; i < d.offadj_elems_count; i++) if (d.offadj_elems[2 * i + 1] == 0x80000000u) d.offadj_elems[2 * i + 1] = 1;
    d.tgt_leadsig_len = 112 + lenbyte(); d.tgt_leadsig = bytes(d.tgt_leadsig_len);
    d.payload_fmt_off = num();
    d.int_copies_count = lenbyte() % 12; d.int_copies = pairs(d.int_copies_count);
    d.ext_copies_count = lenbyte() % 12; d.ext_copies = pairs(d.ext_copies_count);
    /* valid copies */
    uint64_t off = 0, len = 0, max = 0;
    for (unsigned i = 0; i < d.ext_copies_count; i++) {
        int64_t a = (int32_t)d.ext_copies[2 * i];
        if (a == INT32_MIN || (int64_t)off + a < 0) a = -(int64_t)(off > 1000 ? 1000 : off);
        d.ext_copies[2 * i] = (uint32_t)a; off += a;
        if (d.version < 3) d.ext_copies[2 * i + 1] &= 0xFFFFF;
        if (d.version < 3 && off + d.ext_copies[2 * i + 1] > UINT32_MAX) { d.ext_copies[2 * i] = 0; off -= a; d.ext_copies[2 * i + 1] = 1; if (off + 1 > UINT32_MAX) { d.ext_copies_count = i; break; } }
        if (off + d.ext_copies[2 * i + 1] == 0) d.ext_copies[2 * i + 1] = 1;
        off += d.ext_copies[2 * i + 1];
        if (off > max) max = off;
    }
    for (unsigned i = 0; i < d.ext_copies_count; i++) ;
    d.ext_data_len = max + (vp_u8() % 4 == 0 ? vp_u8() : 0);
    if (d.version < 3 && d.ext_data_len > UINT32_MAX) d.ext_data_len = UINT32_MAX;
    for (unsigned i = 0; i < d.int_copies_count; i++) { d.int_copies[2 * i + 1] %= 90; len += d.int_copies[2 * i + 1]; }
    d.int_data_len = len;
    unsigned char *lit = bytes(len);
    d.int_data_as_ptrs = mode >> 3 & 1;
    if (d.int_data_as_ptrs) {
        d.int_data.ptrs = malloc((d.int_copies_count + 1) * sizeof(void *));
        size_t p = 0;
        for (unsigned i = 0; i < d.int_copies_count; i++) { d.int_data.ptrs[i] = lit + p; p += d.int_copies[2 * i + 1]; }
    } else d.int_data.bytes = lit;
    d.add_data_len = lenbyte(); d.add_data = bytes(d.add_data_len);
    fk.hlen = lenbyte() % 40; fk.comp = d.tgt_comp;
    for (unsigned i = 0; i < fk.hlen; i++) fk.hdr[i] = vp_u8();
    char *tn = NULL;
    if (rpmonly) d.head.tgt_nevr = tn = text(lenbyte()); else d.head.tgt_rpm = (struct rpm *)&fk;

    o.n = f.n = 0;
    serialise(&o, &d, lit, ids[ci].id);
    if (rpmonly) { om(&f, "drpmDLT3", 8); o32(&f, strlen(tn) + 1); om(&f, tn, strlen(tn) + 1); o32(&f, d.add_data_len); om(&f, d.add_data, d.add_data_len); }
    else { om(&f, lead, 8); om(&f, fk.hdr, fk.hlen); }
    size_t fixed = f.n;
    unsigned char got[MAXB];
    if (!(mode & 16)) {
        int e = write_deltarpm(&d);
        VP_ASSERT(e == DRPM_ERR_OK, "a valid delta is written");
        ssize_t n = pread(fd, got, sizeof(got), 0);
        VP_ASSERT(n >= (ssize_t)fixed && memcmp(got, f.b, fixed) == 0, "the uncompressed part has the documented layout");
        if (d.comp == DRPM_COMP_NONE)
            VP_ASSERT((size_t)n == fixed + o.n && memcmp(got + fixed, o.b, o.n) == 0, "the stream has the documented layout");
        else {
            unsigned char *u = malloc(MAXB);
            z_stream z; memset(&z, 0, sizeof(z)); inflateInit2(&z, 47);
            z.next_in = got + fixed; z.avail_in = n - fixed; z.next_out = u; z.avail_out = MAXB;
            VP_ASSERT(inflate(&z, Z_FINISH) == Z_STREAM_END && z.total_out == o.n && memcmp(u, o.b, o.n) == 0, "the stream has the documented layout");
            inflateEnd(&z); free(u);
        }
        if (!rpmonly) {
            unsigned char m[16]; MD5_CTX c;
            MD5_Init(&c); MD5_Update(&c, fk.hdr, fk.hlen); MD5_Update(&c, got + fixed, n - fixed); MD5_Final(m, &c);
            VP_ASSERT(fk.reload && fk.size == fk.hlen + (uint32_t)(n - fixed) && memcmp(m, fk.md5, 16) == 0, "the signature holds size and MD5 sum of header and stream");
        }
    }
    fk.alive = 0;
    if (mode & 16) {
        /* damage the delta */
        size_t keep = o.n;
        unsigned nd = vp_u8() % 4;
        for (unsigned i = 0; i < nd; i++) {
            size_t p = vp_u16() % o.n; unsigned how = vp_u8();
            if (how & 1) { uint32_t v = num(); for (int b = 0; b < 4; b++) if (p + b < o.n) o.b[p + b] = v >> (24 - 8 * b); }
            else o.b[p] = vp_u8();
        }
        if (vp_u8() % 3 == 0) keep = vp_u16() % (o.n + 1);
        if (vp_u8() % 5 == 0) f.b[vp_u8() % fixed] = vp_u8();
        if (vp_u8() % 9 == 0) fk.comp = 98 + vp_u8() % 2;
        if (vp_u8() % 2 == 0) g_fail = vp_u8() % 24;
        if (ftruncate(fd, 0) != 0 || pwrite(fd, f.b, fixed, 0) != (ssize_t)fixed || pwrite(fd, o.b, keep, fixed) != (ssize_t)keep) abort();
        int e = read_deltarpm(&r, name);
        g_fail = -1;
        if (e == DRPM_ERR_OK) { invariants(&r, 0); free_deltarpm(&r); }
        empty(&r);
    } else {
        int e = read_deltarpm(&r, name);
        VP_ASSERT(e == DRPM_ERR_OK, "a written delta is read");
        invariants(&r, 1);
        VP_ASSERT(r.version == d.version && r.type == d.type && r.comp == d.comp && strcmp(r.src_nevr, d.src_nevr) == 0 &&
                  r.sequence_len == d.sequence_len && memcmp(r.sequence, d.sequence, d.sequence_len) == 0 && memcmp(r.tgt_md5, d.tgt_md5, 16) == 0, "leading fields read back");
        VP_ASSERT(r.tgt_size == d.tgt_size && r.tgt_comp == d.tgt_comp && (d.version < 2 || r.tgt_comp_level == d.tgt_comp_level) &&
                  r.tgt_comp_param_len == d.tgt_comp_param_len && (d.tgt_comp_param_len == 0 || memcmp(r.tgt_comp_param, d.tgt_comp_param, d.tgt_comp_param_len) == 0) &&
                  r.tgt_header_len == d.tgt_header_len && r.offadj_elems_count == d.offadj_elems_count &&
                  (d.offadj_elems_count == 0 || memcmp(r.offadj_elems, d.offadj_elems, d.offadj_elems_count * 8) == 0), "target fields and adjustments read back");
        VP_ASSERT(r.tgt_leadsig_len == d.tgt_leadsig_len && memcmp(r.tgt_leadsig, d.tgt_leadsig, d.tgt_leadsig_len) == 0 && r.payload_fmt_off == d.payload_fmt_off &&
                  r.int_copies_count == d.int_copies_count && (d.int_copies_count == 0 || memcmp(r.int_copies, d.int_copies, d.int_copies_count * 8) == 0) &&
                  r.ext_copies_count == d.ext_copies_count && (d.ext_copies_count == 0 || memcmp(r.ext_copies, d.ext_copies, d.ext_copies_count * 8) == 0), "instructions read back");
        VP_ASSERT(r.ext_data_len == d.ext_data_len && r.int_data_len == d.int_data_len && !r.int_data_as_ptrs && (len == 0 || memcmp(r.int_data.bytes, lit, len) == 0) &&
                  r.add_data_len == d.add_data_len && (d.add_data_len == 0 || memcmp(r.add_data, d.add_data, d.add_data_len) == 0), "data read back");
        if (rpmonly) VP_ASSERT(strcmp(r.head.tgt_nevr, tn) == 0, "target NEVR reads back");
        /* information about the delta */
        free_deltarpm(&r);
        empty(&r);
    }
    close(fd);
    free(d.src_nevr); free(d.sequence); free(d.tgt_comp_param); free(d.offadj_elems); free(d.tgt_leadsig); free(d.int_copies); free(d.ext_copies); free(d.add_data);
    if (d.int_data_as_ptrs) free(d.int_data.ptrs);
    free(lit); free(tn);
}
VP_MAIN()
