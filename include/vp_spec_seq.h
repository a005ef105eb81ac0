/* Specification of the deltarpm file-order sequence, and ghost state of its expansion.
 * The sequence is a string of nibbles; three payload bits each, least significant group first,
 * bit 3 = "more follows".  Numbers: run length, then (gap, run length)*; 0 announces a jump,
 * the number after it is the absolute position of the next run. */
#ifndef VP_SPEC_SEQ_H
#define VP_SPEC_SEQ_H
struct vp_dec {
    size_t nib;             /* nibbles consumed */
    size_t num; unsigned shift;     /* number under construction */
    size_t pos; bool toggle, jump;  /* next run starts at pos; toggle: a run length is due; jump: a position is due */
    size_t len;             /* positions produced so far */
    size_t val;             /* the position produced as number g_k, once g_k < len */
    bool bad;               /* not the sequence of a list of fc files */
    bool done;
} g_dec;

static inline void vp_dec_number(size_t v, size_t fc)
{
    if (g_dec.jump) { g_dec.pos = v; g_dec.toggle = true; g_dec.jump = false; return; }
    if (v == 0) { g_dec.jump = true; return; }
    if (!g_dec.toggle) { g_dec.pos += v; g_dec.toggle = true; return; }
    if (v > fc - g_dec.len || g_dec.pos >= fc || v > fc - g_dec.pos) { g_dec.bad = true; return; }
    if (g_k >= g_dec.len && g_k - g_dec.len < v)
        g_dec.val = g_dec.pos + (g_k - g_dec.len);
    g_dec.len += v; g_dec.pos += v; g_dec.toggle = false;
}
static inline void vp_dec_payload(unsigned n, size_t fc)
{
    g_dec.num += (size_t)(n & 7) << g_dec.shift;
    if (n & 8) {
        g_dec.shift += 3;
        if (g_dec.shift > 60)
            g_dec.bad = true;
        return;
    }
    size_t v = g_dec.num;
    g_dec.num = 0; g_dec.shift = 0;
    vp_dec_number(v, fc);
}
static inline void vp_dec_nibble(const unsigned char *seq, size_t fc)
{
#ifdef VP_PHASE2
    __CPROVER_assume(0); /* step case of the decoding loop: discharged by obligation expand_sequence.decode */
#endif
    unsigned b = seq[16 + g_dec.nib / 2];
    unsigned n = g_dec.nib % 2 == 0 ? b / 16 : b % 16;
    g_dec.nib++;
    vp_dec_payload(n, fc);
}
static inline void vp_dec_end(const size_t *positions, size_t len)
{
    __CPROVER_assert(!g_dec.bad && g_dec.shift == 0, "only a well-formed sequence is accepted");
    __CPROVER_assert(len == g_dec.len && (g_k >= len || positions[g_k] == g_dec.val), "the positions are those the sequence describes");
    g_dec.done = true;
}

/* second phase: the digest over the selected files, and the index of archive entries */
struct vp_fs {
    size_t n;               /* files finished */
    unsigned ev, need;      /* digest events seen / still due for the file at hand */
    size_t off;             /* archive offset of the next entry */
    const void *fi;         /* the file at hand */
    const char *name, *link, *md5; size_t namelen, linklen;
    bool slash, is_reg, is_lnk, is_dev; uint32_t mode, size, rdev;
    bool check, full;
    bool parsed; const void *digest;
    size_t k_hl, k_cl, k_off;       /* entry number g_k */
} g_fs;
struct file_info;
struct cpio_file;
void vp_file_next(const struct file_info *files, size_t fc, const size_t *positions, size_t i, bool check);
#define vp_files_inv(e, want, pos) (!(want) || g_k >= (pos) || \
    ((e)[g_k].index == (ssize_t)g_dec.val && (e)[g_k].header_len == g_fs.k_hl && \
     (e)[g_k].content_len == g_fs.k_cl && (e)[g_k].offset == g_fs.k_off))
#endif
