/* C01: the diff.  Ghost monitors of what is emitted; g_k, g_j, g_n are arbitrary positions. */
#ifndef VP_SPEC_DIFF_H
#define VP_SPEC_DIFF_H
/* entries found by make_diff: they tile the new data */
struct diff_copy;
struct diff_copy *g_diff_buf;
size_t g_diff_max;         /* entries there is memory for */
struct vp_diff {
    size_t pos;             /* new data covered so far */
    size_t n, cap;          /* entries, room */
    size_t total, written;  /* bytes the add block must have, has */
    bool seen, cur, got;    /* position g_n lies in an external copy; in the current one; its add byte was written */
    size_t at, d;           /* its place in the add block; distance old - new of its copy */
    unsigned char byte;
    bool failed;
    size_t t;               /* g_n counted from the bytes being added */
    size_t e_oo, e_ol, e_no, e_nl; /* entry g_k */
} g_diff;
#if VP_PART == 2
# define DIFF_KEPT(n) 1
#else
# define DIFF_KEPT(n) IMPLIES(g_k < (n), g_diff_buf[g_k].old_off == g_diff.e_oo && g_diff_buf[g_k].old_len == g_diff.e_ol && \
                                        g_diff_buf[g_k].new_off == g_diff.e_no && g_diff_buf[g_k].new_len == g_diff.e_nl)
#endif
#define ADD_AT(d) ((unsigned char)(g_new[g_n] - g_old[(size_t)(d) + g_n]))
#if VP_PART == 1
# define DIFF_ADDED (!g_diff.failed)
# define ADD_BYTES(i) 1
# define ADD_PLACE 1
#else
# define DIFF_ADDED (!g_diff.failed && IMPLIES(g_diff.seen, addblk && g_diff.at < g_diff.total && g_n < new_len && (size_t)(g_diff.d + g_n) < old_len) && \
                    IMPLIES(g_diff.seen && g_diff.at < g_diff.written, g_diff.got && g_diff.byte == ADD_AT(g_diff.d)))
# define ADD_BYTES(i) IMPLIES(g_diff.t < (i), buffer[g_diff.t] == (unsigned char)(new[new_pos_prev + g_diff.t] - old[old_pos_prev + g_diff.t]))
# define ADD_PLACE IMPLIES(g_diff.cur, g_diff.at - g_diff.written == g_n - new_pos_prev && g_diff.d == old_pos_prev - new_pos_prev)
#endif
void vp_diff_copy(const void *e);
#define vp_same(p, buf) (__CPROVER_assert((p) == NULL || (p) == (buf), "list stands in its buffer"), (p) == NULL ? NULL : (buf))

/* instruction lists: g_ox external, g_oi internal copies, read as the applying side reads them */
uint32_t *g_ext_buf, *g_int_buf;
void *g_pext, *g_pint;
size_t g_ext_max, g_int_max;   /* the memory there is, in words */
struct vp_ox { size_t n, cap, pend, left, src, off; uint32_t a, l; bool failed; } g_ox;
struct vp_oi { size_t n, cap, left, lit, entry; uint32_t a, l; bool zero, failed; } g_oi;
struct vp_out { size_t i, oldlen, newmax, no, nl; } g_out;
#define DISTANCE(a, b) ((a) > (b) ? (a) - (b) : (b) - (a))
#define EXT_OK ((ext_copies == NULL) == (ext_copies_count == 0) && (ext_copies == NULL || ext_copies == g_ext_buf) && \
    g_ox.n == ext_copies_count && !g_ox.failed && g_ox.cap == (2 * g_ox.n + 15) / 16 * 16 && g_ox.cap <= g_ext_max && g_ox.off == offset && offset <= g_out.oldlen && \
    IMPLIES(g_k < g_ox.n, g_ext_buf[2 * g_k] == g_ox.a && g_ext_buf[2 * g_k + 1] == g_ox.l))
#define INT_OK ((int_copies == NULL) == (int_copies_count == 0) && (int_copies == NULL || int_copies == g_int_buf) && \
    g_oi.n == int_copies_count && !g_oi.failed && g_oi.cap == (2 * g_oi.n + 15) / 16 * 16 && g_oi.cap <= g_int_max && !g_oi.zero && \
    IMPLIES(g_j < g_oi.n, g_int_buf[2 * g_j] == g_oi.a && g_int_buf[2 * g_j + 1] == g_oi.l))
#define PENDING_OK (last_ext_copies_count <= ext_copies_count && g_ox.pend == ext_copies_count - last_ext_copies_count)
void vp_lists(void *e, void *i);
void vp_out_entry(const void *d, size_t i);
void vp_ext_emit(size_t k);
void vp_int_emit(size_t k);

/* literal data: internal copy i takes bytes O.. of the literal part of entry J */
size_t g_lit_n;
struct vp_lit { size_t i, J, O, end; uint64_t sum; bool started, zero, kzero; const unsigned char *ptr; } g_lit;
#define LIT_STATE(dc) (g_lit.started ? g_lit.J < g_lit_n && left == (dc)[g_lit.J].new_len - g_lit.end && g_lit.end <= (dc)[g_lit.J].new_len && \
                                       offset == (dc)[g_lit.J].new_off + g_lit.end && j == g_lit.J + 1 : left == 0 && j == 0)
#define LIT_SEEK(dc) (g_lit.J < g_lit_n && (left == 0 ? j <= g_lit.J && g_lit.O == 0 : j == g_lit.J + 1 && left == (dc)[g_lit.J].new_len - g_lit.O && offset == (dc)[g_lit.J].new_off + g_lit.O))
void vp_lit_next(const void *d, const unsigned char *new, const uint32_t *ic, size_t i);
void vp_lit_entry(const void *d, size_t j);
#endif
