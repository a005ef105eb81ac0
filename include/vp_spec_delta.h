/* Layout of the compressed part of a delta, as a list of sections; h/delta.h gives the byte at
 * every position of every section.  The same specification judges what the writer puts into the
 * stream and what the reader makes of it, so writing and reading are inverse to each other. */
#ifndef VP_SPEC_DELTA_H
#define VP_SPEC_DELTA_H
/* sections of the stream */
enum { S_HEAD, S_ADJ0, S_ADJ1, S_MID, S_INT0, S_INT1, S_EXT0, S_EXT1, S_LENS, S_DATA, S_END };
/* the stream, observed at the ghost position g_k of the ghost section g_sect;
 * pos: position in the section at hand (g_cur) */
struct vp_strm { size_t pos; unsigned char rec; } g_strm;
unsigned g_sect, g_cur, g_seen;
unsigned char g_byte;           /* reader: the byte at the observed position */

#define VP_BE(v, b) ((unsigned char)((uint32_t)(v) >> (24 - 8 * (unsigned)(b))))
/* sign and magnitude */
#define VP_SM(sm, v) ((sm) && ((uint32_t)(v) >> 31) ? (0u - (uint32_t)(v)) | 0x80000000u : (uint32_t)(v))
#define VP_HALF(arr, odd) ((arr)[2 * (g_k / 4) + (odd)])

/* literal data: copy number g_i starts at start and ends at end; sum of all lengths so far */
struct vp_int { uint64_t sum, start, end; const void *ptr; } g_int;
struct vp_ext { __int128 off, start, end; } g_ext;
/* loop over one half of an array of pairs while writing it: section sec */
#ifdef VP_PHASE2
/* writing the file: what goes into the stream is the subject of phase 1 */
#define PAIRS_WRITTEN(i, sec, odd, size, arr, sm) \
    ASSIGNS(i, error) INV(i % 2 == odd && i <= size + odd && error == DRPM_ERR_OK) DECREASES((size_t)size + odd - i)
#define INT_DATA_WRITTEN(i) true
#else
#define PAIRS_WRITTEN(i, sec, odd, size, arr, sm) \
    ASSIGNS(i, error, g_strm) \
    INV(i % 2 == odd && i <= size + odd && error == DRPM_ERR_OK) \
    INV(g_strm.pos == 4 * (size_t)(i / 2)) \
    INV(g_strm.rec == (g_sect == sec && g_k < g_strm.pos ? VP_BE(VP_SM(sm, VP_HALF(arr, odd)), g_k % 4) : ENTRY(g_strm.rec))) \
    DECREASES((size_t)size + odd - i)

/* ... while reading it; "negative zero" reads as zero */
#define VP_GOT(v, sm, b) (VP_BE(VP_SM(sm, v), b) == g_byte || ((sm) && (v) == 0 && (b) == 0 && g_byte == 0x80))
#define PAIRS_READ(i, sec, odd, size, arr, sm0, sm1) \
    ASSIGNS(i, error, g_strm, WHOLE(arr)) \
    INV(i % 2 == odd && i <= size + odd && error == DRPM_ERR_OK) \
    INV(g_strm.pos == 4 * (size_t)(i / 2)) \
    INV(IMPLIES(g_sect == sec && g_k < g_strm.pos, VP_GOT(VP_HALF(arr, odd), odd ? sm1 : sm0, g_k % 4))) \
    INV(IMPLIES(odd && g_sect == sec - 1 && g_k < 2 * (size_t)size, VP_GOT(VP_HALF(arr, 0), sm0, g_k % 4))) \
    DECREASES((size_t)size + odd - i)

/* literal data written piece by piece: byte g_k of the section, when it falls into piece g_i */
#ifndef VP_PIECE
#define VP_PIECE g_piece_i
#endif
#define INT_DATA_WRITTEN(i) (g_strm.pos == g_int.sum && \
    g_int.sum <= (uint64_t)(i) * 0x100000000u && \
    (g_i >= (i) || (g_int.end <= g_int.sum && g_int.start <= g_int.end && g_int.ptr == VP_PIECE && g_int.end - g_int.start == g_len_i)) && \
    (!(g_i < (i) && g_sect == S_DATA && g_k >= g_int.start && g_k < g_int.end) || g_strm.rec == VP_PIECE[g_k - g_int.start]))

#endif
extern const unsigned char *g_now; extern size_t g_now_len; /* the piece at hand */
struct deltarpm;
void vp_section(const struct deltarpm *d, unsigned sec);
void vp_int_next(const struct deltarpm *d, uint32_t i);
void vp_int_range(const struct deltarpm *d, uint32_t i);
void vp_ext_range(const struct deltarpm *d, uint32_t i);
#endif
