/* C08: compression identifiers (drpm_deltarpm.c); C17: error texts */
#include "drpm_verify.h"
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"
uint32_t nondet_u32(void); unsigned short nondet_us(void); int nondet_int(void);

/* the on-disk identifiers of the deltarpm format */
#ifdef WITH_ZSTD
# define NALGO 8
#else
# define NALGO 7
#endif
static const unsigned short algo_of[8] = {DRPM_COMP_NONE, DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_GZIP,
                                          DRPM_COMP_BZIP2, DRPM_COMP_LZMA, DRPM_COMP_XZ, DRPM_COMP_ZSTD};
static bool writable(unsigned c)
{
#ifdef WITH_ZSTD
    if (c == DRPM_COMP_ZSTD) return true;
#endif
    return c == DRPM_COMP_NONE || c == DRPM_COMP_GZIP || c == DRPM_COMP_BZIP2 || c == DRPM_COMP_LZMA || c == DRPM_COMP_XZ;
}
static unsigned id_of(unsigned c)
{
    return c == DRPM_COMP_NONE ? 0 : c == DRPM_COMP_GZIP ? 1 : c == DRPM_COMP_BZIP2 ? 2 : c == DRPM_COMP_LZMA ? 5 : c == DRPM_COMP_XZ ? 6 : 7;
}
bool deltarpm_decode_comp(uint32_t deltarpm_comp, unsigned short *comp, unsigned short *level)
__CPROVER_requires(__CPROVER_is_fresh(comp, sizeof(*comp)))
__CPROVER_requires(level == NULL || __CPROVER_is_fresh(level, sizeof(*level)))
__CPROVER_assigns(*comp; level != NULL: *level)
__CPROVER_ensures(__CPROVER_return_value == ((deltarpm_comp & 255) < NALGO))
__CPROVER_ensures(!__CPROVER_return_value || *comp == algo_of[deltarpm_comp & 7])
__CPROVER_ensures(!__CPROVER_return_value || level == NULL || *level == ((deltarpm_comp >> 8) & 255))
;
bool deltarpm_encode_comp(uint32_t *deltarpm_comp, unsigned short comp, unsigned short level)
__CPROVER_requires(__CPROVER_is_fresh(deltarpm_comp, sizeof(*deltarpm_comp)))
__CPROVER_assigns(*deltarpm_comp)
__CPROVER_ensures(__CPROVER_return_value == writable(comp))
__CPROVER_ensures(!__CPROVER_return_value || (*deltarpm_comp & 255) == id_of(comp))
__CPROVER_ensures(!__CPROVER_return_value || ((*deltarpm_comp >> 8) & 255) == (level & 255))
;
#include "drpm_deltarpm.c"

void h_decode(void) { uint32_t c = nondet_u32(); unsigned short *p, *q; deltarpm_decode_comp(c, p, q); VP_REACH("decode"); }
void h_encode(void) { uint32_t *p; unsigned short c = nondet_us(), l = nondet_us(); deltarpm_encode_comp(p, c, l); VP_REACH("encode"); }
void h_comp_roundtrip(void)
{
    unsigned short c = nondet_us(), l = nondet_us(), c2, l2, c3, l3;
    uint32_t e, e2, id = nondet_u32();
    __CPROVER_assume(l < 256);
    if (deltarpm_encode_comp(&e, c, l)) {
        VP_ASSERT(deltarpm_decode_comp(e, &c2, &l2) && c2 == c && l2 == l, "decoding inverts encoding");
        VP_REACH("encode, decode");
    }
    if (deltarpm_decode_comp(id, &c3, &l3)) {
        VP_ASSERT(deltarpm_encode_comp(&e2, c3, l3) && deltarpm_decode_comp(e2, &c2, &l2) && c2 == c3 && l2 == l3, "every decoded compression can be encoded again");
        VP_ASSERT(e2 == (id & 0xffff) || (id & 255) == 3 || (id & 255) == 4, "canonical identifiers are kept");
        VP_REACH("decode, encode");
    }
}
