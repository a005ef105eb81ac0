/* concrete oracle for C08 */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"
VP_MAIN()
void vp_case(void)
{
    static const int algo_of[8] = {DRPM_COMP_NONE, DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_GZIP, DRPM_COMP_BZIP2, DRPM_COMP_LZMA, DRPM_COMP_XZ, DRPM_COMP_ZSTD};
    static const int id_of[7] = {0, 1, 2, 5, 6, -1, 7};
    unsigned nalgo = 7;
#ifdef WITH_ZSTD
    nalgo = 8;
#endif
    uint32_t id = vp_u32(), e;
    unsigned short c = vp_u8() % 16, l = vp_u8(), c2 = 99, l2 = 999;
    bool r = deltarpm_decode_comp(id, &c2, &l2);
    VP_ASSERT(r == ((id & 255) < nalgo), "decode accepts exactly the known identifiers");
    if (r)
        VP_ASSERT(c2 == algo_of[id & 255] && l2 == ((id >> 8) & 255), "decoded compression and level");
    VP_ASSERT(deltarpm_decode_comp(id, &c2, NULL) == r, "level is optional");
    r = deltarpm_encode_comp(&e, c, l);
    VP_ASSERT(r == (c < 5 || (c == DRPM_COMP_ZSTD && nalgo == 8)), "encode accepts exactly the compressions of the format");
    if (r)
        VP_ASSERT((e & 255) == (uint32_t)id_of[c] && ((e >> 8) & 255) == l && deltarpm_decode_comp(e, &c2, &l2) && c2 == c && l2 == l, "round trip");
}
