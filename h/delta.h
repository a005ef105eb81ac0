/* byte k of section sec of the compressed part of delta d; *len: the section's length.
 * VER and RPMONLY fix the layout */
#ifndef H_DELTA_H
#define H_DELTA_H
static size_t g_nevr_len;       /* length of the source NEVR as stored */
static uint32_t g_comp_id;      /* identifier of the target's compression as stored */
static unsigned char vp_delta_byte(const struct deltarpm *d, unsigned sec, size_t k, size_t *len, bool *sm0)
{
    size_t o = 0;
    unsigned char r = 0;
    bool hit = false;
#define AT(n) (!hit && k >= o && k - o < (size_t)(n))
#define F32(v) do { if (AT(4)) { r = VP_BE(v, k - o); hit = true; } o += 4; } while (0)
#define FB(p, n) do { if (AT(n)) { r = ((const unsigned char *)(p))[k - o]; hit = true; } o += (n); } while (0)
#define FHALF(arr, odd, n, sm) do { if (k < 4 * (size_t)(n)) { uint32_t v = (arr)[2 * (k / 4) + odd]; r = VP_BE(VP_SM(sm, v), k % 4); \
        *sm0 = sm && v == 0 && k % 4 == 0; } o = 4 * (size_t)(n); } while (0)
#define F64(v) do { F32((uint32_t)((uint64_t)(v) >> 32)); F32((uint32_t)(v)); } while (0)
    *sm0 = false;
    switch (sec) {
    case S_HEAD:
        if (VER < 3) break;
        /* fall through: versions 1 and 2 end this part at S_ADJ1 */
    case S_ADJ1:
        if (VER >= 3 && sec == S_ADJ1) { FHALF(d->offadj_elems, 1, d->offadj_elems_count, 1); break; }
        F32(0x444C5430 + VER);
        F32(g_nevr_len);
        FB(d->src_nevr, g_nevr_len);
        F32(d->sequence_len);
        FB(d->sequence, d->sequence_len);
        FB(d->tgt_md5, 16);
        if (VER >= 2) {
            F32(d->tgt_size);
            F32(g_comp_id);
            F32(d->tgt_comp_param_len);
            FB(d->tgt_comp_param, d->tgt_comp_param_len);
        }
        if (VER >= 3) {
            F32(d->tgt_header_len);
            F32(d->offadj_elems_count);
        }
        break;
    case S_ADJ0: if (VER >= 3) FHALF(d->offadj_elems, 0, d->offadj_elems_count, 0); break;
    case S_MID:
        F32(d->tgt_leadsig_len);
        FB(d->tgt_leadsig, d->tgt_leadsig_len);
        F32(d->payload_fmt_off);
        F32(d->int_copies_count);
        F32(d->ext_copies_count);
        break;
    case S_INT0: FHALF(d->int_copies, 0, d->int_copies_count, 0); break;
    case S_INT1: FHALF(d->int_copies, 1, d->int_copies_count, 0); break;
    case S_EXT0: FHALF(d->ext_copies, 0, d->ext_copies_count, 1); break;
    case S_EXT1: FHALF(d->ext_copies, 1, d->ext_copies_count, 0); break;
    case S_LENS:
        if (VER >= 3) F64(d->ext_data_len); else F32(d->ext_data_len);
        if (RPMONLY) {
            F32(0);
        } else {
            F32(d->add_data_len);
            FB(d->add_data, d->add_data_len);
        }
        if (VER >= 3) F64(d->int_data_len); else F32(d->int_data_len);
        break;
    case S_DATA:
        if (!d->int_data_as_ptrs) FB(d->int_data.bytes, d->int_data_len);
        break;
    }
    *len = o;
    return r;
}
/* every section must have been completed, unless it is empty */
static bool vp_all_seen(const struct deltarpm *d)
{
    return (VER < 3 || (g_seen >> S_HEAD & 1)) && (g_seen >> S_ADJ1 & 1) && (g_seen >> S_MID & 1) && (g_seen >> S_INT1 & 1) &&
           (g_seen >> S_EXT1 & 1) && (g_seen >> S_LENS & 1) &&
           (VER < 3 || d->offadj_elems_count == 0 || (g_seen >> S_ADJ0 & 1)) &&
           (d->int_copies_count == 0 || (g_seen >> S_INT0 & 1)) && (d->ext_copies_count == 0 || (g_seen >> S_EXT0 & 1));
}
#endif
