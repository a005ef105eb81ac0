/* concrete oracle for C07 */
#include "vp.h"
#include "drpm.h"
#include "drpm_private.h"
#include <openssl/sha.h>
VP_MAIN()
static int hv(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
void vp_case(void)
{
    unsigned op = vp_u8() % 8;
    if (op == 0) {
        uint32_t v = vp_u32();
        unsigned char b[4];
        create_be32(v, b);
        for (int i = 0; i < 4; i++)
            VP_ASSERT(b[i] == ((v >> (24 - 8 * i)) & 255), "create_be32 writes big-endian");
        VP_ASSERT(parse_be32(b) == v && parse_be16(b) == v >> 16, "parse_be inverts create_be32");
    } else if (op == 1) {
        uint64_t v = vp_u64();
        unsigned char b[8];
        create_be64(v, b);
        for (int i = 0; i < 8; i++)
            VP_ASSERT(b[i] == ((v >> (56 - 8 * i)) & 255), "create_be64 writes big-endian");
        VP_ASSERT(parse_be64(b) == v, "parse_be64 inverts create_be64");
    } else {
        /* a string; op odd: any bytes, op even: hexadecimal digits */
        size_t n = op == 6 ? 16 : op == 7 ? 32 : vp_u8() % 66, sl = 2 * n + (vp_u8() & 1);
        char *s = malloc(sl + 1);
        unsigned char *d = malloc(n + 1), *src = malloc(n + 1);
        for (size_t i = 0; i < sl; i++) {
            unsigned char c = vp_u8();
            s[i] = op % 2 && c % 16 == 15 ? (c >> 4) * 7 + 40 : "0123456789abcdefABCDEF"[c % 22];
        }
        s[sl] = 0;
        sl = strlen(s);
        n = sl / 2;
        bool ok = true;
        for (size_t i = 0; i < 2 * n; i++)
            ok = ok && hv(s[i]) >= 0;
        d[n] = 0xA5;
        ssize_t r = parse_hex(d, s);
        VP_ASSERT(r == (ok ? (ssize_t)n : -1), "parse_hex accepts exactly the digit strings");
        VP_ASSERT(d[n] == 0xA5, "parse_hex writes strlen/2 bytes");
        for (size_t i = 0; ok && i < n; i++)
            VP_ASSERT(d[i] == 16 * hv(s[2 * i]) + hv(s[2 * i + 1]), "parse_hex value");
        if (n == MD5_DIGEST_LENGTH)
            VP_ASSERT(parse_md5(d, s) == ok, "parse_md5");
        if (n == SHA256_DIGEST_LENGTH)
            VP_ASSERT(parse_sha256(d, s) == ok, "parse_sha256");
        if (ok && n) {
            VP_ASSERT(!parse_md5(d, s) || n == 16, "parse_md5 length");
            VP_ASSERT(!parse_sha256(d, s) || n == 32, "parse_sha256 length");
        }
        if (sl >= 8) {
            ssize_t w = 0;
            for (int i = 0; i < 8; i++)
                w = w < 0 || hv(s[i]) < 0 ? -1 : w * 16 + hv(s[i]);
            VP_ASSERT(parse_hexnum(s, 8) == w, "parse_hexnum");
        }
        char *h = malloc(2 * n + 2);
        h[2 * n + 1] = 'Z';
        for (size_t i = 0; i < n; i++)
            src[i] = vp_u8();
        dump_hex(h, src, n);
        VP_ASSERT(h[2 * n] == 0 && h[2 * n + 1] == 'Z', "dump_hex terminates");
        for (size_t i = 0; i < n; i++)
            VP_ASSERT(h[2 * i] == "0123456789abcdef"[src[i] >> 4] && h[2 * i + 1] == "0123456789abcdef"[src[i] & 15], "dump_hex");
        free(s); free(d); free(src); free(h);
    }
}
