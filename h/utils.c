/* C07: number and hexadecimal codecs (drpm_utils.c) */
#include "drpm_verify.h"
#include "vp.h"
#include <sys/types.h>
#include "drpm_private.h"

size_t nondet_size(void);
unsigned char nondet_uchar(void);
#define MAXN 0x10000000

/* ---- spec functions: big-endian value of a byte string, written with plain arithmetic */
#define SPEC16(b) ((uint32_t)(b)[0] * 256 + (b)[1])
#define SPEC32(b) ((uint64_t)(b)[0] * 16777216 + (uint64_t)(b)[1] * 65536 + (uint64_t)(b)[2] * 256 + (b)[3])
#define SPEC64(b) (SPEC32(b) * 4294967296 + SPEC32((b) + 4))

uint16_t parse_be16(const unsigned char *buffer)
__CPROVER_requires(__CPROVER_is_fresh(buffer, 2))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == SPEC16(buffer));
uint32_t parse_be32(const unsigned char *buffer)
__CPROVER_requires(__CPROVER_is_fresh(buffer, 4))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == SPEC32(buffer));
uint64_t parse_be64(const unsigned char *buffer)
__CPROVER_requires(__CPROVER_is_fresh(buffer, 8))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value == SPEC64(buffer));
void create_be32(uint32_t in, unsigned char *out)
__CPROVER_requires(__CPROVER_is_fresh(out, 4))
__CPROVER_assigns(__CPROVER_object_whole(out))
__CPROVER_ensures(SPEC32(out) == in);
void create_be64(uint64_t in, unsigned char *out)
__CPROVER_requires(__CPROVER_is_fresh(out, 8))
__CPROVER_assigns(__CPROVER_object_whole(out))
__CPROVER_ensures(SPEC64(out) == in);

void dump_hex(char *dest, const unsigned char *source, size_t count)
__CPROVER_requires(count <= MAXN)
__CPROVER_requires(__CPROVER_is_fresh(dest, 2 * count + 1))
__CPROVER_requires(__CPROVER_is_fresh(source, count))
__CPROVER_assigns(__CPROVER_object_whole(dest))
__CPROVER_ensures(dest[2 * count] == '\0')
__CPROVER_ensures(g_k >= count || (dest[2 * g_k] == "0123456789abcdef"[source[g_k] >> 4] &&
                                   dest[2 * g_k + 1] == "0123456789abcdef"[source[g_k] & 15]));

ssize_t parse_hexnum(const char *str, size_t size)
__CPROVER_requires(size <= 8)
__CPROVER_requires(__CPROVER_r_ok(str, size))
__CPROVER_assigns()
__CPROVER_ensures(__CPROVER_return_value >= -1)
__CPROVER_ensures(size != 2 || __CPROVER_return_value ==
    (HEXVAL(str[0]) < 0 || HEXVAL(str[1]) < 0 ? -1 : 16 * HEXVAL(str[0]) + HEXVAL(str[1])))
__CPROVER_ensures(size != 8 || __CPROVER_return_value ==
    (HEXVAL(str[0]) < 0 || HEXVAL(str[1]) < 0 || HEXVAL(str[2]) < 0 || HEXVAL(str[3]) < 0 ||
     HEXVAL(str[4]) < 0 || HEXVAL(str[5]) < 0 || HEXVAL(str[6]) < 0 || HEXVAL(str[7]) < 0 ? -1 :
     (ssize_t)HEXVAL(str[0]) * 268435456 + (ssize_t)HEXVAL(str[1]) * 16777216 +
     (ssize_t)HEXVAL(str[2]) * 1048576 + (ssize_t)HEXVAL(str[3]) * 65536 + (ssize_t)HEXVAL(str[4]) * 4096 +
     (ssize_t)HEXVAL(str[5]) * 256 + (ssize_t)HEXVAL(str[6]) * 16 + (ssize_t)HEXVAL(str[7])));

size_t g_srclen;
#ifdef ALLHEX
#define ALLHEX_ENS __CPROVER_ensures(__CPROVER_return_value == (ssize_t)(g_srclen / 2))
#else
#define ALLHEX_ENS
#endif
ssize_t parse_hex(unsigned char *dest, const char *source)
__CPROVER_requires(g_srclen <= MAXN)
__CPROVER_requires(__CPROVER_is_fresh(source, g_srclen + 1))
__CPROVER_requires(__CPROVER_is_fresh(dest, g_srclen / 2))
__CPROVER_assigns(__CPROVER_object_whole(dest))
ALLHEX_ENS
__CPROVER_ensures(__CPROVER_return_value == -1 || __CPROVER_return_value == (ssize_t)(g_srclen / 2))
__CPROVER_ensures(__CPROVER_return_value < 0 || g_k >= g_srclen / 2 ||
    (HEXVAL(source[2 * g_k]) >= 0 && HEXVAL(source[2 * g_k + 1]) >= 0 &&
     dest[g_k] == 16 * HEXVAL(source[2 * g_k]) + HEXVAL(source[2 * g_k + 1])));

size_t strlen(const char *s) { return g_srclen; }   /* assumed: the length of the one string in play */

#ifdef ALLHEX
/* "every character is a hexadecimal digit", instantiated where a character is classified */
int isdigit(int c) { __CPROVER_assume(HEXVAL(c) >= 0); return c >= '0' && c <= '9'; }
int isxdigit(int c) { __CPROVER_assume(HEXVAL(c) >= 0); return 1; }
#endif
#include "drpm_utils.c"

void h_parse_be16(void) { const unsigned char *b; parse_be16(b); VP_REACH("parse_be16"); }
void h_parse_be32(void) { const unsigned char *b; parse_be32(b); VP_REACH("parse_be32"); }
void h_parse_be64(void) { const unsigned char *b; parse_be64(b); VP_REACH("parse_be64"); }
void h_create_be32(void) { unsigned char *b; uint32_t v; create_be32(v, b); VP_REACH("create_be32"); }
void h_create_be64(void) { unsigned char *b; uint64_t v; create_be64(v, b); VP_REACH("create_be64"); }
void h_dump_hex(void) { char *d; const unsigned char *s; size_t n; g_k = nondet_size(); dump_hex(d, s, n); VP_REACH("dump_hex"); }
void h_parse_hexnum(void)
{
    char s[9];
    size_t n;
    __CPROVER_assume(n == 2 || n == 8);
    parse_hexnum(s, n);
    VP_REACH("parse_hexnum");
}
void h_parse_hex(void)
{
    unsigned char *d; const char *s;
    g_k = nondet_size();
    g_srclen = nondet_size();
    ssize_t r = parse_hex(d, s);
    if (r >= 0) VP_REACH("parse_hex ok");
#ifndef ALLHEX
    if (r < 0) VP_REACH("parse_hex refused");
#endif
}

/* lemmas over the contracts: round trips */
void h_be_roundtrip(void)
{
    uint32_t a; uint64_t b; unsigned char x[4], y[8], z[4];
    create_be32(a, x);
    VP_ASSERT(parse_be32(x) == a, "32-bit round trip");
    create_be64(b, y);
    VP_ASSERT(parse_be64(y) == b, "64-bit round trip");
    uint32_t v = parse_be32(z);
    create_be32(v, x);
    VP_ASSERT(x[0] == z[0] && x[1] == z[1] && x[2] == z[2] && x[3] == z[3], "32-bit bytes round trip");
    VP_ASSERT(parse_be16(z) == v >> 16, "16-bit prefix");
    VP_REACH("roundtrip");
}
/* parse_md5 / parse_sha256 accept exactly the strings whose hex form has the digest's length;
 * parse_hex is replaced by its contract */
void h_parse_digest(void)
{
    g_srclen = nondet_size();
    __CPROVER_assume(g_srclen <= 2 * SHA256_DIGEST_LENGTH + 1);
    unsigned char *d = malloc(g_srclen / 2 + 1);
    char *s = malloc(g_srclen + 1);
    __CPROVER_assume(d && s && s[g_srclen] == 0);
    g_k = nondet_size();
    bool sha;
    bool r = sha ? parse_sha256(d, s) : parse_md5(d, s);
    size_t want = sha ? SHA256_DIGEST_LENGTH : MD5_DIGEST_LENGTH;
    if (r) {
        VP_ASSERT(g_srclen / 2 == want, "accepted digest has the digest's length");
        VP_ASSERT(g_k >= want || (HEXVAL(s[2 * g_k]) >= 0 && HEXVAL(s[2 * g_k + 1]) >= 0 &&
                  d[g_k] == 16 * HEXVAL(s[2 * g_k]) + HEXVAL(s[2 * g_k + 1])), "accepted digest is the decoded string");
        VP_REACH("accepted");
    } else
        VP_REACH("refused");
}
int g_md5_ok; size_t g_md5_n;
int MD5_Update(MD5_CTX *c, const void *data, size_t len)
{
    g_md5_n = len;
    g_md5_ok = len == 4 && SPEC32((const unsigned char *)data) == g_i;
    return 1;
}
void h_md5_be32(void)
{
    MD5_CTX c; uint32_t v;
    g_i = v;
    VP_ASSERT(md5_update_be32(&c, v) == 1 && g_md5_ok, "the digest is fed the four big-endian bytes");
    VP_REACH("md5_be32");
}
