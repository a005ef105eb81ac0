PROPS['C07'] = dict(
    cases=['codecs'],
    trusted=['libc: isdigit/isxdigit/toupper per CBMC library models; strlen returns the index of the terminator'],
    assumptions=['buffers up to 256 MiB (hex dump/parse); no other bound'],
)
CASES['codecs'] = dict(src='codecs.c', cx_bytes=40, cx_unwind=20, max_len=200)
for f in 'parse_be16 parse_be32 parse_be64 create_be32 create_be64'.split():
    ob('utils.' + f, 'C07', 'utils.c', 'h_' + f, enforce=f, fn=f, solvers=['sat'], checks=['--no-signed-overflow-check'])
ob('utils.be_roundtrip', 'C07', 'utils.c', 'h_be_roundtrip', fn='create_be32,create_be64,parse_be16,parse_be32,parse_be64', checks=['--no-signed-overflow-check'])
ob('utils.dump_hex', 'C07', 'utils.c', 'h_dump_hex', enforce='dump_hex', loops=1, fn='dump_hex')
ob('utils.parse_hexnum', 'C07', 'utils.c', 'h_parse_hexnum', enforce='parse_hexnum', preunwind=['parse_hexnum.0:9'], fn='parse_hexnum', solvers=['sat'],
   scope='complete: the loop is bounded by the operand width (2 or 8 digits, the only widths the library uses)')
ob('utils.parse_hex', 'C07', 'utils.c', 'h_parse_hex', enforce='parse_hex', loops=1, preunwind=['parse_hexnum.0:4'], fn='parse_hex,parse_hexnum')
ob('utils.parse_hex_accepts', 'C07', 'utils.c', 'h_parse_hex', defs=['-DALLHEX'], enforce='parse_hex', loops=1, preunwind=['parse_hexnum.0:4'], fn='parse_hex')
ob('utils.parse_digest', 'C07', 'utils.c', 'h_parse_digest', replace=['parse_hex'], fn='parse_md5,parse_sha256')
ob('utils.md5_update_be32', 'C07', 'utils.c', 'h_md5_be32', fn='md5_update_be32', solvers=['sat'])
