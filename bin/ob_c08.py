PROPS['C08'] = dict(cases=['comp', 'comp_lzip'], trusted=[], assumptions=['compression levels below 256 (the on-disk field is 8 bits wide)'], search_s=20)
CASES['comp'] = dict(src='comp.c', max_len=16, cx_bytes=8, cx_unwind=12)
CASES['comp_lzip'] = dict(src='comp.c', max_len=16, conf='lzip', cx_bytes=8, cx_unwind=12, corpus='comp')
for conf in ('zstd', 'lzip'):
    ob('comp.decode.' + conf, 'C08', 'comp.c', 'h_decode', enforce='deltarpm_decode_comp', fn='deltarpm_decode_comp', conf=conf)
    ob('comp.encode.' + conf, 'C08', 'comp.c', 'h_encode', enforce='deltarpm_encode_comp', fn='deltarpm_encode_comp', conf=conf)
    ob('comp.roundtrip.' + conf, 'C08', 'comp.c', 'h_comp_roundtrip', fn='deltarpm_decode_comp,deltarpm_encode_comp', conf=conf)
