PROPS['C03'] = dict(cases=['seq'], trusted=['realloc/malloc per CBMC models'], assumptions=['file lists up to 2^24 files, sequences up to 256 MiB'], search_s=60)
PROPS['C04'] = dict(cases=['seq'], trusted=['is_prelinked and prelink_open by contract (the ELF scan itself and the prelink program are not verified)', 'read/open/stat per their manual pages (h/check.c)', 'MD5 and SHA-256 of OpenSSL as abstract hash events'], assumptions=['file lists up to 2^24 files, sequences up to 256 MiB'], search_s=60)
CASES['seq'] = dict(src='seq.c', omit=['drpm_make.c'], max_len=400, leaks=1)
ob('expand_sequence.decode', 'C03 C04', 'expand.c', 'h_expand', defs=['-DVP_PHASE1'], loops=1, fn='expand_sequence', replace=['check_full', 'check_filesize'], timeout=300)
ob('expand_sequence.digest', 'C04', 'expand.c', 'h_expand', defs=['-DVP_PHASE2'], loops=1, fn='expand_sequence', replace=['check_full', 'check_filesize'], timeout=300)
ob('seq_add', 'C03', 'sequence.c', 'h_seq_add', fn='seq_add', replace=['seq_append'])
ob('seq_final', 'C03', 'sequence.c', 'h_seq_final', fn='seq_final', replace=['seq_append'])
ob('seq_init', 'C03', 'sequence.c', 'h_seq_init', fn='seq_add')
for par in (0, 1):
    for grow in (0, 1):
        ob('seq_append.%s.%s' % (('even', 'odd')[par], ('room', 'grow')[grow]), 'C03', 'sequence.c', 'h_append', defs=['-DVP_PARITY=%d' % par, '-DVP_GROW=%d' % grow],
           unwindset=['seq_append.0:12', 'seq_append.1:12', 'h_append.0:12', 'h_append.1:12'], fn='seq_append', solvers=['cadical'], timeout=400,
           scope='complete: a 32-bit number has at most 11 octal digits')
