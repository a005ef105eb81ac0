for f, d, rep in (('check_full', ['-DVP_USE_PRELINK_CONTRACT'], ['is_prelinked', 'check_prelink']), ('check_prelink', [], ['prelink_open']), ('check_filesize', ['-DVP_USE_PRELINK_CONTRACT'], ['is_prelinked', 'check_prelink'])):
    ob(f, 'C04', 'check.c', 'h_' + f, defs=d, loops=1, solvers=['cvc5', 'z3'], fn=f + ',checksum_init,checksum_update,checksum_final,checksum_digest_len', replace=rep)
