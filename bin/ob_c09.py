PROPS['C09'] = dict(
    cases=['options'],
    trusted=['libc malloc/realloc/free per CBMC models (any allocation may fail); strlen/strcpy/strdup by the contract stubs in h/libc_str.h'],
    assumptions=['strings up to 1 MiB'],
)
CASES['options'] = dict(src='options.c', omit=['drpm_options.c'], max_len=300, leaks=1)
CASES['options_lzip'] = dict(src='options.c', max_len=300, omit=['drpm_options.c'], leaks=1, conf='lzip', corpus='options')
_F = 'drpm_make_options_'
for conf in ('zstd', 'lzip'):
    ob('options.setters.' + conf, 'C09', 'options.c', 'h_setters', conf=conf,
       fn=','.join(_F + x for x in 'set_type set_version set_delta_comp get_delta_comp_from_rpm forbid_addblk set_addblk_comp set_memlimit'.split()))
ob('options.strings', 'C09', 'options.c', 'h_strings', fn=_F + 'set_seqfile,' + _F + 'add_patches')
ob('options.copy', 'C09', 'options.c', 'h_copy', fn=_F + 'copy')
ob('options.lifecycle', 'C09', 'options.c', 'h_lifecycle', fn=_F + 'init,' + _F + 'destroy,' + _F + 'defaults')
ob('options.null', 'C09 C17', 'options.c', 'h_null', fn='all of drpm_options.c')
