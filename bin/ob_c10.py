PROPS['C10'] = dict(
    cases=['info'],
    trusted=['strlen/strcpy contract stubs (h/libc_str.h); malloc may fail; memcpy per CBMC model'],
    assumptions=['strings up to 256 MiB, arrays up to 64 Mi elements'],
    search_s=40,
)
CASES['info'] = dict(src='info.c', max_len=400, leaks=1)
PROPS['C17'] = dict(cases=['args', 'options'], trusted=['strlen/strcpy contract stubs'], assumptions=[], search_s=30)
CASES['args'] = dict(src='args.c', max_len=40, leaks=1)
ob('info.numbers', 'C10', 'access.c', 'h_numbers', fn='drpm_get_uint,drpm_get_ulong,drpm_get_ullong', preunwind=['any_info.0:8'])
ob('info.strings', 'C10', 'access.c', 'h_strings', fn='drpm_get_string', preunwind=['any_info.0:8'])
ob('info.arrays', 'C10', 'access.c', 'h_arrays', fn='drpm_get_ulong_array', loops=1, preunwind=['any_info.0:8'])
ob('args.null', 'C17', 'access.c', 'h_nullargs', preunwind=['any_info.0:8'], loops=1,
   fn='drpm_get_uint,drpm_get_ulong,drpm_get_ullong,drpm_get_string,drpm_get_ulong_array,drpm_read,drpm_destroy,drpm_make,drpm_apply,drpm_check,drpm_check_sequence')
ob('args.strerror', 'C17', 'access.c', 'h_strerror', fn='drpm_strerror', unwindset=['h_strerror.0:41'],
   scope='complete: all 2^32 error numbers; texts shorter than 40 characters')
for n, std in (('standard', 1), ('rpmonly', 0)):
    for w, x in enumerate(('safe', 'arrays', 'hex', 'hex2', 'strings')):
        ob('deltarpm_to_drpm.%s.%s' % (n, x), 'C10', 'todrpm.c', 'h_todrpm', defs=['-DSTD=%d' % std, '-DWHAT=%d' % w, '-DRPMONLY=0', '-DVER=3', '-Dunion=struct'], fn='deltarpm_to_drpm,drpm_free', solvers=['cadical'], timeout=300,
           checks=['--no-pointer-check', '--no-bounds-check', '--no-pointer-primitive-check', '--no-malloc-may-fail'] if w else [])
