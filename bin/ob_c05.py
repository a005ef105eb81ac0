PROPS['C05'] = dict(cases=['delta'], trusted=[], assumptions=[], search_s=60)
CASES['delta'] = dict(src='delta.c', max_len=600, leaks=1, omit=['drpm_write.c', 'drpm_read.c', 'drpm_deltarpm.c'])
SECT = ['HEAD', 'ADJ0', 'ADJ1', 'MID', 'INT0', 'INT1', 'EXT0', 'EXT1', 'LENS', 'DATA', 'END']
def sects(n): return SECT if n == 'std3' else ['HEAD', 'MID', 'INT0', 'INT1', 'EXT0', 'EXT1', 'LENS', 'DATA', 'END']
# on every change: version 3 completely, of the others the parts that differ; all of it in the thorough tier
QUICK = {'std1': ('HEAD', 'LENS', 'END'), 'std2': (), 'rpmonly': ('LENS', 'END'), 'rpmonly3': ('LENS', 'END'), 'rpmonly1': ('END',), 'rpmonly2': ('END',)}
def quick(n, x): return n == 'std3' or x in QUICK[n]
for n, ver, ro in (('std1', 1, 0), ('std2', 2, 0), ('std3', 3, 0), ('rpmonly', 3, 1)):
    ob('write_deltarpm.file.%s' % n, 'C05', 'write.c', 'h_file', defs=['-DVP_PHASE2', '-DVER=%d' % ver, '-DRPMONLY=%d' % ro], loops=1, fn='write_deltarpm,write_be32', solvers=['cadical', 'cvc5'], timeout=400)
    for x in sects(n):
        ob('write_deltarpm.stream.%s.%s' % (n, x.lower()), 'C05', 'write.c', 'h_stream', defs=['-DVP_PHASE1', '-DVER=%d' % ver, '-DRPMONLY=%d' % ro, '-DASPTRS=0', '-DSECT=S_' + x], loops=1, fn='write_deltarpm', solvers=['cadical'], timeout=400, thorough=not quick(n, x))
ob('write_deltarpm.stream.pieces', 'C05', 'write.c', 'h_stream', defs=['-DVP_PHASE1', '-DVER=3', '-DRPMONLY=0', '-DASPTRS=1', '-DSECT=S_DATA', '-Dunion=struct'], loops=1, fn='write_deltarpm', solvers=['cadical'], timeout=400)
PROPS['C06'] = dict(cases=['delta'], trusted=[], assumptions=[], search_s=60)
for n, ver, ro in (('std1', 1, 0), ('std2', 2, 0), ('std3', 3, 0), ('rpmonly1', 1, 1), ('rpmonly2', 2, 1), ('rpmonly3', 3, 1)):
    for x in (sects(n) if ro == 0 or ver == 3 else ['END']):
        ob('readdelta_rest.%s.%s' % (n, x.lower()), 'C05,C06' if x == 'END' else 'C05', 'read.c', 'h_rest', defs=['-DH_REST', '-DVER=%d' % ver, '-DRPMONLY=%d' % ro, '-DSECT=S_' + x, '-Dunion=struct'], loops=1, fn='readdelta_rest', solvers=['cadical'], timeout=400, unwindset=['decompstrm_read.0:17'], thorough=not quick(n, x))
ob('read_deltarpm', 'C05,C06', 'read.c', 'h_top', defs=['-DH_TOP', '-DVER=3', '-DRPMONLY=0'], replace=['readdelta_rest', 'readdelta_rpmonly', 'readdelta_standard'], fn='read_deltarpm')
ob('readdelta_rpmonly', 'C05,C06', 'read.c', 'h_rpmonly', defs=['-DH_RPMONLY', '-DVER=3', '-DRPMONLY=1', '-Dunion=struct'], fn='readdelta_rpmonly,read_be32', solvers=['cadical', 'cvc5'])
ob('readdelta_standard', 'C05,C06', 'read.c', 'h_std', defs=['-DH_STD', '-DVER=3', '-DRPMONLY=0'], fn='readdelta_standard')
ob('read_be', 'C05', 'read.c', 'h_be', defs=['-DH_BE', '-DVER=3', '-DRPMONLY=0'], fn='read_be32,read_be64')
ob('free_deltarpm', 'C06', 'free.c', 'h_free', fn='free_deltarpm', checks=['--memory-leak-check'])
