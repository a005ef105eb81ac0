PROPS['C01'] = dict(note='The contents of the add block (make_diff.addbytes) and the memory checks of that variant are proved in the thorough tier; in the quick tier they are covered by the bounded stand-in diff only.', cases=['diff'], trusted=['hash_search by its contract (C14)', 'compression streams as byte sinks (C13)'], assumptions=['old and new data up to 2^31 bytes (instruction lists: copies up to 2^32)'], search_s=60)
CASES['diff'] = dict(src='diff.c', max_len=200, leaks=0, omit=['drpm_search.c', 'drpm_diff.c'])
M = dict(loops=1, replace=['create_diff_copies', 'create_int_data_array'], fn='make_diff', timeout=600)
ob('make_diff.plain', 'C01', 'diff.c', 'h_diff', defs=['-DH_DIFF', '-DADDBLK=0'], solvers=['sat', 'cadical'], checks=['--object-bits', '10'], **M)
A = dict(defs=['-DH_DIFF', '-DADDBLK=1', '-DVP_PART=1'], **M)
NS = ['--object-bits', '10', '--no-standard-checks']
ob('make_diff.addblock.loops', 'C01', 'diff.c', 'h_diff', solvers=['sat', 'cadical'], checks=NS, select=r'invariant|variant|REACH', **A)
ob('make_diff.addblock.claims', 'C01', 'diff.c', 'h_diff', solvers=['cvc5', 'sat'], checks=NS, select=r'claim|follow|inside the old|REACH', each=3, **A)
ob('make_diff.addblock.calls', 'C01', 'diff.c', 'h_diff', solvers=['cadical', 'sat'], checks=NS, select=r'room|index|stream|stands in|failure|diff were made|written|asked|finished|released|hidden|REACH', **A)
ob('make_diff.addblock.safe', 'C01', 'diff.c', 'h_diff', solvers=['cadical'], thorough=True, checks=['--object-bits', '10'], **A)
ob('make_diff.addbytes', 'C01', 'diff.c', 'h_diff', defs=['-DH_DIFF', '-DADDBLK=1', '-DVP_PART=2'], solvers=['cvc5', 'sat'], checks=['--object-bits', '10', '--no-standard-checks'], select=r'invariant|add block|REACH', each=4, thorough=True, **M)
ob('create_diff_copies', 'C01', 'diff.c', 'h_copies', defs=['-DH_COPIES'], loops=1, fn='create_diff_copies', solvers=['sat', 'cadical'], timeout=500, checks=['--object-bits', '10'])
ob('create_int_data_array', 'C01', 'diff.c', 'h_data', defs=['-DH_DATA'], loops=1, fn='create_int_data_array', solvers=['cadical', 'cvc5'], timeout=500)
