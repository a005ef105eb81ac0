PROPS['C14'] = dict(cases=['diff'], trusted=[], assumptions=['old and new data up to 2^40 bytes'], search_s=60)
ob('match_len', 'C14', 'search.c', 'h_match_len', loops=1, enforce='match_len', fn='match_len', solvers=['cadical', 'cvc5'])
ob('buzhash', 'C14', 'search.c', 'h_buz', enforce='buzhash', fn='buzhash', unwindset=['buzhash.0:17'])
ob('hash_create', 'C14', 'search.c', 'h_create', defs=['-DH_CREATE'], loops=1, replace=['buzhash'], preunwind=['hash_create.0:28'], fn='hash_create,hash_free', solvers=['cadical', 'cvc5'])
ob('hash_search.safe', 'C14', 'search.c', 'h_search', defs=['-DVP_SAFE'], loops=1, replace=['match_len', 'buzhash'], fn='hash_search', checks=['--object-bits', '10'], timeout=500, solvers=['cadical'])
ob('hash_search.match', 'C14', 'search.c', 'h_search', loops=1, replace=['match_len', 'buzhash'], fn='hash_search', checks=['--object-bits', '10', '--no-standard-checks'], select=r'g_n >=|REACH', timeout=500, solvers=['sat', 'cvc5'])
