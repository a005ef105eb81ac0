"""Source of properties.jsonl: python3 bin/properties.py rewrites it."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over.split(), text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=['src/' + f for f in files.split()],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


p('C01', 'The diff describes the new archive exactly',
  '''For any old and new byte strings, the copy instructions produced by the diff rebuild exactly the new string from
     the old string, the literal data and (when one was requested) the add block: concatenating the copies in order gives
     every byte of the new string once, in order, with no gap and no overlap. Every external copy stays inside the old
     string, every literal copy inside the literal data, and the reported lengths and counts match the instruction lists.''',
  'inputs', 'all old/new byte strings (lengths up to 2^31), with and without an add block, every match the search may report',
  'The suite diffs three small RPM pairs; a wrong offset that depends on match extents, on a back-extension or on a copy longer than a block shows up only for other contents.',
  'drpm_diff.c', [('make_diff: scan/extend/overlap loop', 'src/drpm_diff.c'), ('create_diff_copies, create_int_data_array', 'src/drpm_diff.c')])

p('C02', 'Applying a delta performs exactly its copy instructions',
  '''Applying a delta writes the target's lead and signature, (for a standard delta) the target header, and then exactly
     the byte stream its instructions describe: for each internal copy first the stated number of external copies, each
     starting at the running external offset plus its signed adjustment and each byte increased by the corresponding add-block byte
     when there is an add block, then the stated number of literal bytes. Instructions that ask for more external copies
     than the delta has are refused, and nothing is read outside the literal data or the instruction lists.''',
  'inputs', 'every delta the reader accepts, every external data source, every split of external copies into blocks',
  'Tests apply a handful of well-formed deltas; long copies over block borders, backward adjustments and malformed counts are not among them.',
  'drpm.c', [('drpm_apply: copy loop', 'src/drpm.c')])

p('C03', 'The file-order sequence encodes and decodes without loss',
  '''The file-order sequence stored in a delta, expanded against the same file list, gives back exactly the archive order
     of files that was encoded, whatever the order is and however long its runs and jumps are.''',
  'inputs', 'all file counts and all orders of archive entries (any run length and any jump distance representable)',
  'The test RPMs contain a few files in almost sorted order, so multi-nibble numbers, backward jumps and odd nibble counts are not exercised.',
  'drpm_make.c drpm_apply.c', [('seq_append/seq_add/seq_final', 'src/drpm_make.c'), ('expand_sequence', 'src/drpm_apply.c')])

p('C04', 'Expanding a sequence is safe and accepts only the sequence it was made from',
  '''Expanding any sequence of bytes against any file list stays inside its buffers, never counts past the file list, and
     succeeds only if the MD5 sum computed over the selected files' names, sizes, modes and digests or link targets equals
     the one stored in the sequence. In the checking modes it succeeds only if every selected regular file was checked.''',
  'inputs', 'all sequences (valid or malicious), all file lists, all three checking modes',
  'Tests only expand sequences drpm itself produced; malformed nibble strings are never fed in.',
  'drpm_apply.c', [('expand_sequence', 'src/drpm_apply.c')])

p('C05', 'A delta reads back as it was written',
  '''A delta file has the documented layout: every length field equals the length of the data that follows it and the
     fields appear in the documented order for versions 1 to 3 of both delta types, numbers big-endian and signed
     adjustments as sign and magnitude. Reading a written delta gives back every field with the value that was written.''',
  'inputs', 'all field values, array and data lengths; versions 1 to 3; standard and rpm-only',
  'Tests make and read three or four deltas; field widths, sign encodings and version differences at extreme values are not reached.',
  'drpm_read.c drpm_write.c', [('write_deltarpm', 'src/drpm_write.c'), ('readdelta_rest and callers', 'src/drpm_read.c')])

p('C06', 'The delta reader survives and refuses malformed files',
  '''Reading any file either yields a delta whose internal copies stay inside the literal data, whose external copies stay
     inside the external data, whose version is 1 to 3 and whose sequence, lead and signature have at least their minimal
     sizes, or fails with an error. In neither case does it access memory outside its buffers, and after a failure the
     caller's delta holds nothing.''',
  'inputs fault_sequences', 'all file contents after decompression; every read, decompression or allocation may fail at any point',
  'The test suite reads only well-formed deltas.',
  'drpm_read.c drpm.c', [('read_deltarpm, readdelta_rest', 'src/drpm_read.c')])

p('C07', 'Number and hexadecimal codecs are exact inverses',
  '''Big-endian encoding and decoding of 16, 32 and 64-bit numbers and hexadecimal dumping and parsing are exact:
     decoding an encoded value returns the value and dumped bytes parse back to the same bytes. The hexadecimal parsers
     (bytes, numbers, MD5 and SHA-256 digests) accept exactly the strings of hexadecimal digits of the required length
     and never touch memory outside their operands.''',
  'inputs', 'all values, all byte strings and all character strings',
  'Tests sample a few values; a wrong shift or an off-by-one shows up only for particular bytes or lengths.',
  'drpm_utils.c', [('parse_be*/create_be*, parse_hex, parse_hexnum, dump_hex, parse_md5, parse_sha256', 'src/drpm_utils.c')])

p('C08', 'On-disk compression identifiers map to the right method and level',
  '''Every compression identifier the delta format defines decodes to its compression method and level, all others are
     refused, and encoding a method and level gives the identifier that decodes back to the same pair. Methods the format
     (or the build) has no identifier for are refused when encoding.''',
  'inputs configurations', 'all 2^32 identifiers, all methods, all levels up to 255; builds with and without zstd',
  'Tests see at most the two or three identifiers of the sample RPMs.',
  'drpm_deltarpm.c', [('deltarpm_decode_comp, deltarpm_encode_comp', 'src/drpm_deltarpm.c')])

p('C09', 'Delta-making options hold exactly what the caller set',
  '''Each option setter changes exactly the settings it documents when its arguments are documented values, and otherwise
     changes nothing and reports bad arguments; initialised or reset options hold the documented defaults. File names are
     kept as private copies, copying yields an equal and independent object, and a failed allocation leaves the options as
     they were.''',
  'inputs histories fault_sequences configurations', 'all option states, all argument values, all sequences of calls, any failing allocation; builds with and without zstd',
  'Tests call each setter once or twice with ordinary values and never fail an allocation.',
  'drpm_options.c', [('drpm_make_options_*', 'src/drpm_options.c')])

p('C10', 'Information getters report exactly what the delta holds',
  '''For every information tag the getter of the matching kind returns exactly the value the delta holds (numbers
     unchanged, binary data as lower-case hexadecimal, arrays element by element) as a copy the caller owns; a getter given
     a tag of another kind refuses it. Asking never changes the information object.''',
  'inputs', 'all deltas (all field values, array and string lengths), all tag numbers, all getters',
  'Tests print the tags of a few deltas and compare nothing for extreme or absent fields.',
  'drpm.c drpm_read.c', [('drpm_get_*', 'src/drpm.c'), ('deltarpm_to_drpm', 'src/drpm_read.c')])

p('C11', 'Apply and check succeed only for the right old package and an intact result',
  '''Applying a delta reports success only if the old package's name, epoch, version and release (and, for an rpm-only
     delta, its signature MD5) match the delta's source and the MD5 sum of what was written equals the target sum in the
     delta (or, if the delta stores none, the one in the new signature when it has one). Checking a delta or a sequence
     reports success only if the installed or given package matches and the file sequence expands successfully in the
     requested mode.''',
  'inputs fault_sequences', 'all deltas, packages and file-system states; every step may fail',
  'Tests apply matching packages; mismatches of each kind and failures of single steps are not tried.',
  'drpm.c', [('drpm_apply, drpm_check, drpm_check_sequence', 'src/drpm.c')])

p('C12', 'External data reaches the copies unchanged, whatever the caching',
  '''While a delta is applied, every piece of external data handed to a copy instruction consists of exactly the bytes at
     the requested offset of the old package's archive, no matter how many copies revisit the same region, in which order,
     or how often cached blocks are dropped to the page file and brought back.''',
  'inputs histories', 'all sequences of external copies, all block sequences and cache states',
  'The sample packages fit in a few blocks, so eviction and reloading never happen in the tests.',
  'drpm_block.c', [('blocks_next, get_block, write_page_block', 'src/drpm_block.c')])

p('C13', 'Compression streams deliver the exact bytes and fail cleanly',
  '''Reading n bytes from a decompression stream returns exactly the next n bytes of the decompressed data or an error,
     however the compressed input is split into chunks; writing to a compression stream passes on every byte in order.
     Truncated or corrupt input is reported as an error and never read past the end of the buffers.''',
  'inputs fault_sequences', 'all read/write sizes, all chunkings, all stream contents',
  'Tests decompress a few archives with fixed read sizes.',
  'drpm_decompstrm.c drpm_compstrm.c drpm_write.c', [('decompstrm_read, readchunk_*', 'src/drpm_decompstrm.c'), ('compstrm_write, compstrm_wrapper_write', 'src/drpm_compstrm.c')])

p('C14', 'Match search reports only true matches',
  '''Whatever match the search of the old data reports for a position of the new data is a real one: the stated number of
     bytes at the reported old position equal the bytes at the reported new position and both ranges lie inside their
     data. Searching never reads outside either string, whatever their lengths.''',
  'inputs', 'all old and new byte strings of any length including the very short ones, all scan positions',
  'Tests search inside a few archives of ordinary size.',
  'drpm_search.c', [('hash_search, sfxsrt_search', 'src/drpm_search.c')])

p('C15', 'CPIO headers are read and written exactly',
  '''Writing a CPIO header gives the magic followed by thirteen eight-digit hexadecimal fields holding the header's values,
     and reading it back returns the same values; reading refuses a wrong magic or a field that is not hexadecimal.
     Nothing outside the 110 header bytes is read or written.''',
  'inputs', 'all header field values, all 110-byte strings',
  'Tests see the headers of a few ordinary files.',
  'drpm_make.c', [('cpio_header_read, cpio_header_write', 'src/drpm_make.c')])

p('C17', 'Bad arguments are refused and every error number has a text',
  '''Every public function given a missing (NULL) required argument or an undocumented mode reports bad arguments, changes
     nothing and writes nothing. Every error number has a non-empty text, the documented ones each their own and all
     others a common one.''',
  'inputs', 'all combinations of missing arguments, all mode and error numbers',
  'Tests pass a handful of NULLs.',
  'drpm.c drpm_options.c', [('argument checks', 'src/drpm.c'), ('drpm_strerror', 'src/drpm.c')])

if __name__ == '__main__':
    with open(os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/properties.jsonl', 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
