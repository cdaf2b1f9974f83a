"""
The properties: the one source of properties.jsonl, MANIFEST.json (gen_meta.py)
and of the explanations in the evidence.
"""
PROPS = []

BASE_ASSUME = [
    'bounds: see coverage.jobs[] (macros, unwindset); every loop bound is checked with unwinding assertions',
    'C library functions are the definitions in lib/cbmc_libc.c (C locale, LP64, signed char); system calls are the models in lib/ (see DESIGN.md)',
    'allocation succeeds unless the property is about allocation failure',
]


def P(id, title, statement, over, qtext, why, files, mech, explain, note, assume=(), observe=(), hook=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                      explain=explain, note=note, assume=list(assume), observe=list(observe), hook=hook))


# ------------------------------------------------------------------ files
P('P01', 'Renaming never overwrites another file',
  'Whatever the file system looks like, detox never renames a file on to an existing different file: if the new name is taken '
  '(different device or inode, or the same inode reached through another hard link) the rename is refused and reported. '
  'The only change detox ever makes to the file system is renaming.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every path, every new name the sequence gives it, every state of the old and the new path (absent, file, directory, link, '
  'device; same or other device/inode; link count), all options, any rename failing',
  'The tests create one collision by hand; they cannot reach combinations of device, inode and link count, or of prefix and new name.',
  ['src/file.c'],
  [('lstat() of old and new name before rename()', 'src/file.c parse_file()')],
  'The real file-renaming code, the real sequence runner and a real table filter are executed symbolically on a symbolic path over a '
  'file-system model that answers lstat() with arbitrary but consistent device/inode/link count/type. At every rename() the solver must '
  'show that the target is absent or is the very same single-link file.',
  'Bounded: paths up to 5 bytes (thorough 6), one table filter giving any new name. rename(2)/lstat(2) are a model; a file created by '
  'somebody else between the check and the rename is outside of the claim.',
  ['no other process changes the file system between the check and the rename',
   'lstat() of the new name fails with ENOENT only (an unreadable target counts as absent in the code)'],
  ['every rename() the program issues'])

P('P02', 'A rename keeps the directory and uses exactly the cleaned last component',
  'Only the last component of a path is ever changed: the renamed file stays in the directory it was in, and its new last component is '
  'exactly what the chosen sequence produces for the old one. A name that would contain a path separator is refused, an unchanged name is '
  'not renamed, and a changed name whose target is free (or is another spelling of the same file) is renamed, once.',
  ['inputs', 'configurations'],
  'every path (prefix and name, with any bytes), every new name, every state of old and new path',
  'Tests use a few prefixes and names; whether the directory part survives depends on the bytes of the path and the length of the new name.',
  ['src/file.c'],
  [('strrchr(), copy of the directory part', 'src/file.c parse_file()'), ('separator check', 'src/file.c parse_file()')],
  'As P01; at rename() the directory part must be byte-identical and the last component equal to a reference evaluation of the sequence.',
  'Bounded: paths up to 5 bytes, new names up to 10 bytes, plus long paths with a few free bytes. "." and ".." are never renamed.')

P('P03', 'A dry run changes nothing and reports what would be renamed',
  'With the dry-run option no rename or any other change is made to the file system, for any path, option combination and state of the file system. '
  'Every rename (and, in a dry run, every rename that would be made) is reported as "old -> new" with the complete old and new path if '
  'the run is verbose or dry, and nothing is printed otherwise.',
  ['inputs', 'configurations'],
  'every path, new name, state of the file system and combination of the dry-run, verbose, recurse and special options',
  'The tests compare one dry run; they cannot show that no combination of options and file types reaches a rename.',
  ['src/file.c'], [('dry_run test before rename()', 'src/file.c parse_file()')],
  'As P01, with the dry-run and verbose options symbolic, output captured by a stream model and compared with "old -> new".',
  'Bounded like P01.')

P('P04', 'A failed rename leaves the old name in use and is reported',
  'When looking at the file or renaming it fails, the file keeps its old name, the program goes on with that old name, and nothing else is changed; '
  'when the rename succeeds, the program goes on with the new name. A rename that fails is reported and not tried again.',
  ['inputs', 'fault_sequences'],
  'every path and new name; lstat() and rename() each failing or not, at every call',
  'No test makes rename() fail or observes which name is used afterwards.',
  ['src/file.c'], [('error paths', 'src/file.c parse_file()')],
  'As P01, with the failure of each lstat() and rename() a free symbolic choice; the returned current name is compared with what the model did.',
  'Bounded like P01. Failures are those of lstat() and rename().')

P('P05', 'Hidden and ignored entries are never touched during recursion',
  'While working on the contents of a directory, an entry whose name starts with "." or is on the ignore list is neither renamed nor descended into, '
  'at any depth, whatever the options, the state of the ignore list and the order of the entries.',
  ['inputs', 'histories', 'configurations'],
  'every listing (names, types, order), every ignore list, every position an earlier lookup left the list in, all options, any depth within the bound',
  'Tests list one directory with one ignored entry; they cannot vary order, position in the list, depth or file type.',
  ['src/file.c', 'src/filelist.c'], [('ignore_file()', 'src/file.c'), ('filelist_reset()/filelist_get()', 'src/filelist.c')],
  'The real directory walk runs on a symbolic listing (two entries, free names and types), a symbolic ignore list left at any position, symbolic options '
  'and faults; and on a chain of directories three deep with hidden/ignored names at different depths.',
  'Bounded: two entries per directory with names up to 2 bytes; three levels deep with fixed names; two ignore entries.',
  ['readdir(), lstat(), opendir(), rename() are models'])

P('P06', 'Recursion reaches exactly what it should, once',
  'Every entry of a directory that is not hidden or ignored is cleaned exactly once if it is a regular file or a directory, or anything else when special files '
  'are asked for; nothing else is. Directories are descended into (under their current name, even right after being renamed) exactly when recursion is asked '
  'for, symbolic links never, and every opened directory is closed.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every listing and file type, all options, any rename or opendir() failing, depth within the bound',
  'Tests have one tree of regular files and directories; types such as links, sockets, devices and failing renames are not tried.',
  ['src/file.c', 'src/detox.c'], [('readdir() loop', 'src/file.c parse_dir()')],
  'As P05; counters per entry are compared with the specification at the end of the walk.',
  'Bounded like P05; collisions between entries are left to P01.',
  ['readdir(), lstat(), opendir(), rename() are models'])

P('P07', 'Each path on the command line is handled independently and in order',
  'Every path given on the command line is looked at exactly once, in order: a directory is renamed and then its contents are worked on under its '
  'current name, a regular file is renamed, anything else only when special files are asked for, and a path that does not exist is reported without affecting the others. '
  'In inline mode no path is ever renamed: each file is filtered to the output, directories are refused, and without any path standard input is filtered. '
  'No work at all is done if the options, the configuration or the sequence cannot be had (exit status failure) or when only the list of sequences is asked for.',
  ['inputs', 'configurations', 'fault_sequences'],
  'every number of paths up to the bound, every type each of them may have, failures of lstat(), all combinations of the inline, special, list and verbose options, every way the setup can fail',
  'Tests run one path of one type at a time.',
  ['src/detox.c'], [('main loop', 'src/detox.c main()')],
  'The real main() runs with its callees (option parsing, configuration, cleaning) replaced by recording stubs with symbolic results; the sequence of calls is compared with the specification.',
  'Bounded: up to 3 paths. The callees are decided by the other properties.')

# ------------------------------------------------------------------ filters
P('P10', 'The shipped safe table replaces exactly the documented characters',
  'With the built-in safe table, the safe filter turns every control character, space and shell metacharacter into "_" , every bracket into "-", "&" into "_and_", '
  'and passes every other byte (letters, digits, "-", "_", ".", "+", "=", ",", "#", "%", "^", "~" and all bytes of non-ASCII characters) through unchanged and in order.',
  ['inputs'], 'every name up to the bound, all byte values',
  'The unit test has a handful of names; the property speaks about all 255 bytes at every position.',
  ['src/clean_string.c', 'src/builtin_table.c', 'table/safe.tbl'], [('clean_safe()', 'src/clean_string.c'), ('built-in safe table', 'src/builtin_table.c')],
  'The real filter and the real built-in table on a symbolic name, against a specification written from safe.tbl. Lookups in the built-in table go through a '
  'summary generated from the current tables; separate jobs prove, for every possible key, that the real loader and lookup equal the summary.',
  'Bounded: any name of 3 bytes, names without "&" of 8 bytes; long names with a few free bytes. The table lookup is decided for all keys.')

P('P11', 'The safe filter applies any custom table byte by byte',
  'For any translation table, the safe filter replaces each byte that has an entry by its translation, replaces bytes without an entry by the table\'s default '
  'if there is one, and otherwise leaves them alone; the output is the concatenation in order.',
  ['inputs', 'configurations'], 'every name and every table of the bounded shape, with and without default, empty translations included',
  'Tests only use the shipped tables.',
  ['src/clean_string.c', 'src/table.c'], [('clean_safe()', 'src/clean_string.c')],
  'The real filter, real table lookup and a table whose keys, translations and default are symbolic, against a reference.',
  'Bounded: names up to 5 bytes, 2 rows, translations up to 2 bytes.')

P('P12', 'Wipeup collapses separator runs and strips leading separators',
  'The wipeup filter removes every leading "-", "_" and "#", replaces each later run of "-" and "_" by a single "-" if it holds one and "_" otherwise, and with '
  '"remove trailing" treats "." as part of such runs, with precedence over both. All other bytes are kept, in order.',
  ['inputs'], 'every name up to the bound, with and without "remove trailing"',
  'Tests have a dozen names; runs of mixed separators at all positions cannot be enumerated by hand.',
  ['src/clean_string.c'], [('clean_wipeup()', 'src/clean_string.c')],
  'The real filter on a symbolic name against a specification (independent formulation over runs).',
  'Bounded: names up to 8 bytes (thorough 11), plus longer names with a few free bytes.')

P('P13', 'CGI decoding turns exactly the valid escapes into bytes',
  'The uncgi filter replaces "%" followed by two hexadecimal digits (either case) by that byte, "+" by a space, and leaves everything else alone, including incomplete escapes. '
  '"%00" is left alone, so a name is never cut short.',
  ['inputs'], 'every name up to the bound',
  'Tests have a few escapes; all 256 values, malformed and adjacent escapes are not covered.',
  ['src/clean_string.c'], [('clean_uncgi()', 'src/clean_string.c')],
  'The real filter on a symbolic name against a reference decoder.', 'Bounded: names up to 8 bytes (thorough 11), plus longer names with a few free bytes.')

P('P14', 'UTF-8 decoding and translation are exact for every byte string',
  'For any byte string and any table, the utf_8 filter decodes each well-formed sequence of 1 to 6 bytes to its code point and replaces it by its translation, or by the '
  'table\'s default; without either it is left alone. Overlong encodings of NUL become "_hidden_null_", code points above 0x10FFFF, stray continuation bytes and truncated sequences '
  'become "_", and decoding resumes at the first byte that is not part of the bad sequence.',
  ['inputs', 'configurations'], 'every byte string up to the bound and every table of the bounded shape',
  'Tests decode a list of valid characters; malformed input is practically absent.',
  ['src/clean_utf_8.c'], [('clean_utf_8()', 'src/clean_utf_8.c')],
  'The real decoder and real table lookup on symbolic bytes and a symbolic table against a reference decoder.',
  'Bounded: strings up to 4 bytes, single characters of up to 6 bytes with one neighbour, 2 rows, translations up to 2 bytes.')

P('P15', 'The iso8859_1 filter translates high bytes and never touches ASCII',
  'For any table, the iso8859_1 filter copies every byte below 0x80 unchanged, and replaces each byte from 0x80 up by its translation, or by the table\'s default, or leaves '
  'it alone if there is neither.',
  ['inputs', 'configurations'], 'every name and table of the bounded shape',
  'Tests only use the shipped tables on whole words.',
  ['src/clean_string.c'], [('clean_iso8859_1()', 'src/clean_string.c')],
  'The real filter and real table lookup on a symbolic name and table against a reference.', 'Bounded: names up to 5 bytes, 2 rows, translations up to 2 bytes.')

P('P16', 'max_length keeps short names, truncates long ones and keeps the extension',
  'A name no longer than the limit (256 when none is given) is unchanged. A longer name is cut so that the result has exactly the limit\'s length and still ends with the whole '
  'extension (including a second extension that starts at most five characters before the last one); if there is no extension it is simply cut, and if the extension alone does not fit '
  'the name is left alone.',
  ['inputs', 'configurations'], 'every name up to the bound and every limit',
  'Tests have a few names and limits; off-by-one errors depend on the relation of limit, extension and length.',
  ['src/clean_string.c'], [('clean_max_length()', 'src/clean_string.c')],
  'The real filter on a symbolic name and a symbolic 64-bit limit against a specification; the default limit of 256 is decided on names around that length.',
  'Bounded: names up to 10 bytes (thorough 12); names of 255 to 258 bytes with free positions of the last dots for the default limit.')

P('P17', 'lower changes exactly the ASCII upper-case letters',
  'The lower filter maps A-Z to a-z and leaves every other byte, including all bytes of non-ASCII characters, unchanged; the length stays the same.',
  ['inputs'], 'every name up to the bound, all byte values',
  'Tests have a few words.', ['src/clean_string.c'], [('clean_lower()', 'src/clean_string.c')],
  'The real filter on a symbolic name against a per-byte specification.', 'Bounded: names up to 10 bytes. C or UTF-8 locale (no byte above 0x7f is a letter).')

P('P18', 'No filter reads or writes outside of its buffers, for any name and table',
  'For any name and any translation table (with any default), every filter stays within the memory it was given or allocated, returns a terminated new string, does not modify '
  'its input, and frees nothing it does not own.',
  ['inputs', 'configurations'], 'every name and table of the bounded shape',
  'Tests run with small replacements; overflow depends on the ratio of replacement to name length, which only special tables reach.',
  ['src/clean_string.c', 'src/clean_utf_8.c', 'src/table.c'], [('table_max_output()', 'src/table.c'), ('allocation sizes', 'src/clean_string.c, src/clean_utf_8.c')],
  'The real filters with CBMC\'s pointer and bounds checks on; allocated blocks end exactly where they were asked to end.',
  'Bounded: names of 3 (table filters) or 5 bytes; 1 row with translations up to 2 bytes and a default. Out-of-bounds accesses are decided by the solver, confirmed by AddressSanitizer.')

P('P19', 'Cleaning is idempotent',
  'For the built-in sequences default, lower and utf_8, cleaning a name that has already been cleaned by the same sequence changes nothing, for every name.',
  ['inputs'], 'every name up to the bound',
  'Idempotence relates two runs; no test runs a sequence twice, and counterexamples need separators to meet after a replacement.',
  ['src/sequence.c', 'src/clean_string.c', 'src/clean_utf_8.c', 'src/config_file_spoof.c', 'src/builtin_table.c'],
  [('order of the filters in the built-in sequences', 'src/config_file_spoof.c')],
  'The real built-in configuration, sequence runner and filters, run twice on a symbolic name.',
  'Bounded: names up to 4 bytes (no "&" and no overlong NUL in the longest jobs; shorter jobs include them), longer names with a few free bytes. Table lookups through the proven summary of P25. uncgi and iso8859_1 are not idempotent by design and not claimed.')

P('P20', 'A sequence runs its filters in order, each on the previous result',
  'A sequence applies its filters in the order given, each exactly once with its own parameters and table and on the output of the previous one, and returns the last output; the '
  'name passed in is left alone.',
  ['inputs', 'configurations'], 'every list of up to 4 filters of any kind and parameters, every intermediate result',
  'Tests run the shipped sequences only.', ['src/sequence.c', 'src/filter.c'], [('sequence_run_filters()', 'src/sequence.c'), ('filter_run()', 'src/filter.c')],
  'The real sequence runner and dispatcher with the filters as stubs returning arbitrary strings.', 'Bounded: up to 4 filters, intermediate results up to 2 bytes.')

P('P21', 'The built-in sequences produce names that are safe for a shell',
  'Whatever the name, what the built-in sequences default, lower, uncgi, utf_8, iso8859_1 and iso8859_1-legacy produce holds no control character, blank, slash or shell metacharacter, does not start '
  'with "-", "_" or "#", and has no two neighbouring separators out of "-", "_" and "."; lower also leaves no upper-case letter.',
  ['inputs', 'configurations'], 'every name up to the bound, each of these sequences',
  'Tests compare a few outputs; the property is about all byte strings and the interplay of the filters.',
  ['src/config_file_spoof.c', 'src/sequence.c', 'src/clean_string.c', 'src/clean_utf_8.c', 'src/builtin_table.c'],
  [('built-in sequences', 'src/config_file_spoof.c'), ('built-in tables', 'src/builtin_table.c')],
  'The real built-in configuration, sequence runner and filters on a symbolic name; table lookups through the proven summary of P25.',
  'Bounded: names up to 4 bytes.')

# ------------------------------------------------------------------ tables
P('P22', 'A translation table returns what was last stored',
  'For any history of stores, looking up a key returns the translation stored last for it and nothing for keys never stored; key 0 is never stored or found. A store fails only '
  'when the table is full and the key is new, in which case the table is unchanged; the counts of used rows and of the longest translation are right.',
  ['histories', 'inputs'], 'every history of stores up to the bound with any keys and data, tables of 1 to 4 rows (collisions included), hashed or not',
  'Tests store a few distinct keys; collisions, overwrites after collisions and full tables are not reached.',
  ['src/table.c'], [('table_put()/table_get()', 'src/table.c')],
  'The real table code on symbolic keys and data against a history list.', 'Bounded: up to 5 stores in tables of up to 4 rows; no deletion exists.')

P('P23', 'Resizing a table keeps every entry',
  'Copying a table to a table of another size and kind (hashed or not) keeps all entries and the default translation as long as they fit; the original is not changed.',
  ['histories', 'inputs'], 'every history of stores up to the bound, old and new sizes within the bound, hashed or not',
  'One resize test with fixed keys.', ['src/table.c'], [('table_resize()', 'src/table.c')],
  'The real table code on symbolic keys and data; every key looked up in the copy and the original.', 'Bounded: up to 3 stores, sizes up to 5.')

P('P24', 'A table file means what detox.tbl(5) says',
  'Reading a translation table gives exactly the rows inside its start/end blocks (values in decimal, octal or hexadecimal, translations bare or in either kind of quotes, comments and blank lines skipped), '
  'the rows of a language block only when the user\'s locale is of that language, and the default given by "default" (none when empty or absent). A table is either read completely or not at all, '
  'and there is room for every row its file can hold.',
  ['inputs', 'configurations', 'fault_sequences'], 'every value, translation, comment, language and locale within the layouts of the jobs; missing or unreadable files; tables refusing a row; every file size up to 99999 rows',
  'Tests read the four shipped tables.', ['src/parse_table.c'], [('parse_table()', 'src/parse_table.c')],
  'The real parser over a stream model with symbolic characters in every value, translation, comment, quote and language; the layout is fixed per job so that the length of each field is a constant.',
  'Bounded: the layouts in harness/tabfile.c (lines of up to 20 bytes, up to 4 rows). sscanf/fgets are models.')

P('P25', 'The built-in tables equal the shipped table files',
  'For every key, the built-in safe, iso8859_1, unicode and cp1252 tables give exactly the translation (or absence of one) and the default that the shipped table files give.',
  ['inputs'], 'all 2^32 keys',
  'Tests look at some characters; a wrong or unreachable row among thousands goes unnoticed.',
  ['src/builtin_table.c', 'table/', 'src/filter.c', 'src/table.c'], [('generated tables', 'src/builtin_table.c'), ('table_get() on them', 'src/table.c')],
  'The real loader and lookup on a fully symbolic 32-bit key against a reference generated from table/*.tbl by an independent reader.',
  'Complete for keys (no bound on the input). The reader of the .tbl files is trusted; iso8859_1.tbl\'s \\u escapes are compared after decoding, as the generator does.')

# ------------------------------------------------------------------ inline
P('P27', 'Inline mode filters line by line and loses nothing',
  'Inline mode writes the lines of its input in order, each run through the chosen sequence exactly once, with every line end kept as it was; lines that are "." or ".." or that the sequence gives nothing for '
  'come out unchanged. It reads the file given or standard input, reports a file that cannot be opened, and closes what it opened.',
  ['inputs', 'fault_sequences'], 'every content of the lines in the layouts of the jobs',
  'Tests pipe a few lines.', ['src/file.c'], [('parse_inline()', 'src/file.c')],
  'The real inline code over a stream model with symbolic lines; the sequence is a recording stub.', 'Bounded: up to 3 lines of up to 3 bytes per layout, with and without a final newline.')

P('P28', 'Long inline lines are split between characters and within the buffer',
  'A line longer than the input buffer is passed on in pieces that together are exactly the line, in order; no piece ends inside a UTF-8 encoded character, and no byte outside of the buffer is read or written.',
  ['inputs'], 'every line up to the bound relative to the buffer size, all byte values, every alignment of characters to the buffer\'s end',
  'No test has a line longer than the buffer.', ['src/file.c', 'src/file.h'], [('look for the start of a character, top up', 'src/file.c parse_inline()')],
  'The real inline code with the buffer shrunk by a guarded define, on a symbolic input longer than the buffer; pointer checks on.',
  'Bounded: inputs up to 9 bytes with a buffer of 3 or 6 bytes and its padding.', hook='VF_INLINE_BUF_SIZE')

# ------------------------------------------------------------------ configuration
P('P29', 'The sequence used is the one asked for, else default, else the first',
  'If a sequence is asked for by name, exactly that one is used, and none if it does not exist; otherwise the sequence called "default" is used, or the first one if there is none.',
  ['inputs', 'configurations'], 'every list of up to 4 sequences with any names, any name asked for or none',
  'Tests use the shipped configuration.', ['src/sequence.c'], [('sequence_choose_default()', 'src/sequence.c')],
  'The real selection on a symbolic list of symbolic names.', 'Bounded: 4 sequences; names up to 2 bytes or near "default".')

P('P30', 'Configuration files are searched and merged in the documented order',
  'With an explicit configuration file only that file is read, and failing to read it is a reported failure; otherwise the first system-wide file found is read and the user\'s files from the home and XDG directories '
  'extend it in that order. The built-in configuration is used only when nothing else was found; directories whose name is too long are skipped.',
  ['configurations', 'fault_sequences'], 'every subset of existing files; home and XDG directories unset, any short value, or too long',
  'Tests never have a system-wide and a user configuration together.', ['src/config_file.c'], [('config_file_load()', 'src/config_file.c')],
  'The real loader with the parser as a recording stub and a symbolic environment.', 'Bounded: directory names up to 3 bytes, or 270.')

P('P31', 'A configuration file yields exactly the sequences and ignore list it describes',
  'Each sequence block yields a sequence of its name holding exactly its filters, in order, with their built-in table, file, limit or flag; a later block of the same name replaces the filters of the earlier one, also across files, '
  'without disturbing the order or the other sequences. Names in ignore blocks are added to the ignore list; anything that does not follow the grammar is a reported failure.',
  ['configurations', 'inputs'], 'every form of every filter, every name and value, repeated names, one or two files',
  'Tests parse the shipped file and a few variants.', ['src/config_file_yacc.y', 'src/config_file_yacc.c', 'src/filter.c', 'src/sequence.c'], [('grammar actions', 'src/config_file_yacc.y')],
  'The real generated parser and its actions on token skeletons whose strings and numbers are symbolic; the scanner is a stub here (P39 decides it).', 'Bounded: skeletons of up to 2 files with up to 3 sequences; names up to 2 bytes.')

P('P32', 'Each filter gets the table its configuration names',
  'A filter that asks for a built-in table gets that one, a filter that names a file gets that file\'s, and otherwise the documented directories are searched in order with the built-in table as the last resort; a table that was asked for '
  'and cannot be had is a reported failure. Filters that need no table get none, and every filter of the chosen sequence is served.',
  ['configurations', 'fault_sequences'], 'every filter kind and combination of built-in name and file, every subset of table files existing',
  'Tests only use built-in tables.', ['src/filter.c', 'src/sequence.c'], [('filter_load_table(), filter_find_table()', 'src/filter.c'), ('sequence_review()', 'src/sequence.c')],
  'The real code with the parser and the built-in tables as stubs.', 'Bounded: names up to 4 bytes or the built-in ones; two filters.')

P('P33', 'Command-line options mean what detox(1) says',
  'For every command line, each documented option, short, bundled or long, has its documented effect and no other, the operands become the list of paths in order, and the program is in inline mode exactly when asked for or '
  'when called inline-detox. The last -f and -s win, DETOX_SEQUENCE is the default for -s, help and version exit successfully, no operand is an error unless in inline mode or listing, and an option that does not exist shows the usage and does nothing else.',
  ['inputs', 'configurations'], 'every command line of the bounded length',
  'Tests use a handful of command lines.', ['src/parse_options.c'], [('parse_options_getopt()', 'src/parse_options.c')],
  'The real option parser over a model of getopt_long() written from its manual page, on symbolic arguments, against an independent reading of the command line.', 'Bounded: up to 3 arguments drawn from all options, abbreviations and operands with free bytes.')

P('P34', 'A list of names keeps every name in order',
  'Names put on a list come back in the order they were put there, each once per walk, however many there are; a walk can be restarted at any time, names are copied, and the count is right.',
  ['histories', 'inputs'], 'any number of names up to the bound (past the first growth), any names, a restart at any position',
  'The unit test adds a few names.', ['src/filelist.c'], [('filelist_put()/filelist_get()', 'src/filelist.c')],
  'The real list on symbolic names.', 'Bounded: 3, 16, 17 (thorough 33, 49) names of one byte.')

P('P35', 'Running out of memory ends the run before any rename',
  'If any allocation fails while a path is cleaned, a configuration or a table is built, or a list grows, the program reports it and exits with failure status; it never goes on with a missing or partial result, and never renames a file after the failure.',
  ['fault_sequences', 'inputs'], 'every single allocation of the run failing, every path and new name',
  'The tests make all allocations fail, in the wrapper alone.', ['src/wrapped.c', 'src/file.c', 'src/clean_string.c', 'src/clean_utf_8.c', 'src/table.c', 'src/filelist.c', 'src/sequence.c', 'src/filter.c'],
  [('wrapped_malloc()/wrapped_strdup()', 'src/wrapped.c')],
  'The real code with the number of the failing allocation a symbolic variable, pointer checks on.', 'Bounded like the other properties of the same code; one failure per run. The lexer\'s own strdup is outside of the claim.')

P('P39', 'The words of a configuration file are what detoxrc(5) says they are',
  'A configuration file is read as words: the keywords, in upper or lower case and only when they stand as a whole word; names of letters, digits and underscores; numbers; quoted strings, taken literally up to the closing quote; braces and semicolons. '
  'Blanks, line ends and comments from # to the end of the line mean nothing. Words come in order with their exact text or value, and the line count follows the file.',
  ['inputs', 'configurations'], 'every text of the bounded length in every context of the grammar of words',
  'Tests read a handful of configuration files.', ['src/config_file_lex.l', 'src/config_file_lex.c'], [('yylex()', 'src/config_file_lex.l')],
  'The real scanner, with its real tables, on concrete beginnings followed by free bytes, against an independent reading of the text.',
  'Bounded: 2 or 3 free bytes anywhere, 5 (thorough 8) in a string, around every keyword, every keyword in every mix of cases. The text is in the scanner\'s buffer from the start except in one job, where the generated code reads it through a file, which ends without a newline; '
  'bytes that belong to no word and names without a closing quote are outside (the scanner prints them or a message).')
