TB = ('Every obligation is discharged for all inputs without bound on every '
      'run; what is assumed is listed in the evidence file. ')

prop('C01', 'In-place formatting replaces the file atomically and faithfully',
     'When formatting in place, at every moment and whatever fails, the file '
     'named on the command line holds either its original bytes or exactly '
     'the complete formatted bytes, never anything in between, and it keeps '
     'its mode (including set-id bits) and owner. A run that reports success '
     'has replaced the file by the formatted bytes, a run that fails has left '
     'it alone, and an already formatted file is not replaced at all. No '
     'temporary file is left behind in either case.',
     ['fault_sequences', 'crash_points', 'inputs'],
     'every source and result, every short write, every failing system call '
     'and every point at which the process may stop',
     'The tests only run -i with every system call succeeding and compare the '
     'final content; no test makes a write short or a call fail, nor looks at '
     'mode, owner or leftovers.',
     ['knfmt.c', 'libks/buffer.c', 'libks/tmp.c'],
     [('temporary written in full and renamed over the target', 'knfmt.c filewrite'),
      ('mode and owner carried over', 'knfmt.c fileattr'),
      ('nothing done for equal bytes', 'libks/buffer.c buffer_cmp'),
      ('result only consumed once parsing succeeded', 'knfmt.c fileformat')],
     TB + 'The file system is a ghost model in which any call may fail and '
     'any write may be short.')

prop('C02', 'Output is complete and the exit status tells the truth',
     'When the process exits with status zero, each given file was formatted '
     'and, without -d or -i, exactly its complete formatted bytes were '
     'written to standard output; with -d the diff compares the complete '
     'original with the complete formatted bytes under the name of the file, '
     'and the status is non-zero if any file differs. A file that cannot be '
     'read, parsed or written makes the status non-zero, does not hide the '
     'result of later files, and emits no partially formatted source.',
     ['inputs', 'fault_sequences', 'configurations'],
     'every list of files, every combination of -d, -i, -D and every failing '
     'or short system call',
     'The tests feed a single file with all calls succeeding; short writes, '
     'failing calls and combinations of several files of which one fails are '
     'never exercised.',
     ['knfmt.c', 'libks/tmp.c'],
     [('write loop', 'knfmt.c fileprint'),
      ('status of the diff program', 'knfmt.c filediff'),
      ('errors accumulate over files', 'knfmt.c main, fileformat, filelist'),
      ('temporary operands of diff', 'libks/tmp.c')],
     TB + 'System calls are modelled by stubs which may fail or be short at '
     'any point; the diff program itself is outside.')

prop('C03', 'Input is read in full and text buffers keep what was appended',
     'The text that is formatted is exactly the content of the file, whatever '
     'its size and however the reads are chunked; a read that fails is '
     'reported and never taken for the end of the file. A text buffer holds '
     'exactly the bytes appended to it less those removed from its end, also '
     'across growth, is never overrun, yields NUL-terminated strings and '
     'splits into exactly the lines it holds.',
     ['inputs', 'fault_sequences', 'histories'],
     'every file content and size, every sequence of chunk sizes and failing '
     'reads, every sequence of buffer operations',
     'The tests only read small files in one or two reads and exercise a few '
     'fixed sequences of buffer operations.',
     ['libks/buffer.c', 'libks/arena-buffer.c', 'file.c'],
     [('read loop', 'libks/buffer.c buffer_read_fd_impl'),
      ('growth', 'libks/buffer.c buffer_reserve'),
      ('append', 'libks/buffer.c buffer_puts, buffer_putc, buffer_vprintf'),
      ('lines', 'libks/buffer.c buffer_getline_impl'),
      ('descriptor handling', 'file.c file_read, file_close')],
     TB + 'libc string functions, read(2) and realloc(3) are assumed '
     'contracts.')

prop('C04', 'Memory of an arena is disjoint, aligned and lives as long as its scope',
     'Every allocation from an arena is aligned to the size of a pointer, has '
     'at least the requested size, does not overlap any other allocation '
     'alive and keeps its bytes, whatever else is allocated, until the scope '
     'it was allocated from is left. Reallocation preserves the first bytes '
     'up to the smaller of both sizes and grows in place only if nothing '
     'follows. Zeroed memory is zero, duplicated and formatted strings are '
     'exact and terminated. Leaving a scope executes its cleanups, each once, '
     'last to first, before any of its memory is released, and releases '
     'exactly what was allocated since the scope was entered. Allocating '
     'from a scope while a nested one is active is refused, a request that '
     'cannot be represented or satisfied ends the process.',
     ['histories', 'inputs'],
     'every sequence of allocations, reallocations, cleanups, scopes entered '
     'and left; every size',
     'The tests allocate a few blocks; frames running full, growth in place '
     'next to other allocations and nested scopes spanning frames are hit by '
     'chance.',
     ['libks/arena.c'],
     [('bump allocation', 'libks/arena.c arena_push, arena_malloc, '
       'arena_frame_alloc'),
      ('growth', 'libks/arena.c arena_realloc, arena_realloc_fast'),
      ('scopes', 'libks/arena.c arena_scope_enter_impl, arena_scope_leave, '
       'arena_scope_validate'),
      ('cleanups', 'libks/arena.c arena_cleanup')],
     TB + 'Allocations alive lie below the length of their frame (the data '
     'structure invariant); disjointness and lifetime are postconditions and '
     'frame conditions with respect to it. Lists of frames and cleanups of '
     'any length.')

prop('C05', 'Vectors keep their elements',
     'A vector holds exactly the elements added to its end less those removed '
     'from its end, in order and unchanged across growth, whether it lives on '
     'the heap or in an arena. A new element is the last one, zeroed if asked '
     'for, and always within the memory of the vector; a size that overflows '
     'is an error which leaves the vector alone. Sorting permutes all '
     'elements, first and last are the ends and nothing for an empty vector.',
     ['histories', 'inputs'],
     'every sequence of operations, every length',
     'The tests hold a few fixed sequences.',
     ['libks/vector.c', 'libks/arena-vector.c'],
     [('growth', 'libks/vector.c vector_reserve1'),
      ('ends', 'libks/vector.c vector_alloc, vector_pop, vector_first, '
       'vector_last'),
      ('memory', 'libks/arena-vector.c callback_realloc')],
     TB + 'Growth is proved for ten element sizes, each for every length.')

prop('C06', 'Arithmetic on sizes detects overflow exactly',
     'The checked addition, subtraction and multiplication of signed and '
     'unsigned integers of 32 and 64 bits report an overflow if and only if '
     'the mathematical result is not representable and yield the exact '
     'result otherwise, with and without compiler support, zero included.',
     ['inputs'],
     'every pair of operands',
     'The tests hold a few pairs for each function.',
     ['libks/arithmetic.c', 'libks/arithmetic.h'],
     [('addition, subtraction, multiplication', 'libks/arithmetic.c')],
     'Addition and subtraction are proved for all operands; multiplication '
     'is beyond the solver and sampled (labelled bounded) around the '
     'boundaries.')

prop('C07', 'Columns and indentation are computed correctly for every text',
     'The column reached after any text free of NUL bytes, starting from any '
     'column, is the one '
     'of a terminal with tab stops at every eighth column: each byte advances '
     'by one, a tab advances to the next tab stop and a newline starts over. '
     'Indentation is emitted as tabs (if enabled) followed by less than eight '
     'spaces, advances by exactly the requested number of columns when it '
     'starts at a tab stop, and the column reported afterwards is the one the '
     'emitted text really ends at. The underlying scan stops at the first '
     'byte inside (or outside) the requested character ranges and never reads '
     'past the given length.',
     ['inputs'],
     'every text of every length, every starting column, every amount of '
     'indentation',
     'The unit tests contain a handful of fixed strings.',
     ['util.c', 'libks/string.c'],
     [('column of a text', 'util.c colwidth, strwidth'),
      ('emission of indentation', 'util.c strindent_buffer'),
      ('character range scan', 'libks/string.c KS_str_match_default, '
       'KS_str_match_until_default')],
     TB + 'The assembly variants of the scan are assumed equivalent to the '
     'verified C variants.')

prop('C08', 'Every token carries its exact position and text',
     'For every source, the cursor of the tokenizer always knows the line it '
     'is on: reading, un-reading, matching, saving and restoring in any order '
     'yield the bytes of the source one by one and in order. A token emitted '
     'carries exactly the bytes between the saved and the current position, '
     'the offset, line and column (tab stops of eight) of its first byte, and '
     'is flagged as part of a diff iff the line of its first byte is covered '
     'by it. Skipping blanks consumes nothing but blanks, as many blank lines '
     'as asked for, and leaves no leading blank line or space behind; the '
     'text of a range of lines is exactly those lines.',
     ['inputs', 'histories'],
     'every source and every sequence of operations on the cursor',
     'The tests compare the formatted output of fixed sources; positions only '
     'surface in error messages, -D and clang-format off regions.',
     ['lexer.c'],
     [('cursor', 'lexer.c lexer_getc, lexer_ungetc, lexer_match'),
      ('table of lines', 'lexer.c lexer_line_alloc, lexer_get_lines'),
      ('blanks', 'lexer.c lexer_eat_lines, lexer_eat_spaces, '
       'lexer_eat_lines_and_spaces'),
      ('tokens', 'lexer.c lexer_emit_template, lexer_column, '
       'lexer_buffer_slice')],
     TB)

prop('C09', 'With -D exactly the lines added by the diff are considered',
     'For every unified diff, the lines of a file considered with -D are '
     'exactly the lines the diff adds to it: removed lines, context lines '
     '(also those stripped of their leading space) and "\\ No newline" '
     'markers never count, the text of a hunk or the function name in a hunk '
     'header is never mistaken for a range or a path, a line is covered iff '
     'some hunk adds it, and each file of the diff is considered under its '
     'path without the b/ prefix and, when it cannot be found, without the '
     'directories leading from the repository root to the current directory. '
     'A truncated hunk is an error.',
     ['inputs'],
     'every diff: any number of files and hunks, any sequence of added, '
     'removed and context lines, every queried line number',
     'The tests only contain small diffs as produced by git with its default '
     'options.',
     ['diff.c'],
     [('hunks and their lines', 'diff.c diff_parse, matchline, diff_end'),
      ('range of a hunk', 'diff.c matchchunk, strtou'),
      ('path of a file', 'diff.c matchpath, trimprefix'),
      ('lookup of a line', 'diff.c diff_get_chunk')],
     TB + 'What the two regular expressions accept is out of reach of the '
     'verifier and only covered by a seeded stand-in (labelled bounded) which '
     'compares whole diffs with a reference.')

prop('C10', 'Comments keep their text',
     'For every comment, however many lines it spans and whatever it holds, '
     'the emitted comment consists of the same lines in the same order with '
     'the same text: the only bytes removed are blanks ending a line, and the '
     'only bytes replaced are blanks in front of a leading asterisk or slash, '
     'by tabs and spaces of exactly the same width. Lines are neither merged '
     'nor split nor lost, empty ones included, and the kind of line ending is '
     'the one of the last line.',
     ['inputs', 'configurations'],
     'every comment and both kinds of indentation',
     'The tests hold a handful of short comments.',
     ['comment.c', 'clang.c'],
     [('lines of a comment', 'comment.c comment_trim'),
      ('blanks', 'comment.c skipws, rskipws')],
     'The contract of comment_trim states, for an arbitrary byte of the '
     'comment, that it is either emitted in place or a blank which may be '
     'removed; the loops carry invariants, the helpers contracts of their '
     'own. Unbounded in the length of the comment.')

prop('C11', 'Tokenizing loses nothing and follows the lexical rules of C',
     'For every source, each byte which is not blank is part of exactly one '
     'comment, preprocessor directive or token, in the order of the source '
     '(the only exception: backslashes outside of those are dropped). '
     'Comments extend to their first terminator (line comments to the end of '
     'the line, lines spliced by a backslash and further lines consisting of '
     'a line comment included), directives to the end of their last line '
     '(spliced lines and block comments included, comment openers and quotes '
     'inside literals excluded), string and character literals, encoding '
     'prefix included, to the first delimiter which is not escaped, numbers '
     'and words as far as possible, operators are the longest known one. '
     'Literals which are not terminated and bytes which are not part of C '
     'never vanish: they become tokens which the parser rejects.',
     ['inputs'],
     'every source',
     'The tests hold some hundred fixed sources; the defects fixed here '
     '(split exponents, prefixes, discarded text) all passed them.',
     ['clang.c'],
     [('tokens', 'clang.c clang_read, clang_keyword, clang_ellipsis, isnum'),
      ('comments', 'clang.c clang_read_prefix, clang_read_comment, '
       'peek_c99_comment, sense_clang_format_comment'),
      ('directives', 'clang.c clang_read_cpp, clang_find_cpp')],
     TB)

prop('C12', 'Formatting changes nothing but blanks',
     'For every source which formats without error (no -s), the output holds '
     'the same tokens and preprocessor directives in the same order, and '
     'exactly the same comments, as the source: nothing is lost, duplicated, '
     'merged, split or reordered, no matter where conditionals, comments or '
     'line breaks are placed and whichever style is configured. The '
     'exceptions are documented: redundant semicolons are dropped, includes '
     'are sorted if configured, and a comment next to an operator may follow '
     'the operator to another line. No token ends up inside of a comment.',
     ['inputs', 'configurations'],
     'every source and every configuration',
     'The tests hold some hundred fixed sources, each formatted the way it is '
     'expected to; the defects fixed here (dropped operators, lost comments, '
     'discarded branches) all passed them.',
     ['doc.c', 'parser.c', 'expr.c', 'parser-*.c', 'token.c', 'clang.c'],
     [('emission of text', 'doc.c doc_print, doc_trim_spaces, doc_trim_lines, '
       'doc_exec1'),
      ('tokens with their comments', 'parser.c parser_doc_token_impl'),
      ('comments moved along with operators', 'expr.c token_move_next_line, '
       'token_move_prev_line'),
      ('conditionals', 'clang.c clang_branch, clang_branch_fold, parser.c '
       'parser_exec, parser_reset')],
     'Document emission is under contract; the recursive descent parser as a '
     'whole is out of reach of function contracts (see DESIGN.md) and only '
     'covered by a stand-in, labelled bounded, which formats a fixed set of '
     'generated programs under generated configurations and compares the '
     'lexical elements with a reference tokenizer.')

prop('C13', 'The nearest configuration file is found, and nothing is leaked',
     'The search for .clang-format (and for .git with -D) considers the '
     'current directory and then each of its parents up to the root of the '
     'file system, mount points included, and yields the file of the nearest '
     'directory holding one; the number of levels climbed is reported exactly. '
     'It always terminates, gives up only once the root has been considered '
     'or a directory cannot be opened, and closes every directory it opened.',
     ['configurations', 'inputs', 'fault_sequences'],
     'every depth, every set of directories holding the file, every mount '
     'point and every failing system call',
     'The tests run in a single directory holding the file.',
     ['fs.c'],
     [('walk towards the root', 'fs.c searchpath')],
     TB + 'The directory tree is a ghost model in which any call may fail.')

prop('C15', 'Sorting includes permutes each block as configured',
     'With includes sorted, each block of consecutive include directives is '
     'permuted and nothing else moves: no directive is lost, duplicated or '
     'altered. A block ends at a blank line (one holding nothing but white '
     'space included) unless regrouping, at any other directive, comment or '
     'code. Within a block the order is the one of the texts, the include of '
     'the header belonging to the source may stay first. A block is left '
     'alone when it mixes <> with quotes, or <> with paths holding a slash, '
     'when it has an include lacking a path, and with -D when it has lines '
     'not part of the diff. With IncludeBlocks: Regroup, blocks form the '
     'groups of IncludeCategories in order of priority, each followed by a '
     'blank line; the first category whose pattern matches the path decides, '
     'categories lacking a valid pattern never match. Without sorting '
     'nothing moves.',
     ['inputs', 'configurations'],
     'every sequence of directives and every configuration of categories',
     'The tests hold about thirty sources with a few includes each; files '
     'with carriage returns and categories lacking a pattern were both '
     'broken.',
     ['cpp-include.c', 'style.c', 'token.c'],
     [('order of includes', 'cpp-include.c include_cmp, token.c token_strcmp, '
       'token_memcmp'),
      ('path of an include', 'cpp-include.c findpath'),
      ('end of a block', 'cpp-include.c cpp_include_add, cpp_include_leave, '
       'token.c token_has_verbatim_line'),
      ('sorting', 'cpp-include.c cpp_include_exec, is_main_include'),
      ('categories', 'style.c style_include_priority, '
       'style_include_priorities'),
      ('list of prefixes', 'token.c token_list_append_after, '
       'token_list_remove, token_list_prepend')],
     'The comparison, the path, the end of a block, the category and the '
     'list operations are under contract, for texts and lists of any '
     'length. Sorting as a whole (vectors, maps and the list) is a stand-in, '
     'labelled bounded: generated files and configurations compared with a '
     'reference.')

prop('C16', 'Aligning line continuations keeps the text of every line',
     'For every preprocessor directive spanning lines by means of '
     'backslashes, every style of alignment, column limit and indentation, '
     'each line holds the same text as before, followed by blanks, a single '
     'backslash and a new line; the line not continued ends the directive '
     'and is kept as is, and so is everything that follows. Nothing but the '
     'blanks in front of a backslash change, no line is lost or joined.',
     ['inputs', 'configurations'],
     'every directive and every style',
     'The tests hold about two dozen short macros.',
     ['cpp-align.c'],
     [('lines of a directive', 'cpp-align.c cpp_align'),
      ('end of a line', 'cpp-align.c nextline')],
     'The contract of cpp_align states, for an arbitrary byte of the '
     'directive, that it is either handed over to the document in place or '
     'a blank in front of a backslash; the order of text, alignment, '
     'backslash and new line is a protocol the calls must follow. Unbounded '
     'in the number and length of lines.')

prop('C18', 'Formatting is idempotent',
     'Formatting what knfmt emitted changes nothing, for every source and '
     'configuration.',
     ['inputs', 'configurations'],
     'every source and configuration',
     'The tests hold fixed sources which are formatted already.',
     ['parser-*.c', 'doc.c', 'ruler.c'],
     [('layout decisions', 'parser-*.c, clang.c, doc.c doc_fits')],
     na='A relation between two runs of the whole program over parser, '
     'document and ruler (about 10000 lines of mutually recursive code): no '
     'contract of single functions within reach of CBMC expresses it. It also '
     'does not hold: generated programs often need two or three runs to '
     'settle, comments inside of expressions in particular.')

prop('C21', 'Lines which are not part of the diff are emitted as they are',
     'With -D, every line which is not part of the diff is emitted byte by '
     'byte as it is in the source.',
     ['inputs', 'configurations'],
     'every source, diff and configuration',
     'The tests hold about seventy sources along with a diff.',
     ['doc.c', 'diff.c', 'lexer.c'],
     [('verbatim emission', 'doc.c doc_diff_group_enter, doc_diff_verbatim, '
       'doc_diff_mute_enter'),
      ('which tokens are covered', 'lexer.c lexer_emit_template')],
     na='Depends on which documents the parser groups, i.e. the whole parser, '
     'which is out of reach of the verifier. The parts within reach are '
     'claimed: the lines of the diff (C09), the flag of each token and the '
     'text of a range of lines (C08). As a whole it does not hold for '
     'statements of several lines with comments between their tokens of '
     'which only some lines are part of the diff ("static // x" followed by '
     '"const int y;" on the next line being the one of the diff).')

prop('C22', 'Every run ends without crashing',
     'For every sequence of bytes and configuration, knfmt ends with either '
     'formatted output or an error message; it neither crashes nor loops.',
     ['inputs', 'configurations'],
     'every file content and configuration',
     'The tests hold fixed sources, the fuzzers of the repository sample.',
     ['parser-*.c', 'clang.c', 'doc.c'],
     [('recursive descent', 'parser-*.c')],
     na='Needs termination measures and memory safety contracts of the whole '
     'parser and document. Memory safety and termination of the functions '
     'under contract are obligations of the other properties; whole programs '
     'are only sampled by the stand-in of C12 (with ASan and UBSan).')
