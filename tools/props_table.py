SAN = 'the real library runs under ASan+UBSan with assertions on; '
NOTE = 'Held on the generated executions of this run (counts in the evidence file); trusts the Python reference model, ' \
       'the driver in harness/ and the sanitizers. '
NOT_APPLICABLE = []
PROPS = [
 dict(id='C01', title='Free-form source is reproduced exactly when written back',
  statement='Reading any free-form Fortran source and writing its lines back reproduces the source byte for byte (a missing final newline is added), including comments, blank lines, directives, literal blocks, continuations, tabs and carriage returns. This also holds after the statements of the file have been built and after it has been parsed without modification.',
  over=['inputs'], quant='every free-form text without NUL bytes that the reader accepts, through each of the reading interfaces',
  why='tests compare a handful of short lines; layouts, continuation shapes, quotes and special lines combine without bound',
  files=['src/flpr/File_Line.cc', 'src/flpr/Logical_File.cc', 'src/flpr/Logical_Line.cc', 'src/flpr/LL_Stmt_Src.cc'],
  mech=[('field partition of each physical line', 'File_Line::analyze_free'), ('printing of fields', 'operator<<(File_Line)'), ('grouping', 'Logical_File::scan_free')],
  observe=['Logical_File::lines printed with operator<<'],
  tech='runtime monitor: byte-exact round-trip oracle over generated layouts, ASan+UBSan', note=NOTE),
 dict(id='C02', title='Fixed-form source is reproduced when written back',
  statement='Reading fixed-form Fortran source and writing its lines back reproduces it exactly, except that tabs reaching into the control columns become six blanks each and text beyond the last significant column is dropped if blank and otherwise marked as a comment. Labels, continuation marks, comments, directives and text columns keep their places for every setting of the last significant column.',
  over=['inputs', 'configurations'], quant='every well-formed fixed-form source and last-column setting',
  why='tests check a few single lines; column limits, open character contexts and identification fields interact',
  files=['src/flpr/File_Line.cc', 'src/flpr/Logical_File.cc'],
  mech=[('field partition', 'File_Line::analyze_fixed'), ('printing', 'operator<<(File_Line)'), ('grouping', 'Logical_File::scan_fixed')],
  observe=['Logical_File::lines printed with operator<<'],
  tech='runtime monitor: round-trip oracle over generated fixed-form layouts, ASan+UBSan', note=NOTE),
 dict(id='C03', title='Lines are classified and grouped into logical lines correctly',
  statement='Every physical line is classified as what it is in its source form (blank, comment, preprocessor, include, FLPR directive, literal block, initial or continuation Fortran line, labelled or not), with its Fortran text separated from labels, continuation marks and trailing comments. Physical lines are grouped so that each logical line holds exactly one (possibly compound) statement with its continuation lines and interspersed comments, or one run of comment/blank lines, or one directive with its continuations, and every line keeps its file line number.',
  over=['inputs'], quant='every well-formed free- or fixed-form source',
  why='tests look at isolated lines; context (open quotes, continuation, literal blocks) changes how a line must be read',
  files=['src/flpr/File_Line.cc', 'src/flpr/Logical_File.cc', 'src/flpr/Logical_Line.cc'],
  mech=[('classification', 'File_Line::analyze_free/analyze_fixed'), ('grouping', 'Logical_File::scan_free/scan_fixed')],
  observe=['File_Line flags and fields', 'Logical_Line::start_line/end_line/label/cat/layout'],
  tech='runtime monitor: expected grouping/classification known by construction, ASan+UBSan', note=NOTE),
 dict(id='C04', title='Token sequence is independent of layout, with exact positions',
  statement='The tokens of a statement (text, kind and order) are determined by the statement alone: they do not depend on blanks, continuation lines, tokens being broken across lines, interspersed comments, trailing comments or source form, and joined keywords such as ENDIF give the same tokens as END IF, and a line built on its own from its text has the same tokens as in the file. Each token reports the line and column where it begins in the file, the place of its text within the lines of the statement, and the number of blanks around it.',
  over=['inputs'], quant='every sequence of lexical elements and every legal layout of it in free or fixed form',
  why='tests tokenize a few one-line statements; the product of lexical contexts and break positions is unbounded',
  files=['src/flpr/scan_fort.l', 'src/flpr/Line_Accum.cc', 'src/flpr/Logical_Line.cc', 'src/flpr/Token_Text.hh', 'src/flpr/Smash_Hash.hh'],
  mech=[('lexer', 'scan_fort.l'), ('line accumulation', 'Line_Accum'), ('fragments', 'Logical_Line::init_from_layout')],
  observe=['Logical_Line::fragments()'],
  tech='runtime monitor: independent reference lexer/layout engine as oracle, ASan+UBSan', note=NOTE),
 dict(id='C06', title='Statement sequence of a file is complete, ordered and attributed',
  statement='The statements built from a file are exactly the non-empty statements of its logical lines in source order: compound lines are split at semicolons outside character contexts, a label belongs to the first statement of its line, and members of a compound line are numbered. Every comment, blank, directive or empty line before a statement is attached to that statement as a prefix, in order and exactly once.',
  over=['inputs'], quant='every well-formed source',
  why='tests have a few compound lines; labels, stray semicolons, quotes and prefixes combine freely',
  files=['src/flpr/LL_Stmt_Src.cc', 'src/flpr/LL_Stmt.cc', 'src/flpr/Logical_Line.cc', 'src/flpr/Logical_File.cc'],
  mech=[('statement source', 'LL_Stmt_Src'), ('statement ranges', 'Logical_Line::stmts'), ('LL_Stmt', 'LL_Stmt.hh')],
  observe=['Logical_File::ll_stmts after make_stmts'],
  tech='runtime monitor: conservation/ordering oracle on the statement sequence, ASan+UBSan', note=NOTE),
 dict(id='C07', title='Every statement form of the Fortran 2018 standard is recognized',
  statement='Each statement parser accepts every statement that the Fortran 2018 grammar derives for it (within the constructs FLPR sets out to support), consumes exactly the tokens of the statement, and reports the statement kind the standard gives it.',
  over=['inputs'], quant='every sentence of the F2018 statement rules FLPR implements, for every optional part and nesting',
  why='tests try one to a few sentences for each rule; optional parts and nested expressions combine without bound',
  files=['src/flpr/parse_stmt.cc', 'src/flpr/parse_stmt.hh', 'src/flpr/Stmt_Parsers.hh', 'src/flpr/Stmt_Parser_Exts.cc'],
  mech=[('statement rules', 'parse_stmt.cc'), ('combinators', 'Stmt_Parsers.hh'), ('tokens', 'TT_Stream.cc')],
  observe=['Stmt::<rule>(TT_Stream&)', 'LL_Stmt stmt_tag'],
  tech='runtime monitor: sentences derived from an independent F2018 grammar must be accepted, ASan+UBSan', note=NOTE),
 dict(id='C08', title='The statement parse tree is a faithful derivation of the statement',
  statement='A successful statement parse gives a tree whose leaves are exactly the tokens of the statement in order, whose branch labels are the grammar rules that derive them, and whose keyword leaves carry the keyword token; the same token sequence always gives the same tree, the first matching alternative in rule order winning.',
  over=['inputs'], quant='every token sequence a statement rule accepts',
  why='tests compare few whole trees; a dropped, duplicated or mislabelled leaf in a rare optional part goes unnoticed',
  files=['src/flpr/parse_stmt.cc', 'src/flpr/Stmt_Parsers.hh', 'src/flpr/Stmt_Tree.hh', 'src/flpr/Tree.hh', 'src/flpr/TT_Stream.cc'],
  mech=[('tree building', 'Stmt_Parsers.hh'), ('tags', 'Syntax_Tags_Defs.hh')],
  observe=['Stmt_Tree returned by Stmt::<rule>'],
  tech='runtime monitor: exact tree oracle from a reference packrat interpreter of the rules, ASan+UBSan', note=NOTE),
 dict(id='C09', title='Text that is not a statement of a kind is not accepted as one',
  statement='A statement parser rejects token sequences that its rule does not derive: statements of another kind, statements with a token missing, doubled, replaced or left over, and unbalanced parentheses. On rejection it returns no tree and leaves the token stream where it was, so that another rule can be tried, and it never reads outside the statement.',
  over=['inputs'], quant='every token sequence a statement rule does not derive',
  why='tests are nearly all positive; the space of near-miss sentences is unbounded',
  files=['src/flpr/parse_stmt.cc', 'src/flpr/Stmt_Parsers.hh', 'src/flpr/TT_Stream.cc', 'src/flpr/Token_Text.hh'],
  mech=[('backtracking', 'TT_Stream marks'), ('end-of-statement test', 'eol() in Stmt_Parsers.hh')],
  observe=['Stmt::<rule>(TT_Stream&) result and stream position'],
  tech='runtime monitor: mutated and cross-rule sentences against a reference recognizer, ASan+UBSan', note=NOTE),
 dict(id='C10', title='The program tree reflects the block structure of the program',
  statement='Parsing a well-formed Fortran program built from the supported program units and constructs succeeds and gives a tree whose nodes are exactly its program units, parts, constructs and statements, properly nested: every statement is a leaf exactly once (the terminator of a shared DO nest once for each loop), in source order, with its statement kind, every node covers the statements below it, and every statement leads back to its leaf. The tree does not depend on the layout, parsing does not change the source text, and a dropped statement tree is rebuilt the same.',
  over=['inputs'], quant='every well-formed program over the implemented program grammar, in both source forms',
  why='tests parse a few short programs; construct nesting, labelled DO forms, optional parts and layout combine without bound',
  files=['src/flpr/Prgm_Parsers_impl.hh', 'src/flpr/Prgm_Parsers_utils.hh', 'src/flpr/Parsed_File.hh', 'src/flpr/Prgm_Tree.hh', 'src/flpr/Label_Stack.hh', 'src/flpr/LL_Stmt.cc'],
  mech=[('program rules', 'Prgm_Parsers_impl.hh'), ('labelled DO', 'Legacy_Do_Construct_Parser'), ('links', 'Parsed_File::link_stmts_recurse_')],
  observe=['Parsed_File::parse_tree', 'Parsed_File::stmt_to_node_cursor', 'LL_Stmt::stmt_tree'],
  tech='runtime monitor: exact tree oracle by construction over generated programs, ASan+UBSan', note=NOTE),
 dict(id='C11', title='Malformed programs are reported, never crash or corrupt',
  statement='A program whose block structure is broken (a closing statement missing, stray or exchanged, an unrecognizable statement, a statement where its construct or program unit cannot have it, a part that must be there missing, a truncated file) is reported as not parsed: the file is in its failed state, has no tree, and its text is unchanged. Arbitrary damaged or hostile input never causes memory errors, undefined behaviour, assertion failures, uncaught exceptions or endless loops.',
  over=['inputs'], quant='every input text, well formed or not',
  why='tests hardly contain malformed programs; error paths are reached from every parser state',
  files=['src/flpr/Prgm_Parsers_utils.hh', 'src/flpr/Parsed_File.hh', 'src/flpr/Stmt_Parsers.hh', 'src/flpr/TT_Stream.cc', 'src/flpr/Logical_File.cc'],
  mech=[('failure of a construct', 'Sequence_If_Parser'), ('failed state', 'Parsed_File::build_tree_'), ('end of stream', 'Prgm_Parsers_utils.hh')],
  observe=['Parsed_File::operator bool, parse_tree, indent', 'sanitizer reports'],
  tech='runtime monitor: damaged programs and hostile text under ASan+UBSan, failure-report oracle', note=NOTE),
 dict(id='C13', title='Indentation moves statements to their nesting depth and changes nothing else',
  statement='Indenting a parsed file places every statement at the sum of the indent table entries of the constructs around it (a label pushing the text right where it has to), its comment lines and continuation lines with it, and changes nothing but blanks outside the Fortran text, comments and directives: labels, continuation marks, comments, directives and preprocessor lines keep their text, no line is added or lost, fixed-form control columns are respected, and lines that are not statements or comments stay as they are. It reports whether anything changed, and indenting again changes nothing.',
  over=['inputs', 'configurations'], quant='every well-formed program and indent table',
  why='tests indent single lines; labels, continuations, trailing comments, tabs and fixed form interact with nesting',
  files=['src/flpr/Parsed_File.hh', 'src/flpr/Indent_Table.hh', 'src/flpr/Indent_Table.cc', 'src/flpr/File_Line.cc', 'src/flpr/Logical_Line.cc', 'src/flpr/LL_Stmt.cc'],
  mech=[('tree walk', 'Parsed_File::indent_recurse_'), ('line movement', 'File_Line::set_leading_spaces')],
  observe=['Parsed_File::indent and the emitted text'],
  tech='runtime monitor: per-line indentation oracle from the known program tree, ASan+UBSan', note=NOTE),
 dict(id='C12', title='Converting fixed form to free form keeps the program',
  statement='Converting fixed-form source to free form keeps every statement: the converted text is valid free form which, read again, has the same logical lines with the same tokens, labels and statements on the same file lines, with every comment, directive and blank line in its place. Only text which cannot be kept (beyond the last column within a character context, marks of the fixed form itself) is dropped. Converting free-form source, or converting twice, changes nothing.',
  over=['inputs', 'configurations'], quant='every well-formed fixed-form source and last-column setting',
  why='tests convert one short file; labels, column 6 marks, broken tokens and identification fields interact',
  files=['src/flpr/Logical_File.cc', 'src/flpr/File_Line.cc'],
  mech=[('conversion', 'Logical_File::convert_fixed_to_free'), ('continuation marks', 'needs_front_continuation')],
  observe=['Logical_File::convert_fixed_to_free', 'lines re-read from the converted text'],
  tech='runtime monitor: converted text is re-read and compared with the source model, ASan+UBSan', note=NOTE),
 dict(id='C14', title='Editing a file changes what the edit names and nothing else',
  statement='Splitting a logical line, isolating a statement, inserting or replacing statements and text, and relabelling a statement of a scanned file give exactly the requested sequence of statements: every other statement keeps its tokens, label, comments and order, statement handles stay valid and report their own text, and the emitted text, scanned again, has the same logical lines, labels, statements and comments, after any sequence of edits, in both source forms.',
  over=['inputs', 'histories'], quant='every scanned document and every sequence of edits',
  why='tests apply one edit to one short file; edits interact with compound statements, labels, continuations, embedded comments and with earlier edits',
  files=['src/flpr/Logical_File.cc', 'src/flpr/Logical_File.hh', 'src/flpr/Logical_Line.cc', 'src/flpr/LL_Stmt.cc', 'src/flpr/LL_Stmt_Src.hh', 'src/flpr/File_Line.cc'],
  mech=[('splitting and isolating', 'Logical_File::split_compound_before/isolate_stmt'), ('statement insertion', 'Logical_File::emplace_ll_stmt'), ('replacement', 'Logical_File::replace_stmt_text'), ('handles', 'LL_Stmt_Src')],
  observe=['Logical_File lines, ll_stmts, emitted text and its re-scan after each edit'],
  tech='runtime monitor: edit histories against a document model, ASan+UBSan', note=NOTE),
 dict(id='C15', title='Operations on one logical line keep text, tokens and layout in agreement',
  statement='After any sequence of operations on a logical line (rebuild its text, remove empty statements, replace or remove a token, insert or replace text, split, label, append a comment, indent, copy, move) its token list, statement ranges and label are the requested ones, each token is found in the line layout at the place recorded for it, no comment is lost, and the printed text, read again, has the same tokens and label. A copy equals its source and is independent of it. Each operation reports whether it changed something.',
  over=['inputs', 'histories'], quant='every logical line and every sequence of operations',
  why='tests operate once on a few lines; token positions go stale, or tokens merge or break, only for particular continuations, tokens split across lines, long tokens or earlier operations',
  files=['src/flpr/Logical_Line.cc', 'src/flpr/Logical_Line.hh', 'src/flpr/File_Line.cc', 'src/flpr/Token_Text.cc', 'src/flpr/Token_Text.hh'],
  mech=[('rebuilding', 'Logical_Line::text_from_frags'), ('token places', 'Token_Text'), ('substring replacement', 'Logical_Line::replace_stmt_substr'), ('copying', 'Logical_Line copy and move')],
  observe=['Logical_Line::fragments, stmts, layout, printed text and its re-scan after each operation'],
  tech='runtime monitor: operation histories against a token model, ASan+UBSan', note=NOTE),
 dict(id='C05', title='Results depend on the input alone',
  statement='What a scan, parse, statement parse or edit yields is a function of its input: it is the same in a fresh process as after any other inputs, malformed ones and failed reads included, whether the text comes from a stream, a list of lines, a named file (its type given or taken from the extension), a new object or one used before, and when the parsed file object is moved. No uninitialized value has an influence.',
  over=['inputs', 'histories', 'configurations'], quant='every input after every history of inputs, through every interface',
  why='every test runs one input in a fresh state through one interface',
  files=['src/flpr/Logical_File.cc', 'src/flpr/Parsed_File.hh', 'src/flpr/Logical_Line.cc', 'src/flpr/scan_fort.l', 'src/flpr/File_Info.cc', 'src/flpr/File_Line.cc', 'src/flpr/TT_Stream.cc'],
  mech=[('scanner state', 'Logical_Line::tokenize'), ('literal blocks and open delimiters', 'Logical_File::scan_free'), ('reuse', 'Parsed_File::read_file'), ('file types', 'file_type_from_extension')],
  observe=['observations of fresh and used processes, of all interfaces, and under memcheck'],
  tech='runtime monitor: differential oracle over histories and interfaces, ASan+UBSan and valgrind memcheck', note=NOTE),
 dict(id='C16', title='Procedure views show the procedures of a file, and edits keep both in step',
  statement='Visiting a parsed file calls the action once for every main program, external, module, separate module and internal procedure, outer before inner, in source order, with the right internal and module flags, and returns whether any action returned true. The view of a procedure names it correctly, lists its labels, and divides exactly its statements into its regions (begin, USE, IMPORT, IMPLICIT, declarations, execution part, contained procedures, end). Renaming it, completing its END statement, and adding, replacing or changing statements of a region do exactly that in the file, report whether they changed something, and leave the regions, the name and every statement handle of the view current, after any sequence of such edits, in both source forms.',
  over=['inputs', 'histories'], quant='every well-formed program, procedure and sequence of edits',
  why='the tests look at a few procedures and edit them once; empty regions, missing PROGRAM or END names, compound lines and earlier edits combine',
  files=['src/flpr/Procedure.hh', 'src/flpr/Procedure_Visitor.hh', 'src/flpr/Range_Partition.hh', 'src/flpr/Logical_File.cc', 'src/flpr/LL_Stmt.hh'],
  mech=[('walk over the program tree', 'Procedure_Visitor'), ('regions', 'Range_Partition'), ('statement trees after edits', 'LL_Stmt::stmt_tree')],
  observe=['arguments of the visitor action', 'Procedure::name, range, begin, end, scan_out_labels', 'the file after each Procedure edit'],
  tech='runtime monitor: views and edit histories against a program model, ASan+UBSan', note=NOTE),
 dict(id='C17', title='The containers behave as their sequences say and keep iterators valid',
  statement='After any history of operations a Safe_List equals the plain list the operations describe, and iterators to its remaining elements, its end included, and ranges built from them stay valid and current through insertion before them, through moves of the list, and through erasure of other elements. A Tree keeps the shape and values the grafting, swapping, moving and copying operations describe, with cursors that walk it consistently up, down and sideways. A Range_Partition keeps its ranges adjacent, in order and covering while elements are added at or between them. A Label_Stack pops a label as often as it was pushed. A TT_Stream peeks, consumes, backs up, rewinds, captures and brackets exactly the tokens of its source.',
  over=['histories'], quant='every history of operations on one or several containers and iterators',
  why='the tests use each operation once or twice in a fixed order; end iterators, moved-from and empty containers, cursors after grafts and adjacent empty ranges fail in combinations',
  files=['src/flpr/Safe_List.hh', 'src/flpr/Tree.hh', 'src/flpr/Range_Partition.hh', 'src/flpr/Label_Stack.hh', 'src/flpr/TT_Stream.hh', 'src/flpr/TT_Stream.cc'],
  mech=[('hidden end element', 'Safe_List'), ('branches and cursors', 'Tree, Tree::cursor_t'), ('adjacent ranges', 'Range_Partition'), ('token stream', 'TT_Stream')],
  observe=['the whole state of each container, read through its iterators and cursors, after every operation'],
  tech='runtime monitor: operation histories against reference containers, ASan+UBSan and libstdc++ debug iterators', note=NOTE),
 dict(id='C18', title='Registered grammar extensions extend the language and nothing else',
  statement='A statement parser registered as an action-stmt or other-specification-stmt extension makes its statements recognized wherever such a statement may stand (inside IF statements, as the end of a labelled DO loop, in every construct), with a tree under its tag that can be rebuilt after it was dropped. The standard rules come first, then the extensions in order of registration, each seeing the whole statement, whatever an earlier one did before failing. Programs without such statements have the same tree whatever is registered; without the registration, or after it was cleared, the statements are not accepted. Client tags have the registered label and type, others a default that tells them apart.',
  over=['inputs', 'configurations', 'histories'], quant='every program, set and order of registered extensions',
  why='the repository has one demonstration of one extension on one line; failing, shadowed and overlapping extensions, IF statements and rebuilt trees are not tested',
  files=['src/flpr/Stmt_Parser_Exts.cc', 'src/flpr/Stmt_Parser_Exts.hh', 'src/flpr/parse_stmt.cc', 'src/flpr/Syntax_Tags.cc', 'src/flpr/LL_Stmt.cc', 'src/flpr/Stmt_Parsers.hh'],
  mech=[('extension tables', 'Stmt::Parser_Exts'), ('use by the standard rules', 'Stmt::action_stmt, Stmt::other_specification_stmt'), ('client tags', 'Syntax_Tags::register_ext')],
  observe=['program and statement trees of programs parsed under changing registrations', 'calls and matches of each extension', 'labels and types of client tags'],
  tech='runtime monitor: programs with extension statements against the generated tree, ASan+UBSan', note=NOTE),
 dict(id='C19', title='The formatting, checking and listing tools do what they say to a source file',
  statement='flpr-format rewrites a well-formed file of either form into one with the same statements, labels and comments in the same order, with exactly the requested changes (compound statements split, free form, ordered indentation), which formatting again leaves as it is; without an option that applies, the output is the input. parse_files accepts exactly the well-formed files and names the others. flpr_show_cst prints the one concrete syntax tree of each statement with all of its tokens. ext_demo recognizes its extension statements. A malformed or missing file or an unusable command line is reported through the exit status and leaves every file as it was; no input ends a tool abnormally.',
  over=['inputs', 'configurations'], quant='every source file, option combination and file name',
  why='no test runs a tool; labels, comments, compound statements, trailing text and continuation lines meet the editing steps only in combination',
  files=['apps/flpr-format.cc', 'apps/flpr_format_base.cc', 'apps/parse_files.cc', 'apps/flpr_show_cst.cc', 'apps/ext_demo.cc', 'src/flpr/Logical_File.cc', 'src/flpr/Indent_Table.cc'],
  mech=[('format options', 'FLPR_Format::Options, do_file'), ('splitting', 'Logical_File::split_compound, isolate_stmt'), ('indentation', 'Logical_File::indent'), ('tree listing', 'flpr_show_cst')],
  observe=['files, standard output and exit status of each run of a tool'],
  tech='runtime monitor: runs of the instrumented tools in scratch directories against a source model, ASan+UBSan', note=NOTE),
 dict(id='C20', title='The module and caliper tools edit exactly the procedures they are meant for',
  statement='module adds the USE statement, behind the other USE statements, to exactly the procedures which invoke a requested procedure in a CALL statement (alone or within IF) and do not use the module yet, keeps the original beside a changed file and touches no other file. caliper brackets the execution part of each procedure which is neither internal nor pure with its two calls, and every RETURN, within IF too, becomes the second call or a jump to it, under a label which was free or the one the statement had. All other statements, labels, comments and lines of a file stay as they are, in both source forms, however many procedures are edited. A malformed or missing file or an unusable command line is reported through the exit status and changes nothing.',
  over=['inputs', 'configurations'], quant='every source file, set of names and module name',
  why='no test runs these tools; elaborate designators, compound lines, labelled and conditional RETURNs, headless programs and several edits in one file combine',
  files=['apps/module.cc', 'apps/module_base.cc', 'apps/caliper.cc', 'src/flpr/Procedure.hh', 'src/flpr/Procedure_Visitor.hh', 'src/flpr/Logical_File.cc'],
  mech=[('selection of procedures', 'FLPR_Module::has_call_named'), ('RETURN conversion', 'convert_return_stmts'), ('edits through the procedure view', 'Procedure')],
  observe=['files, standard output and exit status of each run of a tool'],
  tech='runtime monitor: runs of the instrumented tools in scratch directories against a program model, ASan+UBSan', note=NOTE),
 dict(id='C21', title='Nothing is kept once work is done',
  statement='Reading, building statements, parsing, editing, matching, visiting, converting and writing, with or without success, release all memory and every file handle once the objects they worked on are gone, for well-formed, malformed and unreadable input alike. However often an operation is repeated in one process, it never keeps more than after its first few runs.',
  over=['inputs', 'histories'], quant='every input and sequence of operations, successful or failed',
  why='the tests never look at what is left behind, and early returns on malformed or missing input are the ones which forget to release',
  files=['src/flpr/Logical_File.cc', 'src/flpr/Line_Accum.cc', 'src/flpr/Logical_Line.cc', 'src/flpr/scan_fort.l', 'src/flpr/Tree.hh', 'src/flpr/Safe_List.hh', 'src/flpr/Stmt_Parser_Exts.cc', 'src/flpr/Parsed_File.hh'],
  mech=[('scanner buffers', 'Logical_Line::tokenize'), ('files', 'Logical_File::read_and_scan'), ('owners of tree nodes and statements', 'Tree, Safe_List')],
  observe=['heap in use (allocator of the address sanitizer) and open descriptors after each repetition'],
  tech='runtime monitor: heap and descriptor balance of repeated operations, ASan+UBSan', note=NOTE),
 dict(id='C22', title='Work grows with the size of the input',
  statement='In a release build, the time and memory to read a file, build its statements, parse, indent, convert, write, visit and edit each of its statements grow in proportion to the number of its lines, statements and procedures, and at most with the square of the length of a single statement or the depth of a nest of constructs. Brackets within brackets, well formed or damaged, never multiply the work by a constant for each level.',
  over=['inputs'], quant='every shape of input, as its size grows',
  why='the tests use inputs of a few lines, on which even exponential work is not noticed; alternatives of the grammar which parse the same brackets again, and searches from the start of a list, show only with size',
  files=['src/flpr/parse_stmt.cc', 'src/flpr/Prgm_Parsers.hh', 'src/flpr/Stmt_Parsers.hh', 'src/flpr/Logical_File.cc', 'src/flpr/LL_Stmt_Src.cc', 'src/flpr/Safe_List.hh', 'src/flpr/Procedure_Visitor.hh'],
  mech=[('alternatives of the grammar', 'parse_stmt.cc, Prgm_Parsers.hh'), ('statement source', 'LL_Stmt_Src'), ('lists and ranges', 'Safe_List, Range_Partition')],
  observe=['user time and maximal resident size of a child process for inputs of growing size'],
  tech='runtime monitor: processor time and memory of the release build over growing inputs', note=NOTE),
 dict(id='C23', title='Failing input and output are noticed',
  statement='A source which cannot be read to its end (the stream or file breaks down at any place, or is not a readable source file at all) is refused by the library, which keeps no lines, statements or tree of the part read and can be used for another source afterwards; one which can be read is read the same in whatever pieces the stream delivers it. The tools report such a file, and go on with the others where they take several. flpr-format, caliper and module report through message and exit status exactly those runs in which their output could not be written completely, and module always keeps the original then: beside the incomplete file, or in its place if it cannot be renamed.',
  over=['inputs', 'fault_sequences'], quant='every source, place at which reading or writing fails, and kind of unreadable file',
  why='the tests read and write memory only; unnoticed, a fault leaves a silently shortened source behind',
  files=['src/flpr/Logical_File.cc', 'src/flpr/Parsed_File.hh', 'apps/flpr-format.cc', 'apps/caliper.cc', 'apps/module.cc', 'apps/module_base.cc', 'apps/parse_files.cc'],
  mech=[('reading a stream', 'Logical_File::read_and_scan'), ('states of a parsed file', 'Parsed_File'), ('writing', 'main of the tools, FLPR_Module::do_file')],
  observe=['return values, lines, statements and trees after a broken stream', 'exit status, messages, output and files of each run of a tool'],
  tech='runtime monitor: fault injection into streams, files and outputs, ASan+UBSan', note=NOTE),
 dict(id='C24', title='Operations on one physical line change what they say and nothing else',
  statement='Every operation of a physical line of either source form (continuing it or not, setting or clearing its label, moving it, making it a comment, blank or preprocessor line, trimming its text, swapping) does what it says whatever was done to the line before, and keeps the rest: statement text, label, leading ampersand or continuation mark, and comment stay, the statement stays in its column unless it has to make room or was to be moved, and so does a trailing comment while there is room. It reports whether it changed anything. Text, parts, classes, size and columns always agree, and the text read again in the same context gives such a line.',
  over=['inputs', 'histories'], quant='every physical line and sequence of applicable operations',
  why='the tests apply single operations to a few lines; control columns, labels, leading ampersands, character context, trailing comments and text behind the last column combine with each other and with earlier operations',
  files=['src/flpr/File_Line.cc', 'src/flpr/File_Line.hh'],
  mech=[('parts of a line', 'File_Line::analyze_free, analyze_fixed'), ('moving', 'set_leading_spaces, unspace_main'), ('classification', 'make_comment_or_blank, make_continued, set_label')],
  observe=['text, parts, classes, sizes, columns and return value after each operation, and the text read again'],
  tech='runtime monitor: line model followed through random operation sequences, ASan+UBSan', note=NOTE),
]
