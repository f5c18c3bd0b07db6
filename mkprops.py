import json
P=[]
def p(id,title,statement,over,qt,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Every successful dump is well-formed Breakpad text",
"Whatever bytes the names, paths and identifiers inside the input contain, a run that exits 0 writes valid UTF-8 made only of complete Breakpad records, one per line and free of control characters, beginning with exactly one MODULE record followed by INFO, FILE, INLINE_ORIGIN, FUNC/PUBLIC (with their INLINE and line records, in that order) and STACK records in this order. Every field has its documented form: lower-case hexadecimal addresses and sizes, decimal line numbers and ids, and non-empty file, module and function names.",
["inputs","configurations"],"every input the program accepts, including names and paths holding control characters, invalid UTF-8 or nothing at all, in every input format",
"The tests compare a dozen fixed binaries with stored files; none has a hostile name, and the record grammar itself is never checked.",
["src/object_info.rs","src/symbol.rs","src/line.rs","src/inline_origins.rs","src/collector.rs","src/source.rs","src/main.rs"],
[("Display of the module and its symbols","src/object_info.rs, src/symbol.rs, src/line.rs"),("name sanitising","src/inline_origins.rs demangle_and_sanitize, src/collector.rs demangle")],
["stdout / -o file / store file of a run that exits 0"])

p("C02","Records only refer to defined records, sorted and without overlap",
"In every dump, of one file or of merged files, FILE and INLINE_ORIGIN ids count up from 0, no two FILE records name the same file (unless path mapping sends two files to one name), every id used by a line or INLINE record is defined, and there is at most one FUNC or PUBLIC record per address, in increasing address order. For well-formed debug information the line records of a FUNC are in address order and do not overlap, INLINE ranges lie inside the function, do not overlap another one of the same depth, and at depth n lie inside ranges of depth n-1. INLINE records and the ranges within each are in address order. INLINE and INLINE_ORIGIN records appear only when inlines were asked for.",
["inputs","configurations","histories"],"every accepted input and set of merged inputs, with and without inlines",
"Tests see only binaries with few files and one level of merging; no test merges two inputs that both define functions, where ids must be renumbered.",
["src/source.rs","src/inline_origins.rs","src/line.rs","src/object_info.rs","src/symbol.rs"],
[("file id assignment","src/source.rs get_id, get_true_id"),("id remapping on merge","src/source.rs merge, src/inline_origins.rs merge_inline_origins, src/symbol.rs remap_*"),("line ordering","src/line.rs ensure_order, compute_len")],
["records of the dump"])

p("C03","Without inlines every code address gets its outermost source line",
"When inlines are not asked for, looking up any address of a function in the dump gives the source file and line that the debug information assigns to it in that function itself: for code of an inlined call, the place of the outermost call; otherwise the line-table row in force. Compiler-generated rows with line 0 never appear: the preceding line stays in force, and an address before any real line has none.",
["inputs"],"every address of every function of every well-formed DWARF 4/5 module, 32 or 64 bit, little or big endian, and of every PDB",
"Expected files cover a handful of functions; which rows get merged, split or shadowed by inlined calls depends on the layout of the input.",
["src/collector.rs","src/line.rs","src/source.rs"],
[("collecting lines","src/collector.rs collect_function_without_inlines"),("line lengths","src/line.rs compute_len"),("file ids","src/source.rs get_id")],
["line records resolved address by address"])

p("C04","With inlines every code address gets its complete inline stack",
"When inlines are asked for, looking up any address of a function in the dump (line record for the innermost frame, INLINE records for the callers) reproduces exactly the chain of inlined calls of the debug information: for every frame the function name, file and line, innermost to outermost.",
["inputs"],"every address of every function of every well-formed DWARF 4/5 module and PDB, for arbitrarily nested, adjacent, repeated and multi-range inlined calls",
"One small C++ program exercises the splitting of call and self lines; the interval algorithm has many relative positions of rows and calls.",
["src/collector.rs","src/line.rs","src/inline_origins.rs"],
[("self-line / call-line split","src/collector.rs collect_function_with_inlines_recursive"),("merging ranges of one call site","src/line.rs add_inline, ensure_order"),("origins","src/inline_origins.rs get_id")],
["INLINE and line records resolved address by address"])

p("C05","Every function of the debug information appears exactly once",
"For every module, the FUNC records are exactly the functions of the debug information that have code at a non-zero address: one record per contiguous piece of code, at its address relative to the image base and with its size, carrying the name of the function. When several different functions start at one address one record stands for all of them, namely the first, and only then it is marked as standing for multiple symbols. A compilation unit that cannot be read does not take away the functions of the others.",
["inputs"],"every well-formed module: any number of units and functions, split functions, folded functions, any load address, word size and byte order",
"Tests compare fixed binaries at a zero load address; none has split or folded functions.",
["src/collector.rs","src/object_info.rs","src/symbol.rs"],
[("collecting functions","src/collector.rs collect_function(s)"),("one symbol per address","src/symbol.rs Symbols")],
["FUNC records"])

p("C06","Symbols without debug info become PUBLIC records, real names first",
"Every function symbol of the symbol tables (regular, dynamic, or compressed mini-debuginfo) that lies in executable code outside every function with debug information and outside every other symbol appears as a PUBLIC record at its address relative to the image base; symbols inside such functions, data symbols and undefined symbols do not. It is marked as standing for multiple symbols exactly when symbols of different names share its address. The start of each executable section gets a placeholder naming the section when nothing else is there; a placeholder never replaces or hides a real symbol and, like everything else, is relative to the image base.",
["inputs"],"every ELF module: any mix of symbol tables, bindings, sections and load addresses",
"Only position-independent fixtures exist, and all of them have ordinary symbol tables.",
["src/collector.rs","src/symbol.rs","src/object_info.rs"],
[("collecting publics","src/collector.rs collect_publics"),("covering check","src/symbol.rs is_inside_symbol"),("section placeholders","src/symbol.rs add_executable_section_symbols"),("mini-debuginfo","src/symbol.rs get_compressed_minidebuginfo")],
["PUBLIC records"])

p("C07","Names are demangled and cleaned the same way everywhere",
"In ELF and Mach-O modules the text printed for a symbol depends only on its name and language: mangled C++ and Rust names are demangled with parameters and without return type, names of languages without mangling (such as C) are printed verbatim, and in each case compiler-generated suffixes (.cold, .constprop.N, .isra.N, .part.N, .llvm.N, .localalias, .lto_priv.N, .str.N and [clone ...] groups at the end) are removed and the anonymous namespace is spelled (anonymous namespace), while all other text is kept. The same function is printed with the same text as FUNC, as INLINE_ORIGIN and (when its language is recognisable from the name) as PUBLIC; a PUBLIC name that is not recognisably mangled is printed verbatim.",
["inputs"],"every name, language and combination of suffixes",
"Unit tests try five suffix strings and one mangled name on one of the code paths.",
["src/common.rs","src/collector.rs","src/inline_origins.rs"],
[("suffix removal","src/common.rs fix_symbol_name"),("demangling","src/collector.rs demangle, demangle_str; src/inline_origins.rs demangle")],
["names in FUNC, PUBLIC, INLINE_ORIGIN records"])

p("C08","Windows symbols: decorations, parameter sizes, placeholders",
"For PE and PDB inputs, calling-convention decorations of C names (leading underscore, leading underscore or @ with trailing @N, trailing @@N) are removed and N becomes the parameter size of the record, also when it belongs to a function with debug information at that address; Microsoft C++ names are demangled, other names (and all names containing a colon or parenthesis) are left as they are, and compiler constants (??_C strings, __real@, __xmm@ and __ymm@ literals) are never listed. Every function of the exception table of an executable dumped without a PDB that does not start at or inside another function gets a FUNC of its size, named by the symbol at its address or else as unknown in its module, and one final placeholder PUBLIC directly after the last symbol keeps later addresses from being attributed to it.",
["inputs"],"every export or public name, every exception table, 32 and 64 bit",
"The fixtures contain only the decorations that a small set of compilers emitted for a few functions.",
["src/symbol.rs","src/collector.rs"],
[("decoration parser","src/symbol.rs ParsedWinFuncName"),("constants filter","src/symbol.rs should_skip_symbol"),("placeholders","src/collector.rs collect_placeholder_functions; src/symbol.rs append_dummy_symbol_pe_pdb")],
["FUNC and PUBLIC records of PE/PDB dumps"])

p("C09","A stripped file plus its debug file dump like the unsplit binary",
"Dumping a stripped binary together with its separate debug file yields the same module header, files, functions, lines, inlines, public symbols and unwind records as dumping the unsplit binary, whichever file is named first and however many jobs run. Only file ids and the file name inside section placeholders may differ.",
["inputs","configurations","schedules"],"every module split as strip / objcopy --only-keep-debug do it, both orders of the arguments, every job count and schedule",
"Two fixtures in one order each; the order in which the parses finish is never varied.",
["src/object_info.rs","src/dumper.rs","src/source.rs"],
[("merge","src/object_info.rs merge"),("pairing by debug id","src/dumper.rs consumer")],
["dump of the pair compared with the dump of the whole"])

p("C10","Merging never loses or corrupts what the inputs contain",
"When any number of inputs with the same debug id are merged, every address that has a symbol in some input has one in the result unless it lies inside another symbol of the inputs; at one address a function with debug information wins over a plain symbol and a plain symbol over a placeholder. A function taken over keeps its size, its name, and for every address the same source files, lines and inline stacks as in its own input; unwind records and the code id of the inputs (with the name of the executable) are kept, and the module name is that of the stripped input when there is one.",
["inputs","histories","schedules"],"every set of two or more inputs with equal ids and overlapping or disjoint contents, in every order",
"No test merges two inputs that both have debug information, nor three inputs.",
["src/object_info.rs","src/source.rs","src/inline_origins.rs","src/symbol.rs"],
[("merge","src/object_info.rs merge"),("renumbering","src/source.rs merge, src/symbol.rs remap_lines/remap_inlines")],
["merged dump compared with the dumps of its inputs"])

p("C11","A batch stores every module exactly once, as if dumped alone, and ends",
"Given any list of readable inputs and any number of jobs, the program ends, and for each distinct module exactly one symbol file exists in the store afterwards, byte for byte what dumping that module's files in the same order with one job gives; printed to standard output, each module's records form one contiguous block. No schedule of the worker threads loses, duplicates, mixes or blocks a module, nor do several instances of the program that store into one directory at the same time.",
["schedules","inputs","configurations"],"every number of inputs, modules, files per module and jobs, and every interleaving of the workers",
"The only multi-file tests use two files of one module with two jobs, under whatever schedule happens.",
["src/dumper.rs"],
[("work queue and last-file detection","src/dumper.rs consumer, several_files, send_store_jobs, poison_queue"),("pairing by debug id","src/dumper.rs consumer")],
["store directory, stdout, termination of the process"],None,
[("job queue","parse jobs, then dump jobs, then end markers","src/dumper.rs"),("remaining-file counter","elects the worker that starts the dump phase","src/dumper.rs")])

p("C12","A failing input never hangs a batch and never passes as success",
"If any input of a batch cannot be read, parsed, merged or stored, the program still ends, reports the failure on standard error and exits non-zero, whichever input fails, at whatever moment and for any number of jobs. The symbol files it leaves behind for the other modules are complete and correct.",
["fault_sequences","schedules","inputs"],"every position and kind of failing input (missing, unreadable, unknown format, truncated, no unwind data under --check-cfi, unwritable output), every job count and interleaving",
"No test feeds a failing file to a batch.",
["src/dumper.rs","src/main.rs","src/action.rs"],
[("error propagation","src/dumper.rs consumer, several_files"),("exit status","src/main.rs main")],
["exit status, standard error, store directory, termination"])

p("C13","Equal inputs and options give identical bytes",
"Running the program again on the same inputs with the same options produces byte-identical symbol files, whatever the number of jobs, the thread schedule, hash seeds, the working directory (apart from a PDB lying there, which is found for an executable), the form in which the path is given or the environment. Output to a file, to standard output and to a store carries the same bytes.",
["schedules","configurations","histories"],"every accepted set of inputs, repeated runs, any job count and environment",
"Tests run each dump once and compare against one file; hash-map iteration order and completion order vary between runs.",
["src/dumper.rs","src/source.rs","src/object_info.rs"],
[("ordered symbol map","src/symbol.rs Symbols"),("merge order","src/dumper.rs, src/object_info.rs merge"),("file numbering","src/source.rs merge")],
["bytes of repeated runs"])

p("C14","Exit status 0 means the complete output was written",
"A run that exits 0 has written every requested output (file, standard output, store) completely: if any write, open, create or directory operation needed for it fails for good at any point, the program exits non-zero with a message, and a write that is cut short or interrupted is continued until everything is written.",
["fault_sequences"],"every system call on every output, failing with any error or writing only part, for every output kind, alone or in a batch",
"Tests never inject an I/O error; the last buffered block is written after the last check.",
["src/dumper.rs","src/object_info.rs"],
[("writing","src/object_info.rs dump; src/dumper.rs get_writer_for_sym, store")],
["exit status against the bytes on disk, under injected faults"])

p("C15","Store files land at NAME/ID/NAME.sym and never outside the store",
"With a store directory, the symbols of a module named NAME with debug id ID are written to exactly NAME/ID/NAME.sym below it, where .pdb is dropped from the file name and compressed-file extensions (.pd_, .dl_, .ex_) are expanded in the directory name; with an output file as well, both hold the same bytes. Whatever name an input carries, nothing is created or overwritten outside the store directory and the requested output file.",
["inputs","configurations"],"every module name an input can carry, including separators, dots, parent references and empty names; every combination of output options",
"No test uses the store output at all.",
["src/utils.rs","src/dumper.rs","src/object_info.rs"],
[("store path","src/utils.rs get_path_for_sym, get_base; src/dumper.rs store"),("module name","src/object_info.rs file_name_only; src/windows/pdb.rs win_path_file_name")],
["files created by a run (directory trees before and after, traced opens)"])

p("C16","Path mappings rewrite source paths exactly as configured",
"For every source path, the first matching rule decides the FILE text: rules of the mapping file that list this very path first, then the file's general rules, then the command line's, each group in the order given. The text is the rule's destination with {N} replaced by the N-th captured group, {name} by the variable (the command line overriding the file) and {digest}/{DIGEST} by the lower/upper-case SHA-512 of the source file, all other text kept; a rule that uses a group which took no part in the match counts as not matching; a path no rule matches, or whose source file cannot be read for a digest, keeps its own text. Malformed rules or variables are refused with a non-zero exit.",
["inputs","configurations"],"every set of rules, variables and paths",
"One mapping file and six paths are tested, in one order.",
["src/mapping.rs","src/source.rs"],
[("rule compilation and application","src/mapping.rs PathMappingGenerator"),("rule order","src/mapping.rs get_mappings_from_file, get_mappings, map"),("use","src/source.rs get_id")],
["FILE records"])

p("C17","FILE records name the source file the debug information names",
"Every FILE record is the path obtained from the debug information's file entry: an absolute file name or directory is used as is, a relative one is taken relative to its directory entry and that to the compilation directory. For modules of the running platform the path is then normalised: . and .. and repeated separators are resolved, and if the file exists on this machine the record is its real path with symbolic links resolved; for modules of other platforms it is kept as recorded, with that platform's separator. Distinct source files never share a record and one file never has two.",
["inputs","configurations"],"every combination of compilation directory, directory entry and file name, in any encoding, for DWARF 4/5 on Linux and Mac and for PDB on Windows",
"join_paths is tested on a few strings; the full resolution, the file-existence branch and odd encodings are not.",
["src/source.rs","src/platform.rs","src/utils.rs","src/object_info.rs"],
[("path resolution","src/source.rs get_path"),("joining","src/platform.rs"),("normalisation","src/utils.rs normalize_path"),("id cache","src/source.rs get_id")],
["FILE records"])

p("C18","Symbol server and cache yield the right bytes or nothing",
"A file fetched from a symbol server is used and cached only if the server delivered it completely with status 200 and it is not an error page or empty; otherwise the run behaves as if the file did not exist. Every file visible under its final name in the cache is complete at every instant, even if the program is killed or several instances run at once, and a cached file is used without contacting any server, giving the same output as the first run.",
["fault_sequences","crash_points","histories","schedules"],"every server behaviour (status codes, truncation, resets, redirects, plain or cabinet variants, several servers and caches), every point at which the process is killed, and every number of concurrent instances",
"Tests need the real Microsoft server and check only the happy path.",
["src/cache.rs","src/windows/utils.rs","src/dumper.rs"],
[("query and download","src/cache.rs check_data, fetch_data"),("cache write","src/cache.rs copy_in_cache"),("cache lookup","src/cache.rs search_in_cache, search_file")],
["requests seen by a loopback server, cache directory, dump output"])

p("C19","PE and PDB are combined only when they belong together",
"A PDB is dumped with the unwind data, code id and name of a neighbouring executable, and an executable with the functions and lines of a PDB found beside it, at the recorded path, in the current directory or on a symbol server, only if both carry the same debug id; otherwise the file is dumped alone. When a matching partner is present in one of those places it is used, and dumping either of the two files gives the same records.",
["inputs","configurations"],"every arrangement of matching, stale, foreign, corrupt and compressed partner files around the input",
"Two tests cover one matching pair; a stale partner is never present.",
["src/windows/utils.rs","src/dumper.rs"],
[("finding the PE","src/windows/utils.rs find_pe_for_pdb"),("finding the PDB","src/windows/utils.rs get_pe_pdb_buf, try_to_find_pdb, os_specific_try_to_find_pdb")],
["dump output"])

p("C20","The requested architecture of a fat binary is dumped, or none",
"For a Mach-O file with several architectures, exactly the slice of the requested architecture is dumped, with the same records as that slice dumped as a thin file; if it is absent the run fails and writes nothing. A file with a single architecture is dumped whatever was requested, and listing architectures prints precisely those present, in order, and fails when a file cannot be read as one.",
["inputs","configurations"],"every set and order of slices and every requested architecture",
"No Mach-O fixture exists in the test suite.",
["src/mac.rs","src/main.rs","src/action.rs"],
[("slice selection","src/mac.rs from_macho"),("listing","src/mac.rs print_macho_architectures")],
["dump output, stdout, exit status"])

p("C21","The MODULE and CODE_ID records identify the module correctly",
"The MODULE record states the operating system and CPU of the input, the Breakpad debug id derived from its build id / UUID / PDB signature and age (without build id: from its code, so equal for stripped and unstripped copies), and its name: the shared-object or install name recorded in it if there is one, otherwise the PDB name or the file name, without directories. INFO CODE_ID carries the build id, UUID or executable timestamp and size in upper case, followed by the executable's name when known.",
["inputs"],"every format, CPU, byte order, build-id length, recorded name and path",
"The header line is skipped by the ELF tests and fixed for the PE ones.",
["src/object_info.rs","src/platform.rs","src/windows/pdb.rs"],
[("header","src/object_info.rs from_object, Display")],
["MODULE and INFO CODE_ID records"])

p("C22","Unwind records are complete, and --check-cfi refuses modules without",
"The STACK records of a dump describe exactly the unwind entries of the input: one STACK CFI INIT per entry of its unwind tables at the address relative to the image base with the entry's size, followed by the rules that hold at every address inside (the canonical frame address and the saved registers of the unwind program), none invented, duplicated or lost, including when a stripped and a debug file are merged. With --check-cfi a run fails and writes nothing for a module that ends up without unwind records and is unaffected for a module that has some; without the option a lack of unwind records is no error.",
["inputs","configurations"],"every module with any number of unwind entries in .eh_frame or .debug_frame, PE exception tables, merged inputs, with and without the option",
"One test checks the option on one PDB; merged unwind records are never checked.",
["src/object_info.rs","src/dumper.rs"],
[("unwind extraction","src/object_info.rs get_stack_info, merge"),("gate","src/dumper.rs store")],
["STACK records, exit status"])

p("C23","Arbitrary input files never crash, hang or yield a false success",
"For any input bytes, the program ends within time and memory proportionate to the input, either with status 0 and a well-formed dump or with a non-zero status and a message on standard error; it is never ended by a signal or by an internal error (failed index, unwrap or arithmetic) of its own code, and never writes an output file when it reports that the input itself could not be understood. Damage confined to names, debug or symbol sections does not make it print records that are not well formed or refer to undefined ids.",
["inputs"],"every byte sequence, in particular mutations and truncations of valid ELF, PE, PDB, Mach-O and cabinet files",
"Tests feed only intact files.",
["src/dumper.rs","src/utils.rs","src/symbol.rs","src/collector.rs","src/line.rs","src/object_info.rs"],
[("format detection","src/dumper.rs get_object_info"),("error handling","src/main.rs main, panic hook")],
["exit status, signals, CPU time, output"])

p("C24","Wrapped inputs dump exactly like the file they wrap",
"A binary or PDB inside a cabinet, a DWARF file inside a .dSYM bundle, compressed debug sections, and symbols inside a compressed mini-debuginfo section give the same records as the unwrapped equivalent. From a cabinet with several files the one whose name corresponds to the cabinet's is taken; a cabinet or bundle without a usable content is refused.",
["inputs","configurations"],"every wrapper (cabinet layout and compression, bundle layout, section compression) around every module",
"One cabinet and one mini-debuginfo fixture.",
["src/utils.rs","src/symbol.rs","src/dumper.rs"],
[("cabinets","src/utils.rs read_cabinet, get_cabinet_files"),("bundles","src/utils.rs get_mac_bundle"),("mini-debuginfo","src/symbol.rs get_compressed_minidebuginfo")],
["dump of the wrapped and of the plain file"])

p("C25","No undefined behaviour and no data race in any run",
"No run of the program, on valid or damaged input, alone or with many threads, performs an invalid memory access, reads out of bounds or freed memory, creates an invalid string, or races on shared memory.",
["schedules","inputs"],"every input and every interleaving of the worker threads",
"The tests run uninstrumented.",
["src/dumper.rs","src/mapping.rs","src/source.rs","src/utils.rs"],
[("shared state behind locks","src/dumper.rs, src/mapping.rs cache"),("unchecked UTF-8","src/mapping.rs apply"),("pointer-keyed cache","src/source.rs get_id")],
["sanitizer reports"])

p("C26","INFO lines and generator line are emitted exactly as requested",
"Each --extra-info value appears as one INFO line, in the order given, after the CODE_ID line and before everything else, in the symbol file of every module of the run; the generator line naming this program and its version follows them unless --no-generator is given. A value that is not an upper-case keyword followed by text is refused with a non-zero exit before any output is written.",
["configurations","inputs"],"every list of values and every combination with other options and outputs",
"No test passes these options.",
["src/main.rs","src/object_info.rs","src/common.rs"],
[("option handling","src/main.rs get_extra_info"),("output","src/object_info.rs Display")],
["INFO records, exit status"])

p("C27","The library dumps what the program dumps, call after call",
"A program that uses dump_syms as a library gets, from single_file and several_files with some files and settings, exactly the bytes that the command line writes with the same files and settings, at the place its Output names (path, standard output, standard error, store, or file and store), and a call returns Ok exactly when the program would exit with 0. Each call is independent: neither earlier calls, successful or failing, nor calls that other threads make at the same time change its result. Config::with_output stands for one job, inlines, unwind information required, the architecture of the compilation, no server and no mapping.",
["histories","schedules","configurations"],"every sequence and every interleaving of calls in one process, with every settings",
"The tests make one call per test, mostly with private items, and never compare with the program.",
["src/dumper.rs","src/lib.rs","src/main.rs","src/common.rs","src/mapping.rs"],
[("entry points","src/dumper.rs single_file, several_files"),("settings","src/dumper.rs Config, Output, FileOutput"),("command line","src/main.rs main, src/action.rs")],
["the returned value, output files, stores, standard output and standard error of the embedding program"])
p("C28","The effort of a dump grows in proportion to its input",
"When the amount of any kind of content of the input grows fourfold - compilation units, lines of a function, inlined calls and the ranges of one, source files, paths covered by a mapping, distinct inlined functions, symbols of each table (at distinct or equal addresses, inside or outside of functions, of an embedded symbol table), unwind entries, sections, folded functions, components of a path, bytes of a name, the tables of two files of one module, the files of a batch - the CPU time of the dump grows about fourfold and never in proportion to the square. Exempt are the functions of one compilation unit and the depth of nested inlined calls, which the dependency that reads DWARF searches one by one.",
["inputs","sizes"],"every kind of content at sizes as of real browsers (10^4 to 10^6 of it)",
"The tests dump small fixtures and look at no time.",
["src/collector.rs","src/platform.rs","src/windows/pdb.rs","src/line.rs","src/inline_origins.rs","src/object_info.rs","src/source.rs","src/dumper.rs"],
[("collecting","src/collector.rs Collector"),("lines and calls","src/line.rs"),("tables","src/source.rs SourceMap, src/inline_origins.rs"),("merging","src/object_info.rs merge"),("batches","src/dumper.rs several_files")],
["CPU time of the process, records of the output"])
p("C29","Disturbed reading never yields a wrong dump",
"However the bytes of a file arrive - in short or interrupted reads, from a pipe instead of a regular file - the outcome is the same as from one undisturbed read. When opening or reading fails for good, at any point, for a file that the run requires (an input, the content of a bundle, the mapping file, the server configuration), the run exits non-zero with a message and writes nothing for that module; when it fails for a file that the run can do without (an executable or PDB beside the input, a cached file, a source file whose digest is wanted), the outcome is the one without this file. No output is ever made from a part of a file.",
["faults","inputs","schedules"],"every point of failure of every file that is read, every splitting of the reads",
"The tests read complete regular files without faults.",
["src/utils.rs","src/windows/utils.rs","src/cache.rs","src/mapping.rs","src/dumper.rs"],
[("inputs","src/utils.rs read_file, read_cabinet, get_mac_bundle"),("partners","src/windows/utils.rs read_candidate"),("cache and configuration","src/cache.rs search_file, read_config"),("mapping file and digests","src/utils.rs read, src/mapping.rs get_digest")],
["exit status, standard error, outputs"])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
