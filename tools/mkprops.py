#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is maintained here)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Decompressing any bytes never touches memory outside the two buffers",
  "Whatever bytes are given to the bundled gzip/deflate decompressor and whatever output size is declared, it reads only inside the input, writes only inside the declared output, performs no undefined arithmetic, and returns. "
  "The checksum routine reads exactly the bytes it is given.",
  ["inputs"], "all byte strings as compressed input, all declared output sizes, all split positions of both buffers",
  "The muntar tests decompress a handful of well-formed archives produced by gzip; malformed streams, truncated input and tight output buffers are never tried, and memory errors there are silent.",
  ["src/tinflate.c", "src/tinfgzip.c"],
  [("bit reader never passes the end of the source", "src/tinflate.c tinf_refill"),
   ("window/overrun tests before literals, matches and stored blocks are copied", "src/tinflate.c tinf_inflate_block_data, tinf_inflate_uncompressed_block"),
   ("code-length table checks", "src/tinflate.c tinf_build_tree, tinf_decode_trees"),
   ("header walk bounded by the source length", "src/tinfgzip.c tinf_gzip_uncompress")],
  [("decoder state", "source/dest cursors, bit buffer, two code trees", "src/tinflate.c struct tinf_data")],
  ["return codes and buffers of tinf_uncompress / tinf_gzip_uncompress"])

p("C02", "Gzip data is accepted only if header, length and checksum all match",
  "Decompressing a gzip file reports success only when the magic number, method, flags and optional header checksum are valid, the output length equals the length stored in the trailer and the output's CRC-32 equals the CRC stored in the trailer; every other input is reported as an error. "
  "The optional header fields (extra field, name, comment, header checksum) are skipped exactly, and the CRC computed for any byte string is the standard reflected CRC-32.",
  ["inputs"], "all byte strings presented as a gzip file; all byte strings and lengths for the checksum",
  "Tests only unpack intact archives, so an integrity check that was dropped, weakened or computed over the wrong range would never be noticed.",
  ["src/tinfgzip.c", "src/tinflate.c"],
  [("header, flag and trailer validation", "src/tinfgzip.c tinf_gzip_uncompress"),
   ("table-driven CRC-32", "src/tinfgzip.c tinf_crc32")])

p("C03", "Deflate streams decode to exactly the bytes RFC 1951 assigns them",
  "For every deflate stream the decompressor delivers exactly the bytes that RFC 1951 defines: bits are taken least-significant first, codes are canonical, length and distance codes have their standard base and extra bits, matches may overlap their own output, and stored blocks are copied verbatim. "
  "Streams that RFC 1951 does not allow (bad block type, over- or under-subscribed codes, missing end-of-block code, distance before the start of the output, truncated data) are rejected.",
  ["inputs"], "all bit streams, all dynamic code-length tables, all match lengths and distances",
  "The archives in the test-suite exercise a few code tables and match shapes; most of the 30 length codes, 30 distance codes and repeat codes, and every rejection path, are never sampled.",
  ["src/tinflate.c"],
  [("bit extraction", "src/tinflate.c tinf_refill, tinf_getbits_no_refill, tinf_getbits_base"),
   ("canonical code construction and decoding", "src/tinflate.c tinf_build_tree, tinf_decode_symbol, tinf_build_fixed_trees"),
   ("dynamic code lengths", "src/tinflate.c tinf_decode_trees"),
   ("literal/match/stored copy", "src/tinflate.c tinf_inflate_block_data, tinf_inflate_uncompressed_block, tinf_uncompress")])

p("C04", "A tar header is accepted only if genuine and is decoded faithfully",
  "A 512-byte tar header is accepted only when it carries the ustar magic and its stored checksum equals the sum of its bytes with the checksum field counted as blanks; otherwise it is not accepted: a checksum mismatch is reported as such, and a header with an empty checksum field ends the archive. "
  "Size, mode, owner, time and type of an accepted header equal the values its octal fields denote, name and link name equal the header's strings and are always terminated, and no byte outside the header is read.",
  ["inputs"], "all 512-byte headers, including unterminated fields and arbitrary padding",
  "Tests unpack archives written by one tar program; damaged headers, full-width names, unterminated or oddly padded octal fields never occur in them.",
  ["src/muntar.c", "src/muntar.h"],
  [("octal field decoder", "src/muntar.c decodeTarOctal"),
   ("checksum over the raw header", "src/muntar.c checksum"),
   ("header conversion and validation", "src/muntar.c raw_to_header, mtar_read_header")])

p("C05", "Walking and unpacking an archive stays inside it and always finishes",
  "Walking an archive held in memory never reads a byte outside the archive, always moves forward by the member's size rounded up to whole 512-byte blocks, and finishes for every archive content. "
  "Each regular member is written out with exactly its size and its bytes, data that is cut short is reported as an error, and the overall result is success only if every member was processed.",
  ["inputs", "fault_sequences"], "all archive byte strings and lengths, all size fields, all failures of directory and file creation and writing",
  "Tests unpack a few intact archives; a size field beyond the end of the archive, a truncated archive or a failing write needs crafted input or fault injection.",
  ["src/muntar.c", "src/muntar.h"],
  [("bounded copy out of the archive buffer", "src/muntar.c mtar_read, mtar_read_header"),
   ("advance to next member", "src/muntar.c mtar_next"),
   ("member loop and file creation", "src/muntar.c muntar_to_path, has_parent_segment")])

p("C06", "Unpacking an archive never creates anything outside the target directory",
  "Unpacking an archive into a directory creates and writes only paths made of that directory's own path, a separator and the member name, and refuses every member whose name could climb out of the directory through a parent-directory segment. "
  "Nothing is created for a refused member, or for members of types other than regular file and directory.",
  ["inputs"], "all member names (any bytes, any length up to the field width), all member types and all target directory names",
  "Tests unpack well-behaved archives only; hostile member names are never tried.",
  ["src/muntar.c", "src/muntar.h"],
  [("destination path construction and member filtering", "src/muntar.c muntar_to_path, has_parent_segment")])

p("C07", "Path functions never write past the caller's buffer and report exact lengths",
  "For every path and every output buffer size, including zero, the path functions write only inside the buffer, leave it NUL-terminated whenever it has room for at least one byte, and return the full length of the result whether or not it fitted. "
  "The bytes that did fit are a prefix of the full result.",
  ["inputs"], "all path strings, all buffer sizes from zero upwards, both path styles",
  "Tests reach these functions only through a few short file names with large buffers; exact-fit, off-by-one and zero sizes are never used.",
  ["src/cwalk.c", "src/cwalk.h"],
  [("clipped output primitives", "src/cwalk.c cwk_path_output_sized, cwk_path_output_current, cwk_path_output_back, cwk_path_output_dot, cwk_path_output_separator"),
   ("terminating the output", "src/cwalk.c cwk_path_terminate_output"),
   ("join/normalise/relative/change_* assemble their results from the primitives", "src/cwalk.c")])

p("C08", "Path segments, base name, directory, extension and root are located exactly",
  "For every path string the segment iterator visits exactly the maximal runs of non-separator characters after the root, in order and in both directions, and each segment is classified as current, parent or normal. "
  "Base name, directory name length, extension and root reported for a path agree with that decomposition, a path is absolute exactly when it has a non-relative root, and all returned pointers lie inside the given string.",
  ["inputs"], "all strings as paths, unix and windows style",
  "The existing tests never call the path library directly; it is only used on a few plain relative and absolute file names.",
  ["src/cwalk.c", "src/cwalk.h"],
  [("segment scanning", "src/cwalk.c cwk_path_find_next_stop, cwk_path_find_previous_stop, cwk_path_get_first_segment, cwk_path_get_next_segment, cwk_path_get_previous_segment, cwk_path_get_last_segment"),
   ("component queries", "src/cwalk.c cwk_path_get_basename, cwk_path_get_dirname, cwk_path_get_extension, cwk_path_get_root, cwk_path_is_absolute")])

p("C09", "The dynamic array keeps every element, in order, with its own copy",
  "After any sequence of creating, adding, inserting, removing and deleting, the dynamic array used for source files, libraries and search paths holds exactly the elements a list would hold, in the same order, each a private copy of the bytes given, and never writes outside its own storage. "
  "Looking up an index in range returns that element and an index out of range is reported as an error, and growing never loses or alters elements.",
  ["inputs", "histories"], "all element contents and sizes, all lengths and capacities, all operation histories via the representation invariant",
  "Tests pass at most a few files or libraries, which stays below the first growth step of the array and never uses removal or insertion.",
  ["src/array.c", "src/array.h"],
  [("representation invariant: used <= capacity, live pointers below used", "src/array.c"),
   ("growth", "src/array.c XArray_Add, XArray_Realloc"),
   ("element shifting", "src/array.c XArray_Insert, XArray_Remove, XArray_Delete")],
  [("array header", "element table, used count, capacity, growth policy", "src/array.h")])

p("C10", "Command line: every word reaches its destination, program arguments intact",
  "Every word after a lone -- reaches the executed program unchanged, in order and complete, and every file name before it is loaded as a source, whatever their number. "
  "Of the words before it, only the gcc flags in cjit's ignore table (with the value word a table entry takes) are dropped; no other option, option value or file name is lost, duplicated or reordered, and -D definitions split at the first equals sign into name and value.",
  ["inputs"], "all argument vectors of any length and content",
  "The CLI tests use a dozen fixed command lines; combinations of several files, ignored flags and program arguments are never sampled.",
  ["src/main.c", "src/cjit.c", "src/ketopt.h"],
  [("filtering of ignored flags", "src/main.c remove_args"),
   ("-- handling and file list", "src/main.c main"),
   ("-D parsing", "src/main.c parse_value")])

p("C11", "Diagnostics of any length are emitted whole-line and never corrupt memory",
  "Printing an informational or error message writes exactly the formatted text followed by one newline, cut to the internal buffer when it is too long, and never writes outside that buffer, for messages of every length. "
  "A formatting failure never produces stray memory contents.",
  ["inputs"], "all format results: every length from zero upwards and failure of the formatter",
  "Tests only print short messages; only messages longer than the internal buffer can overflow it.",
  ["src/cjit.c"],
  [("formatting into a fixed buffer and terminating the line", "src/cjit.c _out, _err")])

p("C12", "The program runs exactly once and its exit status becomes cjit's",
  "When execution is requested the compiled program's entry point is called exactly once with exactly the argument vector given to it, in a child process when supported, and the value reported is the child's exit status, or the signal number when it was killed by a signal. "
  "Failure to link, to find the entry point, to create the process or to wait for it is reported as a failure and never as success, and when a pid file is requested it holds the process id.",
  ["inputs", "fault_sequences"], "all exit statuses and terminating signals, all failures of symbol lookup, process creation and waiting",
  "Tests see a few exit codes; failing system calls and killed children cannot be provoked from the test scripts.",
  ["src/cjit.c", "src/main.c"],
  [("entry lookup, fork, wait, status mapping", "src/cjit.c cjit_exec"),
   ("propagation to the process exit code", "src/main.c main")])

p("C13", "Every failed step makes cjit fail: no silent success",
  "If a source file is missing or unreadable, does not compile, cannot be linked or its output cannot be written, or an archive cannot be unpacked, cjit exits with a non-zero status and does not run the program. "
  "A zero exit status of a compile, link or extract command means that every named input was processed without error.",
  ["inputs", "fault_sequences"], "all command lines and every combination of failing compiler, linker and file-system steps",
  "Tests check a couple of failing commands; the many places where a step's result must be looked at cannot be enumerated by scripts.",
  ["src/main.c", "src/cjit.c", "src/muntar.c"],
  [("result propagation", "src/main.c main"),
   ("compile, link, add-source steps", "src/cjit.c cjit_add_file, cjit_add_source, cjit_add_buffer, cjit_link, cjit_compile_file")])

p("C14", "Source text reaches the compiler byte for byte",
  "The text handed to the compiler for a file (after the #line directive naming it) or for standard input is exactly the bytes that were read, terminated, with no bytes added, dropped or reordered, whatever their number and whatever the sizes in which they arrive. "
  "Files starting with a UTF-8 or UTF-16 byte-order mark are refused, read errors and short reads are reported instead of compiling partial text, and no memory outside the buffers is touched.",
  ["inputs", "fault_sequences"], "all file contents and sizes, all chunkings of standard input, all failures of opening, seeking and reading",
  "Tests compile a few small regular files and a one-line standard input; long input, pipes and short reads are not exercised.",
  ["src/file.c", "src/cjit.c"],
  [("loading a file", "src/file.c file_load, src/cjit.c cjit_add_source"),
   ("loading standard input", "src/file.c load_stdin"),
   ("byte-order mark detection", "src/cjit.c detect_bom")])

p("C15", "Library names resolve to the first real match along the search path",
  "A library requested by name is taken from the first search directory that provides it, symbolic links are followed to the file they really designate, and linker scripts contribute every file they list; a library that is nowhere to be found is reported as missing. "
  "Reading linker scripts and loader configuration never reads outside the text and splits it into exactly its words.",
  ["inputs", "configurations"], "all directory layouts, link targets, linker-script texts and library names",
  "Tests link against one or two system libraries in their usual place; other layouts and script contents depend on the machine and are never sampled.",
  ["src/elflinker.c", "src/cjit.c"],
  [("search order", "src/elflinker.c find_library, resolve_libs"),
   ("symlink resolution", "src/elflinker.c new_solve_symlink"),
   ("script tokenizer and interpreter", "src/elflinker.c ld_next, ld_load_file, ld_add_file, load_ldscript"),
   ("ld.so.conf reader", "src/elflinker.c read_ldsoconf")])

p("C16", "Static archives are read and written without corrupting memory or members",
  "Creating, listing and extracting a static archive copies each member's bytes exactly, its symbol index names exactly the defined global symbols with the offset of their member, and malformed archives or object files lead to an error. "
  "No archive or object file content makes the tool access memory outside its buffers.",
  ["inputs"], "all archive and object file contents, all member counts and name lengths",
  "No existing test runs the archiver on anything but well-formed objects.",
  ["src/cjit-ar.c"],
  [("archive tool", "src/cjit-ar.c tcc_tool_ar"),
   ("symbol name matching", "src/cjit-ar.c contains_any"),
   ("number encoding", "src/cjit-ar.c le2belong")])

p("C17", "Runtime arithmetic helpers return the exact result for every argument",
  "The helper functions that compiled programs call for find-first-set, leading and trailing zeros, redundant sign bits, population count and parity return the mathematically defined result for every argument of every width. "
  "Conversions between floating point and 64-bit integers truncate toward zero or round as C requires for every in-range value, fetching the next variable argument returns the correct slot for every class of argument, and atomic read-modify-write helpers apply exactly their operation.",
  ["inputs"], "all 2^32 / 2^64 arguments of each helper; all in-range floating point values; all variadic register states",
  "Tests evaluate the helpers on a few constants; their lookup tables and masks have entries no test reaches.",
  ["lib/tinycc/lib/builtin.c", "lib/tinycc/lib/libtcc1.c", "lib/tinycc/lib/va_list.c", "lib/tinycc/lib/stdatomic.c"],
  [("bit-counting tables", "lib/tinycc/lib/builtin.c"),
   ("64-bit/float conversions", "lib/tinycc/lib/libtcc1.c __fixunssfdi, __fixunsdfdi, __fixunsxfdi, __fixsfdi, __fixdfdi, __fixxfdi, __floatundisf, __floatundidf, __floatundixf"),
   ("variadic argument slots", "lib/tinycc/lib/va_list.c __va_arg")])

p("C18", "Integer constant expressions fold to what the program would compute",
  "Whenever the compiler evaluates an integer operation at compile time, the constant it produces equals the value the same operation has at run time for the operand type: two's-complement wrap-around, sign- or zero-extension to the type's width, truncating division, and signed or unsigned comparison and shift according to the type. "
  "Division by a constant zero in a constant expression is diagnosed, and algebraic simplifications never change the value.",
  ["inputs", "programs"], "all pairs of 64-bit constant operands, all operators, all integer widths and signedness",
  "The compiler tests evaluate a fixed list of constant expressions; boundary values and operator/width combinations cannot be enumerated.",
  ["lib/tinycc/tccgen.c"],
  [("integer constant folding", "lib/tinycc/tccgen.c gen_opic, gen_opic_sdiv, gen_opic_lt, value64"),
   ("constant casts", "lib/tinycc/tccgen.c gen_cast")])

p("C19", "Relocated code and data hold exactly the ABI-defined values",
  "Every relocation applied when a program is placed in memory or linked changes exactly the bytes of its field and stores the value the x86-64 ELF ABI defines for its type, and a value that does not fit its field is reported as an error. "
  "Reading and writing of multi-byte fields is little-endian and touches nothing else.",
  ["inputs", "programs"], "all relocation types supported, all symbol values, addends, addresses and previous field contents",
  "Tests run programs whose addresses happen to be close together; overflow, negative displacement and rarely used relocation types are not reached.",
  ["lib/tinycc/x86_64-link.c", "lib/tinycc/tcc.h"],
  [("applying a relocation", "lib/tinycc/x86_64-link.c relocate"),
   ("classification of relocations", "lib/tinycc/x86_64-link.c code_reloc, gotplt_entry_type"),
   ("field access", "lib/tinycc/tcc.h read16le, write16le, read32le, write32le, add32le, read64le, write64le, add64le")])

p("C20", "The compiler's growing buffers never lose, move past or overrun data",
  "Reserving and appending to the compiler's output sections, strings, symbol-name tables and pointer lists returns correctly aligned, in-bounds, zero-filled or exactly-copied space, leaves all earlier contents unchanged, and grows whenever the capacity would be exceeded. "
  "Bounded string copies and concatenations never write past the given size and always terminate.",
  ["inputs", "histories"], "all sizes, alignments, capacities and contents; any history through the representation invariant",
  "Test programs are small, so most growth boundaries, exact-fit sizes and alignments are never hit.",
  ["lib/tinycc/tccelf.c", "lib/tinycc/libtcc.c", "lib/tinycc/tccpp.c"],
  [("section growth", "lib/tinycc/tccelf.c section_add, section_ptr_add, section_realloc, section_reserve, put_elf_str"),
   ("string and pointer buffers", "lib/tinycc/tccpp.c cstr_ccat, cstr_cat, cstr_wccat; lib/tinycc/libtcc.c dynarray_add"),
   ("bounded string helpers", "lib/tinycc/libtcc.c pstrcpy, pstrcat, pstrncpy")])

p("C21", "Symbol definitions resolve by the ELF rules: strong, weak, undefined, common",
  "When several objects define or reference the same global name, the resulting symbol is the strong definition if there is one, otherwise a weak or tentative definition, and stays undefined only if nobody defines it; two strong definitions are reported as an error. "
  "A symbol entered in a symbol table is found again by its name, and lookups of absent names find nothing.",
  ["inputs", "histories"], "all combinations of binding, visibility, section and value of an existing and a new symbol; all table contents",
  "Tests link two or three objects in simple combinations; the many binding/visibility/section combinations are not covered.",
  ["lib/tinycc/tccelf.c"],
  [("merging a definition", "lib/tinycc/tccelf.c set_elf_sym"),
   ("hash table insert, rebuild and lookup", "lib/tinycc/tccelf.c put_elf_sym, rebuild_hash, find_elf_sym, elf_hash")])

p("C22", "Literals in source text get exactly the value and type C assigns them",
  "Every integer literal in decimal, octal, hexadecimal or binary notation, with any suffix, denotes exactly its mathematical value and the first type of the C rules that can hold it, and a literal too large for any type is diagnosed. "
  "Every escape sequence in a character or string literal denotes exactly the code C assigns it.",
  ["inputs", "programs"], "all digit strings, bases, suffixes and escape sequences",
  "The lexer tests use a fixed list of literals; boundary values of each type, base and suffix combination are not enumerated.",
  ["lib/tinycc/tccpp.c"],
  [("number parsing", "lib/tinycc/tccpp.c parse_number"),
   ("escape sequences", "lib/tinycc/tccpp.c parse_escape_string"),
   ("character constants", "lib/tinycc/tccpp.c parse_string")])

p("C23", "An interrupted or concurrent first run never leaves cjit with a broken toolbox",
  "If cjit is killed while unpacking its built-in headers and runtime, or two instances start at once, a later start still finds a complete toolbox and compiles programs as usual.",
  ["crash_points", "schedules"], "all kill points during the first start and all interleavings of concurrent starts",
  "Tests always start from a complete or an empty temporary directory and run one instance at a time.",
  ["src/cjit.c", "build/embed-asset-path.sh"],
  [("creation and population of the temporary directory", "src/cjit.c cjit_mkdtemp, cjit_setup")])

p("C24", "Compiled programs behave as the C standard says",
  "For every strictly conforming C program that cjit accepts, running it produces the observable behaviour the C standard prescribes.",
  ["programs"], "all C programs",
  "The test-suite runs a fixed set of about a hundred programs.",
  ["lib/tinycc/tccgen.c", "lib/tinycc/x86_64-gen.c", "lib/tinycc/tccpp.c"],
  [("code generation", "lib/tinycc/tccgen.c, lib/tinycc/x86_64-gen.c")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
