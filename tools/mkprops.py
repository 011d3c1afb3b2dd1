#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [{"name": a, "meaning": b, "where": c} for a, b, c in (state or [])],
                  "mechanism": [{"name": a, "where": b} for a, b in mech],
                  "observe_at": observe, "hook_needed": None}})

TESTS = "The suite links two one-file C programs and looks only at their exit code, plus five linker-script strings and one two-symbol hash table; "

p("L01", "Every reference is bound to the address of its definition",
  "In every successful link, each relocated field of every loadable input section holds, in the process image, exactly the value the x86-64 psABI prescribes for that relocation type (R_X86_64_64, 32, 32S, PC32, PLT32 and NONE), the address of the definition its symbol resolves to, its addend and its own place. This holds for references through named symbols (global, weak, file-local), section symbols, absolute symbols and the null symbol, wherever the definition sits (same section, another section, another object, an archive member), and whatever order the object file lists its sections, relocation sections and symbols in.",
  ["inputs", "programs"], "all sets of relocatable objects and archive members with any sections, symbols, relocations and addends within the range of the fields",
  TESTS + "they contain one user relocation each, so definitions at non-zero offsets, in other files or behind a section symbol are never checked.",
  ["src/elf/chunk.rs", "src/elf/section.rs", "src/elf.rs", "src/lib.rs"],
  [("apply_relocation", "src/elf/chunk.rs"), ("patch_symbol_values", "src/elf/section.rs"), ("process_relocations", "src/lib.rs"), ("handle_relocations", "src/elf.rs")],
  ["bytes of the loaded segments of the output"], [("relocations", "pending (relocation, symbol) pairs per section contribution", "src/elf/chunk.rs")])

p("L02", "Section contents reach memory intact, in order, once, and protected",
  "Every loadable section of every linked object appears exactly once in the process image, byte for byte as in the input except for relocated fields, without overlapping any other contribution, header or table. The memory it occupies is readable, and it is writable (executable) exactly if a part of that name is writable (executable) in some linked object. What lies between contributions to one section is zero (in executable sections it may be padding of any kind). Contributions to the same-named output section from explicitly named object files are laid out in command-line order.",
  ["inputs", "programs"], "all sets of objects with any mix of section names, types, flags, sizes and alignments",
  TESTS + "a byte lost, moved or shared in any section that main does not execute goes unnoticed.",
  ["src/elf.rs", "src/elf/section.rs", "src/lib.rs"],
  [("add_section", "src/elf.rs"), ("generate_program_headers / get_load_program_header / sort_sections", "src/elf.rs"), ("write_to_disk", "src/elf.rs")],
  ["loaded segments of the output"], [("file_offset / p_vaddr", "running file offset and virtual address", "src/elf.rs")])

p("L03", "Alignment requirements of input sections are honoured",
  "In every successful link, every contribution of a loadable input section starts at a virtual address that is a multiple of that input section's alignment, for every power-of-two alignment (also beyond the page size), wherever the contribution falls in its output section and segment. Output section headers state an alignment at least as large as that of every contribution, and their own address is a multiple of it.",
  ["inputs", "programs"], "all mixes of section sizes and alignments (1 to beyond 64 MiB) over any number of objects",
  TESTS + "misaligned data is only visible to instructions or checks these programs do not contain.",
  ["src/elf.rs", "src/elf/section.rs"],
  [("add_section (max of sh_addralign, chunk placement)", "src/elf.rs"), ("generate_program_headers", "src/elf.rs"), ("set_address", "src/elf/section.rs")],
  ["addresses of the contributions in the loaded image", "section headers"])

p("L04", "Symbol binding rules decide which definition wins",
  "A reference by name resolves to the only strong global definition among the linked objects, otherwise to the common symbol of that name if there is one (one storage, as large and as aligned as its largest declaration, and within reach of near code unless all declarations allow it to be far away), and otherwise to the first weak definition in command-line order; a symbol local to one object is seen only by that object's own references, even when other objects use the same name locally or globally. The order in which definitions and references are met does not matter, and losing definitions keep their own storage and disturb no other symbol.",
  ["inputs", "histories"], "all combinations and orders of strong, weak, undefined and local symbols of the same names over any number of objects",
  TESTS + "no name is defined or referenced twice across files.",
  ["src/elf/symbol_table.rs", "src/symbol.rs", "src/elf.rs", "src/lib.rs"],
  [("SymbolTable::add_symbol", "src/elf/symbol_table.rs"), ("higher_bind_than", "src/symbol.rs"), ("add_symbol_inner", "src/elf.rs")],
  ["values of relocated fields", ".symtab of the output"], [("symbols", "name -> current winner", "src/elf/symbol_table.rs")])

p("L05", "Two strong definitions of one name are rejected, nothing else is",
  "If two linked objects both define the same global symbol strongly, the link fails with a non-zero exit status and a diagnostic naming the symbol, whatever the order of the inputs, the kinds of the two symbols, their sections and any intervening references or weak definitions. Any combination of at most one strong definition with weak definitions, references and file-local symbols of the same name is accepted. An object file that is named twice on the command line is linked twice.",
  ["inputs", "histories"], "all orders and mixtures of definitions of the same name over any number of objects and archive members",
  TESTS + "none has a duplicate definition.",
  ["src/elf/symbol_table.rs", "src/elf.rs"],
  [("SymbolTable::add_symbol -> AlreadyDefined", "src/elf/symbol_table.rs")],
  ["exit status", "stderr"])

p("L06", "A link succeeds only if every strong reference is satisfied",
  "If a strong reference is satisfied by no linked object, archive member or shared library given, the link fails with a non-zero exit status and a diagnostic that names every such symbol and no satisfied one; a shared library's own unsatisfied references satisfy nobody. If all strong references are satisfied the link succeeds. A weak reference that nobody satisfies is not an error and its address is zero.",
  ["inputs", "programs"], "all sets of objects, archives and shared libraries with any pattern of satisfied and unsatisfied strong and weak references",
  TESTS + "they contain no unsatisfied reference and only two imports.",
  ["src/lib.rs", "src/elf.rs"],
  [("link / undefined_symbols", "src/lib.rs, src/elf.rs"), ("find_undefined_symbols_in_libs", "src/lib.rs")],
  ["exit status", "stderr", "values of relocated fields"])

p("L07", "Archives contribute exactly the members that are needed",
  "From the archives given, exactly those members are linked that define a symbol some already linked object references strongly and that nothing else provides, transitively, regardless of where the archive stands among the inputs, how many members and archives the chain of references crosses, or cyclic references between archives. This holds for archives in the formats of System V and BSD alike. If several archives or members define such a symbol, the first archive on the command line and its first member in archive order provides it. Each member is linked at most once and members that are not needed contribute nothing.",
  ["inputs", "programs"], "all reference graphs over objects and members of any number of archives, including chains, cycles, unused members, long member names",
  TESTS + "archives appear only through libgcc.a and libc_nonshared.a, from which next to nothing is taken.",
  ["src/lib.rs", "src/main.rs"],
  [("process_archives_containing", "src/lib.rs"), ("link fixpoint loop", "src/lib.rs")],
  ["section contributions in the output", "exit status"])

p("L08", "Calls and pointers to shared-library functions reach those functions",
  "Once the dynamic loader has processed the output, every call, jump, GOT load and stored pointer that refers to a function imported from a shared library leads to that library's function, both when the loader binds everything up front and when it binds lazily on first call. All stored pointers to one imported function compare equal across the program and with the address the loader reports to the libraries. Distinct imported functions never share a stub, slot or relocation.",
  ["programs", "inputs", "schedules"], "all numbers and mixtures of imported functions and ways of referring to them (direct call, indirect call through the GOT, address stored in data, address in code), over any libraries and hash styles, under both binding modes",
  TESTS + "printf.c imports two functions, each used in one way.",
  ["src/elf/plt.rs", "src/elf.rs", "src/elf/chunk.rs"],
  [("scan_relocations", "src/elf.rs"), ("patch_plt_and_got_plt", "src/elf.rs"), ("Plt::expand", "src/elf/plt.rs"), ("assign_section_addresses (rela.dyn, rela.plt)", "src/elf.rs")],
  ["memory image after a model of the dynamic loader has run", "real execution"], [("got_plt", "symbol -> slot", "src/elf.rs"), ("plt_rels / dyn_rels", "dynamic relocations", "src/elf.rs")])

p("L09", "A variable imported from a shared library has one shared storage",
  "For every data object imported from a shared library, the output reserves storage at least as large and as aligned as the object in the library's image requires, overlapping nothing else, has the loader copy the library's initial contents there, and exports the object so that the library's own references bind to that storage. Every reference in the program, direct or through the GOT, uses that one address, and if the object has several names (like environ and __environ), all of them, in the program and in the libraries, stand for the same storage.",
  ["programs", "inputs"], "all numbers, sizes and mixes of imported objects and ways of referring to them, with all hash styles",
  TESTS + "neither program imports a data object.",
  ["src/elf/copy_rel.rs", "src/elf.rs", "src/elf/symbol_table.rs"],
  [("CopyRel::insert", "src/elf/copy_rel.rs"), ("assign_section_addresses", "src/elf.rs"), ("update_object_symbols", "src/elf/symbol_table.rs")],
  ["memory image after a model of the dynamic loader has run", "dynamic symbol table", "real execution"])

p("L10", "Dynamic symbol hash tables find every symbol and nothing else",
  "In every output, looking up the name of any dynamic symbol by the standard algorithm through each hash table present finds that symbol, and looking up any other name terminates without a match. Exactly the tables asked for with --hash-style (sysv, gnu, or both, which is the default) are present and announced in the dynamic section.",
  ["inputs", "configurations"], "all sets of imported symbol names (any number, length and bytes, including colliding hashes) and all hash styles",
  TESTS + "the one hash-table test has two symbols, a single bucket and a single filter word.",
  ["src/elf/symbol_table.rs", "src/name.rs", "src/serialize.rs"],
  [("GnuHashTable::add_symbols / HashTable::add_symbols", "src/elf/symbol_table.rs"), ("elf_hash / elf_gnu_hash", "src/name.rs"), ("sorted (dynsym order)", "src/elf/symbol_table.rs")],
  [".hash, .gnu.hash, .dynsym of the output"])

p("L11", "Every output is a well-formed, loadable ELF executable",
  "Every successful link produces a file with mode 0755, whatever the umask, that is a valid little-endian x86-64 ELF executable: all header, table, section and segment extents lie inside the file and do not collide, loadable segments are in ascending order, do not share pages, are no more than the system accepts, lie within the 47-bit address space of programs, and are congruent to their file offsets modulo the page size, every allocated section lies in exactly one loadable segment at matching offset and address, and section names and links are valid. The entry point is the address of _start, the program header, interpreter and dynamic segments describe the structures they name, and the interpreter is the requested one.",
  ["inputs", "programs", "configurations"], "all sets of inputs and options that link",
  TESTS + "the kernel and loader accept two particular layouts; other section mixes, sizes and counts are never laid out.",
  ["src/elf.rs", "src/serialize.rs", "src/elf/section.rs"],
  [("compute_sections / write_to_disk", "src/elf.rs"), ("generate_program_headers / count_program_headers", "src/elf.rs"), ("Serialize impls", "src/serialize.rs"), ("section_cmp", "src/elf.rs")],
  ["ELF header, program headers, section headers of the output"])

p("L12", "The output symbol table tells the truth",
  "In every output's symbol table each resolved name that the linked objects define globally or weakly appears exactly once, with the final address, size, type and binding of the winning definition and the index of the section containing it, and each named local definition appears with its final address. All local symbols precede the first non-local one, whose index is recorded in the section header.",
  ["inputs", "programs"], "all sets of objects with any mixture of symbols",
  TESTS + "nothing reads the symbol table.",
  ["src/elf/symbol_table.rs", "src/elf/section.rs", "src/elf.rs"],
  [("SymbolTable::chunk / sorted / num_locals", "src/elf/symbol_table.rs"), ("patch_symbol_values", "src/elf/section.rs")],
  [".symtab and .strtab of the output"])

p("L13", "The dynamic section names what the program needs",
  "The dynamic section lists each shared library that satisfies a strong reference of the program, and each library given while --as-needed is not in force, exactly once, under its soname if it has one and its file name otherwise, in command-line order; a library given under --as-needed that satisfies nothing is not listed. All other entries (string, symbol and hash tables, relocation tables with their sizes, procedure linkage slots) give the addresses and sizes of the structures they describe, and the section ends with a null entry.",
  ["inputs", "configurations"], "all sets of shared libraries with and without soname, used or unused, in any order, under any interleaving of --as-needed and --no-as-needed",
  TESTS + "only libc is ever needed.",
  ["src/elf.rs", "src/lib.rs", "src/main.rs"],
  [("add_needed / add_dyn_entries / try_add_dyn_entries", "src/elf.rs"), ("find_undefined_symbols_in_libs", "src/lib.rs")],
  [".dynamic of the output"], [("dyn_entries", "dynamic tags collected so far", "src/elf.rs")])

p("L14", "Initialisers and finalisers are complete, ordered and announced",
  "All pointers contributed to .init_array (and likewise .fini_array) by linked objects form one contiguous table, those of the parts with a priority (.init_array.N) first in ascending order of priority, the others (.init_array, .init_array.NAME) in command-line order; those contributed to .preinit_array form one as well. It is these tables, and no other section of their type, whose address and size are given by the dynamic section, and the bounds of the first two are the values of __init_array_start/__init_array_end (__fini_array_start/__fini_array_end) when these are referenced. The .init and .fini fragments are joined in command-line order with nothing executable other than no-ops between them, and their addresses are announced in the dynamic section.",
  ["inputs", "programs"], "all numbers and sizes of contributions over any number of objects",
  TESTS + "the C start files contribute one pointer each and no test has a constructor or looks at the order.",
  ["src/elf.rs"],
  [("handle_special_symbols", "src/elf.rs"), ("try_add_dyn_entries / dyn_entries", "src/elf.rs"), ("add_section", "src/elf.rs")],
  ["loaded image", ".dynamic", "real execution"])

p("L15", "Linker scripts mean the inputs they list, however they are written",
  "A text input consisting of comments, OUTPUT_FORMAT and GROUP commands, with any white space, line breaks and comments between the commands and any white space inside them, and file names of letters, digits and any of -._/+~, contributes exactly the files and libraries its GROUPs list, those inside AS_NEEDED under --as-needed, found like command-line inputs. A script that cannot be understood makes the link fail with a non-zero exit status; no text input makes the linker run forever.",
  ["inputs"], "all scripts of that grammar with any layout, and all other texts",
  TESTS + "five fixed scripts are parsed.",
  ["src/linker_script.rs", "src/main.rs"],
  [("parse", "src/linker_script.rs"), ("script loop of main", "src/main.rs")],
  ["DT_NEEDED entries and linked contributions of the output", "exit status"])

p("L16", "Command-line options and library search behave as documented",
  "Any command line built from the documented options, in any order and in either spelling (-L DIR or -LDIR, -l NAME or -lNAME), links exactly the named files and the libraries found as lib<NAME>.so or lib<NAME>.a in the -L directories, which are tried in the order given with a shared library preferred over an archive, and writes the output to the -o path. -dynamic-linker sets the program interpreter, and --hash-style, --build-id, -m, -z, --eh-frame-hdr and group markers change nothing else. A missing argument, an invalid value, an unknown option or an input or library that cannot be found makes the link fail with a non-zero status.",
  ["inputs", "configurations"], "all sequences of documented options with valid and invalid values over any directory contents",
  TESTS + "one fixed command line, the one clang builds, is used.",
  ["src/main.rs", "src/elf/options.rs"],
  [("handle_linker_args", "src/main.rs"), ("search_for_inputs", "src/main.rs"), ("FromStr impls", "src/elf/options.rs")],
  ["which contributions and needed libraries the output has", "exit status"])

p("L17", "A failed link never leaves something that looks like a program",
  "Whenever the linker fails after its command line was accepted and its inputs were found and recognised for what they are, whatever the reason (bad input, unresolved or duplicate symbols, unrepresentable relocation, a write to the output failing part-way, death by a signal during the write), the exit status is non-zero, and the output path holds no executable program: neither a complete or partial new image that may be executed nor the result of an earlier link; unless killed, it prints a diagnostic (what an earlier link left may only remain if the linker is killed before it opens the output). Whenever it exits with status zero, the output is complete.",
  ["fault_sequences", "crash_points", "inputs"], "all failing inputs, and failures of the output file after any number of bytes, with or without an existing output",
  TESTS + "no failing link is tested.",
  ["src/elf.rs", "src/lib.rs", "src/main.rs"],
  [("Writer::new (creates the output)", "src/elf.rs"), ("write_to_disk (permissions set last)", "src/elf.rs"), ("link (writes only after all checks)", "src/lib.rs")],
  ["exit status", "output path", "stderr"])

p("L18", "Damaged inputs are rejected, never linked into nonsense or looped on",
  "For arbitrarily corrupted or truncated object files, archives and shared libraries, the linker stops in bounded time and memory, never dies from a signal, and either reports failure with a non-zero status or produces a structurally well-formed executable.",
  ["inputs"], "all byte strings as inputs, in particular mutations and truncations of valid files",
  TESTS + "no damaged file is tested.",
  ["src/lib.rs", "src/elf.rs", "src/main.rs"],
  [("to_elf_object / get_symbol_name / get_section_name", "src/lib.rs"), ("file_type", "src/main.rs")],
  ["exit status", "structure of the output"])

p("L19", "A reference that cannot be represented makes the link fail",
  "If the value of a relocation does not fit its field under the psABI's rules (zero-extending for R_X86_64_32, sign-extending for R_X86_64_32S and the PC-relative types), or the relocation type is one the linker does not implement, the link fails with a non-zero exit status instead of writing a truncated or unrelocated value; every value that does fit is accepted and written exactly, up to the very limits of the range. (A reference through the global offset table that the linker could only rewrite with a value that does not fit may be rejected, but is never truncated.)",
  ["inputs"], "all relocation types, symbol values and addends, in particular at both ends of each field's range",
  TESTS + "all values are small.",
  ["src/elf/chunk.rs", "src/elf.rs"],
  [("apply_relocation (try_into)", "src/elf/chunk.rs"), ("add_relocation", "src/elf.rs")],
  ["exit status", "bytes of the loaded segments"])

p("L20", "Linked C and C++ programs behave as they do with the system linker",
  "For every C or C++ program of the supported kind (position-dependent or independent code, several files, static archives, shared libraries, libc, libstdc++; no thread-local variables, exceptions that are thrown, C++ definitions shared between the program and its own libraries, or clang's large code model), compiled by clang or gcc at any optimisation level with or without debug information, the executable this linker produces prints the same output and exits with the same status as the one the system linker produces from the same objects.",
  ["programs", "configurations"], "all such programs, compilers, code models, optimisation levels and orders of objects",
  TESTS + "two programs at one optimisation level, one file each.",
  ["src/lib.rs", "src/elf.rs", "src/elf/chunk.rs"],
  [("Linker::link", "src/lib.rs")],
  ["stdout and exit status of the linked programs"])

p("L21", "Zero-initialised data has its own zeroed writable storage",
  "Every contribution of a zero-initialised (file-less) section of every linked object gets its own range of writable memory of at least its size, aligned as required, that reads as zero at program start and overlaps no other contribution, whatever initialised or file-less sections surround it, and takes no part in the file's contents. Initialised data of the same program is unaffected by how much zero-initialised data there is.",
  ["inputs", "programs"], "all numbers, sizes and alignments of file-less sections mixed with other writable sections over any number of objects",
  TESTS + "each program has a single one-byte file-less contribution from the C start files.",
  ["src/elf.rs", "src/elf/section.rs", "src/lib.rs"],
  [("add_section with no data", "src/elf.rs"), ("size_on_disk", "src/elf/section.rs"), ("section_cmp", "src/elf.rs")],
  ["program headers", "addresses of the contributions in the loaded image"])

p("L22", "Indirect references through the GOT keep their meaning when rewritten",
  "For every instruction that reaches a symbol through the global offset table (R_X86_64_GOTPCREL, R_X86_64_GOTPCRELX on call, jmp, push, 32-bit mov and arithmetic, R_X86_64_REX_GOTPCRELX on mov, cmp, test and arithmetic with any register, each with any addend), the linked instruction, whether rewritten to a direct form or left in place with a table slot, has the same effect as the original would have had with the symbol's address in the slot: same destination register, same target, same instruction length, and no other byte changed; only instructions that refer to the slot itself (addend -4) may take a direct form. An R_X86_64_GOT32 field holds the distance of such a slot from the start of the table. This holds for locally defined, weak undefined and imported symbols, and for any mixture of such references to one symbol.",
  ["inputs", "programs"], "all such instructions, registers, symbol kinds and placements",
  TESTS + "only the instructions of the C start files are rewritten.",
  ["src/elf/chunk.rs", "src/elf.rs"],
  [("apply_relocation GOTPCRELX / REX_GOTPCRELX", "src/elf/chunk.rs"), ("scan_relocations", "src/elf.rs")],
  ["instruction bytes and slots in the loaded image"], [("got_len", "next free slot", "src/elf.rs")])

p("L23", "Debug and other non-loaded sections survive with correct references",
  "Sections that are not loaded (debug information, comments) from every linked object are present once in the output file, joined by name, byte for byte as in the input except for relocated fields, and their relocated fields hold the final address of the code or data they refer to, or the offset within the joined section when they refer to another non-loaded section; between contributions there are zeros. They never occupy memory of the program, unless another linked object has a loadable section of the same name.",
  ["inputs", "programs"], "all sets of objects with non-loaded sections and references from them, e.g. all programs compiled with -g",
  TESTS + "no test is compiled with debug information.",
  ["src/elf.rs", "src/elf/section.rs", "src/elf/chunk.rs"],
  [("generate_program_headers (non-alloc branch)", "src/elf.rs"), ("apply_relocations", "src/elf/chunk.rs")],
  ["section contents of the output file"])

p("L24", "Linking is reproducible",
  "Linking the same inputs with the same command line always ends with the same exit status and, if it succeeds, writes byte for byte the same output file. What is at the output path beforehand makes no difference.",
  ["inputs", "programs", "histories"], "all sets of inputs, linked any number of times",
  TESTS + "nothing is linked twice, and differences that come from hash seeds show only by chance.",
  ["src/lib.rs", "src/elf.rs", "src/elf/symbol_table.rs", "src/elf/chunk.rs"],
  [("symbols by name in a fixed order", "src/elf/symbol_table.rs"), ("process_archives_containing / find_undefined_symbols_in_libs", "src/lib.rs"), ("sort_sections", "src/elf.rs")],
  ["exit status and bytes of the output file"])

p("L25", "Inputs that are incomplete, inconsistent or for other machines are refused",
  "The link fails with a non-zero status if an object that takes part in it (named or taken from an archive) is for another machine, word size or byte order, is no relocatable file, is cut short, has sections or section headers that do not lie within the file, an alignment (of a section or of a common symbol) that is no power of two, names outside of the string table, symbols in sections that do not exist, section numbers in a table of their own (SHT_SYMTAB_SHNDX), or relocations of kinds that do not exist, for sections, with symbols or at places that do not exist or without addends; and if a shared library is for another machine, word size or byte order, is of another file type, or is cut short. None of this is silently ignored or papered over, wherever in the input it occurs.",
  ["inputs"], "all otherwise valid links with one such fault in any of their objects or libraries",
  TESTS + "no faulty file is tested.",
  ["src/lib.rs", "src/elf.rs"],
  [("to_elf_object / parse_elf", "src/lib.rs"), ("process_sections / process_symbols / process_relocations", "src/lib.rs")],
  ["exit status"])

p("L26", "A link changes no file but its output",
  "Whatever the output path is (new, taken, spelt in any way, impossible, a device, or a symbolic or hard link to an input or another file) and whether or not the link succeeds, every other file, every input in particular, keeps its contents, mode and place, and no other file appears (except that a dangling symbolic link at the output path may come to lead somewhere). If the output is itself an input (an object, archive, library or linker script), however either is spelt, the link fails and the input stays as it was. What is written does not depend on the output path, nor on what was there before.",
  ["inputs", "configurations"], "all links with all output paths in any directory contents",
  TESTS + "the output is always a new file in a directory of its own.",
  ["src/main.rs", "src/elf.rs"],
  [("Writer::new (removes and creates the output)", "src/elf.rs"), ("entry / check in main", "src/main.rs")],
  ["all files of the directories of the inputs and the output", "exit status"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P))
