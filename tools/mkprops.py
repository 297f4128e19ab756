import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

CLI=["stdout bytes, exit status and stderr of the fbdl command","bytes of the file named with -c"]
p("C01","Compilation is deterministic",
 "Compiling the same source tree with the same arguments always gives the same verdict, and when it succeeds the same bytes on standard output and in the constants dump. The goroutine schedule, map iteration order, hash seeds, directory entry order, inode numbers, process id, unrelated environment variables, file times and (without -add-timestamp) the wall clock make no difference.",
 ["schedules","inputs","configurations"],"every goroutine interleaving, map-iteration order, directory order, inode/device numbering, entropy and clock, for every source tree",
 "Golden tests run each project once under whatever schedule and map order the Go runtime happens to pick; packages are parsed by one goroutine each and iterated as maps, so a dependence on order shows up in a small fraction of real runs.",
 ["internal/prs/prs.go","internal/prs/pre.go","internal/prs/import.go","internal/ins/ins.go","internal/ins/args.go","internal/ins/type_chain.go","internal/reg/reg.go","cmd/fbdl/main.go"],
 [("one goroutine per package, joined before imports are bound","internal/prs/prs.go ParsePackages"),("whole-program passes over the package map","internal/ins/ins.go Instantiate, internal/ins/args.go resolveArgLists, internal/ins/const.go"),("slices (source order) rather than maps for everything that reaches the output","internal/prs/symbol_container.go, internal/util/block")],CLI)
p("C02","Exactly the erroneous projects are rejected, under every schedule",
 "If a project contains an error (in the main file or in any package that is discovered), every execution exits with a non-zero status, writes nothing to standard output, leaves the constants dump untouched and prints a diagnostic of an error the project really contains. When several goroutines find errors at once, one of them is still reported; a project without errors is never rejected.",
 ["schedules","inputs"],"all interleavings of the package parsers and all map orders, for projects with zero, one or several errors in any of the packages",
 "The golden tests hold one error in one file and run it once; which error is met first, and whether another goroutine can still reach a success path, depends on the schedule.",
 ["internal/prs/prs.go","internal/prs/pkg.go","internal/prs/import.go","internal/ins/ins.go","internal/ins/check.go","cmd/fbdl/main.go"],
 [("fatal diagnostics from the parser goroutines","internal/prs/prs.go parseFile, checkInstantiations"),("redefinition checks across the files of a package","internal/prs/pkg.go addConst, addType, addInst"),("output is written only after every pass succeeded","cmd/fbdl/main.go main")],CLI)
p("C03","I/O faults while reading never produce silently wrong output",
 "If opening, reading, listing, resolving or examining any directory or source file fails during a compilation, the compilation either ends with a non-zero status, a diagnostic and an empty standard output, or succeeds with exactly the result of the fault-free compilation. A file or package is never silently dropped, truncated or replaced because of an I/O error.",
 ["fault_sequences","crash_points"],"every system call of a compilation failing with any errno it can return (EIO, EACCES, ENOENT, ENOMEM, EMFILE, ESTALE, ...), alone or in combination",
 "No existing test injects an I/O error; the error paths of discovery and parsing are never executed by the suite.",
 ["internal/prs/pre.go","internal/prs/prs.go","internal/util/directory.go"],
 [("directory walk checks each stat/readdir/readlink","internal/prs/pre.go findPkgsInDir"),("whole-file reads with error check","internal/prs/prs.go parseFile, parsePackage"),("directory identity","internal/util/directory.go GetDirID")],CLI)
p("C04","Benign I/O behaviour is transparent",
 "Short reads, short directory listings, interrupted system calls, slow devices and unusual but legal file system layouts (different inode or device numbers, entry orders, times, symbolic links to the same files) do not change the verdict, the output or the dump of a compilation.",
 ["fault_sequences","schedules"],"any fragmentation of every read and directory listing, any bounded number of EINTRs, any delay, on every call",
 "Tests read small files from a local disk where each read returns everything at once; nothing exercises partial results.",
 ["internal/prs/prs.go","internal/prs/pre.go"],
 [("whole-file reads to end of file","internal/prs/prs.go parseFile"),("full directory listing","internal/prs/pre.go findPkgsInDir, internal/prs/prs.go parsePackage")],CLI)
p("C05","A zero exit status means the whole result was delivered",
 "The compiler exits with status zero only if the complete register description was accepted by standard output and, when a constants dump was requested, the complete dump was accepted by its file, including the close. If any write or the close fails, or the dump cannot be created, the exit status is non-zero and a diagnostic is printed (or, for a broken pipe, the process is ended by SIGPIPE); partial writes that can be continued are continued.",
 ["fault_sequences","crash_points"],"every write, close and create of the output failing (ENOSPC, EIO, EPIPE, EDQUOT) or being short, at any offset",
 "No test looks at the result of a failing write; the suite pipes to a healthy pipe.",
 ["cmd/fbdl/main.go"],
 [("error checks on the dump's create, write and close","cmd/fbdl/main.go main"),("print of the result","cmd/fbdl/main.go main")],CLI)
p("C06","The compiler touches nothing but the requested dump file",
 "Whatever happens during a compilation, including faults and the process being killed at any instant, no file or directory other than the one named with -c is created, modified, renamed or removed. If the compilation is rejected, the file named with -c keeps its previous content (or stays absent), and it is not opened for writing before every check has passed.",
 ["crash_points","fault_sequences","inputs"],"a kill or fault at every system call, for valid and invalid projects, with and without -c and an earlier dump",
 "Tests never look at the file system after a run and never interrupt one.",
 ["cmd/fbdl/main.go","internal/args/parse.go","internal/prs/pre.go"],
 [("the dump is the only file opened for writing, after instantiation and register assignment","cmd/fbdl/main.go main")],["audit log of every mutating file system operation","file system image after the run"])
p("C07","The timestamp is the compilation time, and nothing else depends on the clock",
 "With -add-timestamp the main bus ends with a TIMESTAMP static whose initial value is the Unix time read during the compilation, truncated to the lesser of 36 bits and the bus width, at the last address of the bus's own registers. Apart from the value of TIMESTAMP the result does not depend on the clock, and without -add-timestamp nothing does, whatever the clock shows and however it moves.",
 ["schedules","configurations","inputs"],"every wall-clock value (past, present, beyond 2^32, up to the 2^64 ns an operating system clock can show, jumping in either direction during the run) and every bus width and bus content",
 "Tests cannot set the clock and no existing test passes -add-timestamp.",
 ["internal/reg/id_and_ts.go","internal/reg/reg.go"],
 [("clock read and truncation","internal/reg/id_and_ts.go timestamp"),("address reserved at the end of the bus","internal/reg/reg.go Registerify")],CLI)
p("C08","A compilation does not depend on earlier ones in the same process",
 "A library call that compiles a bus returns what the same call would return in a fresh process on the current files, whatever was compiled before (other buses, other widths, failed calls) and whatever was edited, added or removed in between. Results returned earlier are not changed by later calls.",
 ["histories"],"every sequence of compile calls with different buses, options and file edits between the calls",
 "No test calls the compile function at all, let alone twice in one process; the bus width and alignment live in package-level variables.",
 ["pkg/fbdl/compile.go","internal/ins/ins.go","internal/reg/reg.go","pkg/fbdl/types/init.go"],
 [("package-level state is re-initialised at the start of every compilation","internal/ins/ins.go setBusWidth, internal/reg/reg.go Registerify, pkg/fbdl/types/init.go Init")],["values returned by the exported compile function, serialised"],None,
 [("bus width","width of the bus being compiled","internal/ins/ins.go, internal/reg/reg.go, pkg/fbdl/types/init.go")])
p("C09","Concurrent library compilations do not influence each other",
 "When several goroutines of one process compile at the same time, each call returns exactly what it returns when it runs alone.",
 ["schedules","histories"],"every interleaving of two to four concurrent compile calls with different bus widths, main files and options",
 "No test runs two compilations concurrently; a wrong interleaving needs one call to overwrite shared state between two steps of another.",
 ["pkg/fbdl/compile.go","internal/ins/ins.go","internal/reg/reg.go","pkg/fbdl/types/init.go"],
 [("serialisation of the calls","pkg/fbdl/compile.go Compile")],["values returned by the exported compile function, serialised"])
p("C10","No two goroutines access the same memory without synchronisation",
 "While a project is compiled, by the command or through the library and also with several compilations in flight, no memory location is written by one goroutine while another one reads or writes it without synchronisation between the two.",
 ["schedules","inputs"],"every pair of conflicting accesses reachable under any interleaving of the package parsers and of concurrent compile calls",
 "Tests run without the race detector and with one schedule; most test projects have a single package, so a single parser goroutine.",
 ["internal/prs/prs.go","internal/prs/pkg.go","internal/prs/file.go","pkg/fbdl/compile.go","internal/util/util.go"],
 [("file list and symbol mutexes of a package","internal/prs/pkg.go"),("join before whole-program passes","internal/prs/prs.go ParsePackages")],["addresses touched at instrumented accesses while another goroutine is held between its own access and the next"])
p("C11","Discovery finds each package exactly once, however it is stored",
 "Every directory named fbd-* that holds at least one .fbd file and is reachable from the working directory or an FBDPATH entry, directly or through symbolic links, is found exactly once, and nothing else is. Symbolic-link cycles, dangling links, overlapping or missing search paths, files that are not sources, and the order in which the file system lists entries do not change what is found, and all .fbd files of a package are compiled.",
 ["inputs","configurations","fault_sequences"],"every directory tree, link structure, search path list, entry order and inode/device assignment",
 "Existing tests have flat directories with one file and no FBDPATH; links, cycles and device numbers never occur.",
 ["internal/prs/pre.go","internal/prs/prs.go","internal/util/directory.go"],
 [("recursive walk with visited set keyed by device and inode","internal/prs/pre.go findPkgsInDir, internal/util/directory.go"),("selection of source files","internal/prs/prs.go parsePackage")],CLI)
p("C12","Imports bind to the one matching package, or the project is rejected",
 "Each import of each file refers to the unique discovered package whose path ends with the import path, under the name given or derived from the path, no matter in which order packages are discovered, parsed or visited. If no package or more than one package matches, the project is rejected in every execution; names resolve in the importing file only.",
 ["schedules","inputs","configurations"],"every import graph (shared, mutual, aliased, per-file), every map and schedule order, every placement of the packages",
 "Test projects with imports are few and bind a single package; a choice among several matches that depends on map order passes a single run with high probability.",
 ["internal/prs/import.go","internal/prs/pkg.go","internal/prs/file.go"],
 [("suffix match over all discovered packages, exactly one required","internal/prs/import.go bindFileImports, internal/prs/pkg.go GetMatching"),("per-file import table","internal/prs/file.go")],CLI)
p("C13","Edits racing with a compilation are seen per file as old or new, never mixed",
 "If source files are atomically replaced while a compilation runs, the outcome equals that of compiling some tree in which each file is entirely in its old or entirely in its new version.",
 ["schedules","crash_points"],"every instant at which each of one to three files is replaced, relative to every system call and goroutine step of the compilation",
 "Tests never change a file during a run.",
 ["internal/prs/prs.go","internal/tok/parse.go","internal/ast/build.go"],
 [("each source is read exactly once and the bytes are shared by all later phases","internal/prs/prs.go parseFile")],CLI)
p("C14","Every compilation terminates",
 "Every compilation ends, with success or with a diagnostic, within a number of steps bounded by the size of its input, under every schedule (including starvation of any goroutine) and every finite sequence of faults; no execution deadlocks, spins or waits for something that cannot happen.",
 ["schedules","fault_sequences","inputs"],"every interleaving and starvation pattern, and every finite fault sequence, for trees of any shape",
 "A test that happens to finish says nothing about the interleavings and error paths in which a goroutine fails before signalling its completion.",
 ["internal/prs/prs.go","internal/prs/pre.go","internal/prs/pkg.go"],
 [("completion signalling of the parser goroutines","internal/prs/prs.go ParsePackages, parsePackage, parseFile"),("mutexes released on every path","internal/prs/pkg.go"),("visited set bounds the walk","internal/prs/pre.go findPkgsInDir")],CLI)
p("C15","Diagnostic output does not influence the result",
 "Turning debug messages on, and any failure or slowness of the diagnostic stream (closed, full, short writes, a broken pipe whose SIGPIPE is ignored), changes neither the verdict nor the bytes on standard output nor the constants dump.",
 ["fault_sequences","configurations","schedules"],"every failure of every write to standard error, with debug messages on or off, for valid and invalid projects",
 "Tests compare standard error of runs where it always works, and never use -debug.",
 ["cmd/fbdl/main.go","internal/prs/pre.go","internal/ins/ins.go"],
 [("logger that swallows its own write errors and filters debug lines","cmd/fbdl/main.go Logger")],CLI)
p("C16","Parametrised types mean the same at every use, in any order",
 "Every instantiation of a parametrised type sees exactly the arguments given at that instantiation (by position, name or default, passed down through derived types and enclosing types), independent of how often, where, and in which order the type and types derived from it are instantiated elsewhere in the program, used or not.",
 ["schedules","histories","programs"],"every order in which packages and their types are visited, and every history of earlier instantiations of the same type, over generated type hierarchies spanning packages",
 "Types are shared mutable objects bound anew at each instantiation, and the order of instantiation across packages follows map iteration; the existing tests instantiate a type once.",
 ["internal/ins/type_chain.go","internal/ins/args.go","internal/prs/type.go","internal/prs/inst.go","internal/ins/ins.go"],
 [("binding of parameters along the type chain","internal/ins/type_chain.go"),("argument resolution","internal/ins/args.go resolveArgs")],CLI)
p("C17","Earlier compilations that were killed or failed do not matter",
 "A compilation gives the same verdict, the same output and the same dump as on a fresh copy of the sources, whatever compilations ran before on the same files and dump: ones that were killed at any instant, failed because of an I/O error or an erroneous project, lost part of what they had written in a power failure, had other arguments, or saw other versions of the files.",
 ["crash_points","fault_sequences","histories"],"every sequence of earlier compilations, each killed at any system call or ended by any fault, with any edits of the sources and any loss of the dump's content in between",
 "Every test runs in a clean tree where no compilation was ever interrupted.",
 ["cmd/fbdl/main.go","internal/prs/pre.go","internal/prs/prs.go"],
 [("creation of the dump file over what an earlier run left","cmd/fbdl/main.go"),("discovery in a directory that earlier runs may have written to","internal/prs/pre.go")],CLI)
p("C18","Compilers running at the same time do not influence each other",
 "Several compiler processes may work on the same source tree at the same time, with different main buses and different dump files, or on the same project with the same dump file: each one gives the verdict, output and dump it gives when it runs alone, even when others are killed or fail meanwhile.",
 ["schedules","crash_points"],"every placement of complete or killed compilations between the system calls of another one, nested up to three deep",
 "Tests run one compiler process at a time.",
 ["cmd/fbdl/main.go","internal/prs/pre.go","internal/prs/prs.go"],
 [("creation of the dump file next to the sources others are scanning","cmd/fbdl/main.go"),("listing and examining of directory entries","internal/prs/pre.go findPkgsInDir")],CLI)
p("C19","A library call leaves nothing behind in the process",
 "After a library call has returned, with a result or an error, the process is as before: no file descriptor stays open, no goroutine stays, the working directory, environment, arguments and settings of the logger are unchanged, and repeating the same calls does not increase the memory in use once their results are dropped.",
 ["histories","schedules","fault_sequences"],"every history of repeated, concurrent and failing calls, with errors of the operating system",
 "The tests compile once per process and never look at the process afterwards.",
 ["pkg/fbdl/compile.go","internal/prs","internal/ins","internal/reg"],
 [("library entry point","pkg/fbdl/compile.go Compile"),("reading of sources and directories","internal/prs/prs.go, internal/prs/pre.go")],["open descriptors, number of goroutines, working directory, environment, logger settings and heap in use after a call of fbdl.Compile"])
p("C20","Registers of a block never overlap and stay inside the block",
 "No bit of a block's address space belongs to two functionalities, every register index lies below the block's own size, and no access exceeds the bus width.",
 ["inputs"],"all valid projects",
 "The golden cases fix a handful of layouts.",
 ["internal/reg/reg.go","internal/reg/config.go","internal/reg/status.go","internal/reg/static.go","internal/reg/mask.go","internal/reg/irq.go","internal/reg/proc.go","internal/reg/stream.go","internal/gap/pool.go"],
 [("sequential address assignment and gap pool","internal/reg, internal/gap")],CLI)
p("C21","Block address ranges are aligned, disjoint and nested in their parents",
 "Each block's address range starts at a multiple of its alignment, lies inside its parent's range, and is disjoint from its siblings' ranges and the parent's own registers.",
 ["inputs"],"all valid projects","The golden cases fix a handful of hierarchies.",
 ["internal/reg/assign.go","internal/reg/reg.go"],[("global address assignment","internal/reg/assign.go")],CLI)
p("C22","Expressions evaluate according to the language",
 "Every expression evaluates to the value the language defines, with its operator precedence, associativity and type rules, or is rejected.",
 ["inputs"],"all expressions","The unit tests sample a few expressions.",
 ["internal/tok/parse.go","internal/ast/expr.go","internal/prs/expr.go","internal/prs/call.go"],[("expression parser and evaluator","internal/ast/expr.go, internal/prs/expr.go")],CLI)
p("C23","Sources are accepted exactly when the grammar allows them",
 "A source text is accepted exactly when it follows the language's lexical, indentation and grammar rules; any other text is rejected with a diagnostic that points at the offending token, and no text makes the compiler crash.",
 ["inputs"],"all byte strings","Unit tests list a few dozen texts.",
 ["internal/tok","internal/ast"],[("tokenizer and AST builder","internal/tok/parse.go, internal/ast/build.go")],CLI)
p("C24","Property rules are enforced for every functionality and type chain",
 "A property is accepted exactly where the language allows it, at most once along a type chain, with a value of the right type and range, and omitted properties get their defaults.",
 ["inputs"],"all projects","The golden cases cover single violations.",
 ["internal/util/util.go","internal/ins"],[("per-functionality property application","internal/ins")],CLI)
p("C25","The bus identifier changes with the bus description",
 "The identifier of the main bus is a function of the whole register description, so two descriptions that differ in any register, address or constant get different identifiers except for hash collisions.",
 ["inputs"],"all pairs of projects","No test compares identifiers of different descriptions.",
 ["internal/util/hash"],[("structural hash","internal/util/hash")],CLI)
p("C26","The command line is interpreted as documented",
 "Every combination of the documented flags and parameters, in any order, has the documented effect, and any other argument list is rejected.",
 ["inputs"],"all argument lists","Only two fixed argument lists are used by the tests.",
 ["internal/args"],[("argument parser","internal/args/parse.go")],CLI)
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
