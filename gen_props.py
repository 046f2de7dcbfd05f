#!/usr/bin/env python3
# Writes properties.jsonl (kept as a script so the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
        mechanism=[dict(name=n,where=w) for n,w in mech],
        observe_at=list(obs),hook_needed=hook)))

p("C01","Combining automata is exact set algebra, over any history",
  "Whatever sequence of construction, combination and transformation calls produced the operands, the result of a union, intersection, subtraction, complement, concatenation or reversal accepts exactly the strings that the corresponding operation on the operands' languages defines. This remains true when other calls earlier in the same history ran out of memory, hit a limit or were cancelled, and for any interleaving with work on other automata. Queries derived from languages (emptiness, equality) answer accordingly.",
  ["histories","fault_sequences","inputs"],
  "every history of public calls over a pool of automata, with and without injected failures in earlier calls; every operand automaton; every input string (decided by lock-step subset exploration, not by sampling strings)",
  "The tests combine a few dozen fixed patterns once each and compare with a stored automaton; none applies operations to results of earlier (possibly failed) operations, and none has an independent model of the result's language.",
  ["src/libfsm/union.c","src/libfsm/walk2.c","src/libfsm/intersect.c","src/libfsm/subtract.c","src/libfsm/complement.c","src/libfsm/concat.c","src/libfsm/reverse.c","src/libfsm/merge.c","src/libfsm/equal.c","src/libfsm/empty.c"],
  [("product construction of two DFAs","src/libfsm/walk2.c"),("merge of state tables plus epsilon links","src/libfsm/merge.c, union.c, concat.c"),("edge-by-edge reversal","src/libfsm/reverse.c")],
  [("automaton","states, labelled and epsilon edges, start state, end flags","src/libfsm/internal.h struct fsm")],
  ["fsm_walk_edges","fsm_isend","fsm_getstart","fsm_equal","fsm_empty"])

p("C02","Transformations never change which strings are accepted",
  "Determinising, minimising, trimming, removing epsilon transitions, cloning, renumbering, completing, moving and reclaiming storage leave the accepted language exactly as it was, at any point of any history. Their advertised postconditions also hold: a determinised automaton is deterministic, epsilon removal leaves no epsilon transitions, a minimised one has as few states as any deterministic automaton that distinguishes the same inputs, and a trimmed one keeps exactly the useful states. What the predicates and counts say about an automaton's states and edges is true of it.",
  ["histories","inputs","fault_sequences"],
  "every automaton reachable by a history of public calls (including ones interrupted by injected failures), every transformation, every input string",
  "The tests transform a fixed list of automata and compare with stored results, so they reach neither unusual shapes (dead cycles, parallel edges, unreachable ends, many end ids) nor transformations of transformed automata.",
  ["src/libfsm/determinise.c","src/libfsm/minimise.c","src/libfsm/trim.c","src/libfsm/epsilons.c","src/libfsm/closure.c","src/libfsm/clone.c","src/libfsm/consolidate.c","src/libfsm/shuffle.c","src/libfsm/complete.c","src/libfsm/state.c","src/adt/edgeset.c","src/adt/stateset.c","src/adt/internedstateset.c"],
  [("subset construction with interned state sets","src/libfsm/determinise.c"),("partition refinement","src/libfsm/minimise.c"),("reachability marking and compaction","src/libfsm/trim.c, state.c"),("epsilon closure","src/libfsm/closure.c, epsilons.c")],
  [("automaton","states and edges","src/libfsm/internal.h"),("edge groups","symbol bitmaps per destination","src/adt/edgeset.c")],
  ["fsm_walk_edges","fsm_isend","fsm_countstates","fsm_all/fsm_isdfa"])

p("C03","End ids follow the inputs they were attached to",
  "After any history of combining and transforming calls, the ids reported for an accepted input are exactly those attached to the original end states that this input reaches: none is lost, invented, or reported for another input. Id lists are sorted and free of duplicates, counts agree with contents, and renumbering ids by a callback applies to every state even though the callback may stop early.",
  ["histories","inputs","fault_sequences"],
  "every history of id-setting, id-mapping, combining and transforming calls with injected allocation failures and callback cancellation; every input string",
  "The end-id tests check a handful of fixed unions after determinise and minimise; tables grow and rehash only at sizes and in orders they never reach, and failed insertions are never followed by a look-up.",
  ["src/libfsm/endids.c","src/libfsm/determinise.c","src/libfsm/minimise.c","src/libfsm/merge.c","src/libfsm/state.c","src/libfsm/consolidate.c","src/libfsm/walk2.c","src/libfsm/epsilons.c"],
  [("open-addressed id table with sorted id lists","src/libfsm/endids.c"),("id carry-over callbacks in each transformation","determinise.c, minimise.c, consolidate.c, epsilons.c, walk2.c")],
  [("end id table","state -> sorted id list","src/libfsm/endids.c struct endid_info")],
  ["fsm_endid_get","fsm_endid_count","fsm_mapendids","fsm_increndids"])

p("C04","Single-pass pattern groups report exactly the patterns that match",
  "When patterns are combined into one automaton for single-pass matching, running an input through it that it accepts reports pattern i (by notification during the run or by id at its end) if and only if pattern i on its own matches that input, and an input that some pattern matches is accepted. Transforming an automaton carrying such notifications does not change which ids are notified while consuming an accepted input.",
  ["histories","inputs","fault_sequences"],
  "every set of patterns with and without anchors, every input delivered through a callback, every sequence of transformations on the combined automaton, with allocation failures and retries",
  "The existing tests list a few dozen pattern sets with a few inputs each; the interplay of anchors, nullable patterns and repeated groups has far more cases than listed.",
  ["src/libfsm/union.c","src/libfsm/eager_output.c","src/libfsm/exec.c","src/libfsm/determinise.c","src/libfsm/minimise.c","src/libre/ast_compile.c"],
  [("linkage information saved at compile time","src/libre/ast_compile.c, src/libfsm/internal.h"),("group combination","src/libfsm/union.c fsm_union_repeated_pattern_group"),("notification during execution","src/libfsm/exec.c")],
  [("eager output table","state -> sorted output ids","src/libfsm/eager_output.c")],
  ["fsm_exec with fsm_eager_output_set_cb","fsm_endid_get"])

p("C05","A failing allocation is reported, never a crash or a wrong answer",
  "If any allocation made during a library call fails, once or repeatedly, that call either reports failure in its documented way or completes with a correct result. It never crashes, aborts, reads or writes memory it does not own, or reports success for work that was not done.",
  ["fault_sequences","histories"],
  "every public library call, on every automaton, with every choice of which of its allocations fail (the k-th, from the k-th on, or a random subset)",
  "No test injects an allocation failure, so every error path in the library is unexecuted code.",
  ["src/adt/alloc.c","src/adt/edgeset.c","src/adt/stateset.c","src/adt/idmap.c","src/adt/internedstateset.c","src/adt/set.inc","src/libfsm","src/libre"],
  [("allocator indirection","src/adt/alloc.c"),("error returns checked at each call site","src/libfsm/*.c, src/libre/*.c")],
  [("allocator","caller-supplied callbacks","include/fsm/alloc.h")],
  ["return values","errno","struct re_err","address and undefined-behaviour sanitizers"])

p("C06","Memory is conserved and returned to the allocator it came from",
  "Once every object a client holds has been released, nothing the library allocated remains, whichever calls succeeded, failed or were cancelled on the way. An automaton given a caller-supplied allocator takes its storage from, and returns it to, that allocator only, and every block is released exactly once.",
  ["histories","fault_sequences"],
  "every history of public calls over automata with distinct allocators, with allocation failures, callback cancellation and failed streams at any point",
  "The tests exit without accounting for memory, almost always use the default allocator, and never take an error path.",
  ["src/adt/alloc.c","src/libfsm/fsm.c","src/libfsm/merge.c","src/libfsm/union.c","src/libfsm/walk2.c","src/libfsm/consolidate.c","src/libfsm/determinise.c","src/adt/set.inc","src/libre/re.c","src/libre/ast.c"],
  [("allocator indirection","src/adt/alloc.c f_malloc/f_free"),("ownership rules of destructive operations","include/fsm/bool.h, src/libfsm/merge.c")],
  [("allocator","caller-supplied callbacks","include/fsm/alloc.h")],
  ["allocator callbacks"])

p("C07","A failed call leaves the other objects, and its own operand, usable",
  "When a call fails for lack of memory or at a limit, automata it only reads are exactly as before, and an automaton it was to modify in place is still well-formed: it can be inspected, retried and freed. Where the operation preserves or replaces the language, the automaton still has the language it had before the failed call, and retrying once memory is available succeeds with the correct result.",
  ["fault_sequences","histories"],
  "every in-place or read-only public call, every choice of failing allocations, followed by a retry and further calls on the same automaton",
  "No test makes a call fail, let alone continues to use the automaton afterwards.",
  ["src/libfsm/determinise.c","src/libfsm/minimise.c","src/libfsm/trim.c","src/libfsm/state.c","src/libfsm/reverse.c","src/libfsm/epsilons.c","src/libfsm/complement.c","src/libfsm/complete.c","src/libfsm/edge.c","src/libfsm/endids.c","src/adt/stateset.c","src/adt/edgeset.c"],
  [("build-then-move of new state tables","src/libfsm/determinise.c, minimise.c, reverse.c"),("grow-before-modify of containers","src/adt/*.c")],
  [("automaton","states and edges","src/libfsm/internal.h")],
  ["fsm_walk_edges","fsm_isend","retry of the failed call"])

p("C08","Compiling a pattern depends only on its bytes, dialect and flags",
  "Compiling from a character source gives the same automaton for the same bytes however they are delivered, whatever the source callback does in between (including compiling other patterns), and whatever earlier compiles failed. A compile that cannot succeed returns no automaton, fills in an error other than success whose position lies within the bytes consumed, and holds no memory.",
  ["histories","inputs","schedules","fault_sequences"],
  "every pattern (well-formed or not) in every dialect with every flag set, delivered by any source, cut off at any byte, interleaved with other compiles, with allocation failures",
  "Tests compile fixed patterns from strings in sequence; none interleaves compiles, cuts the source short, or fails memory.",
  ["src/libre/re.c","src/libre/ast.c","src/libre/ast_compile.c","src/libre/ast_rewrite.c","src/libre/ast_analysis.c","src/libre/parser.act","src/libre/dialect"],
  [("per-dialect streaming parser over a getc callback","src/libre/dialect/*/parser.c"),("error structure","include/re/re.h struct re_err")],
  [("parse state","lexer and parser state on the caller's stack","src/libre/dialect/*/parser.c"),("shared tombstone node","one static syntax-tree node shared by all compiles","src/libre/ast.c")],
  ["re_comp","re_is_anchored","struct re_err"])

p("C09","All execution engines agree, however the input is delivered",
  "For a deterministic automaton, execution through a character callback and through either bytecode version, optimised or not, over a buffer or a file, accept exactly the same inputs, namely the automaton's language, and the same holds for generated C matchers, which also give the ids they are asked for. The verdict does not depend on how the stream is chunked, buffered or delayed, and a stream that fails part-way is never reported as a match of what was read. A compiled program saved to a stream and loaded again behaves identically, and a save or load that is cut short is reported.",
  ["inputs","fault_sequences","programs"],
  "every deterministic automaton, every input, every chunking of the stream, stream errors at any offset, allocation failures while compiling the bytecode",
  "The test programs run each engine on short in-memory strings; no test streams input in pieces, crosses the read-buffer size, or fails a read.",
  ["src/libfsm/exec.c","src/libfsm/vm.c","src/libfsm/vm/v1.c","src/libfsm/vm/v2.c","src/libfsm/vm/vm.c","src/libfsm/vm/ir.c","src/libfsm/vm/retlist.c","src/libfsm/print/c.c","src/libfsm/print/vmc.c"],
  [("bytecode compiler","src/libfsm/vm/vm.c, ir.c"),("resumable interpreters","src/libfsm/vm/v1.c, v2.c"),("file reader loop","src/libfsm/vm.c")],
  [("vm state","program counter, fetch state carried between chunks","src/libfsm/vm/vm.h struct vm_state")],
  ["fsm_exec","fsm_vm_match_buffer","fsm_vm_match_file"])

p("C10","Printed output is complete and reproducible, or the failure is reported",
  "Printing an automaton writes bytes that depend only on the automaton, the options and the output language, however slowly or in whatever pieces the stream accepts them. If a write fails, the stream fills up or memory runs out while printing, the call returns failure, and the automaton is unchanged either way.",
  ["fault_sequences","inputs","configurations"],
  "every output language and option combination, every automaton, write failures at any byte with any stream buffering, every choice of failing allocation",
  "Tests print to regular files that never fail and look only at the final bytes.",
  ["src/libfsm/print.c","src/libfsm/print","src/libfsm/vm/ir.c","src/print"],
  [("central error check after printing","src/libfsm/print.c"),("per-language printers","src/libfsm/print/*.c")],
  [("stream","stdio error indicator","FILE passed by the caller")],
  ["fsm_print return value","bytes received by the stream"])

p("C11","The text format round-trips and damaged text is rejected",
  "Reading back the text form of an automaton gives the same language, the same ids for every input and the same start, regardless of how the reading stream delivers it. Text that is cut short or damaged, or a stream that fails while reading, yields either a diagnosed refusal (the reader may end the process unsuccessfully, as it documents) or a well-formed automaton for the bytes read; never a crash, a hang or invalid memory use.",
  ["inputs","fault_sequences","histories"],
  "every automaton the library can build, printed with every applicable option; every chunking of the reading stream; truncation or corruption or stream error at any byte",
  "Tests read well-formed files whole; the printer and the parser are not run against each other on generated automata, nor with short reads.",
  ["src/libfsm/print/fsm.c","src/libfsm/parser.c","src/libfsm/lexer.c","src/libfsm/parser.act","src/fsm/main.c"],
  [("printer","src/libfsm/print/fsm.c"),("lexer and parser","src/libfsm/lexer.c, parser.c")],
  [("name table","state names to state numbers while parsing","src/libfsm/parser.act")],
  ["fsm_print(FSM_PRINT_FSM)","fsm_parse"])

p("C12","Readers may share an automaton without interfering",
  "Calls that only read an automaton (executing, walking, querying, cloning, comparing, printing, compiling to bytecode, running bytecode) may run at the same time on the same automaton from any number of threads. No such call writes to anything another can see, and each gives the same result as it would alone, under every interleaving.",
  ["schedules"],
  "every set of concurrent read-only calls on one shared automaton or compiled program, every interleaving of their memory accesses",
  "All tests are single-threaded; nothing observes whether a read-only call writes to the shared object.",
  ["src/libfsm/exec.c","src/libfsm/walk.c","src/libfsm/clone.c","src/libfsm/print.c","src/libfsm/vm.c","src/libfsm/equal.c","src/libfsm/empty.c","src/libfsm/endids.c","src/libfsm/closure.c","src/adt/edgeset.c"],
  [("const-qualified entry points without caching","include/fsm/*.h"),("visited marks restored or private","src/libfsm/closure.c, walk.c")],
  [("visited flag","scratch mark inside each state","src/libfsm/internal.h struct fsm_state")],
  ["instrumented memory accesses","return values"])

p("C13","Threads working on different objects never interfere",
  "Calls made from different threads on unrelated automata, patterns, string sets or programs behave as if each thread ran alone: no result, error report or output of one depends on what the others do. The library keeps no hidden shared mutable state that such calls touch without synchronisation.",
  ["schedules","histories","fault_sequences"],
  "every pair (or more) of call histories on disjoint objects, every interleaving of their memory accesses, including histories that fail",
  "All library tests are single-threaded, so a hidden static is invisible to them.",
  ["src/libre/ast.c","src/libre/re.c","src/libre/ac.c","src/libfsm","src/adt"],
  [("absence of mutable statics","whole library"),("shared immutable tables","src/libre/class/*, src/libre/ast.c")],
  [("static objects","any writable static storage in the library","src/")],
  ["instrumented memory accesses","results compared with a sequential run"])

p("C14","The lexer generator's worker threads cannot be told from one thread",
  "Whatever number of worker threads is requested and however they are scheduled, the lexer generator produces byte for byte the output that a single thread produces, without data races, deadlock or lost work. If work fails in any thread (no memory, threads cannot be started, an invalid or ambiguous pattern), the tool exits unsuccessfully after the other threads are done, and does not emit a lexer as though nothing had happened.",
  ["schedules","fault_sequences","inputs"],
  "every lexer specification, every thread count, every interleaving of workers, every failing allocation or thread operation",
  "The test suite runs the generator with its default single thread only.",
  ["src/lx/main.c","src/lx/ast.c","src/lx/print"],
  [("work-stealing over zones behind a mutex","src/lx/main.c zone_minimise/zone_determinise/run_threads"),("mapping registry","src/lx/ast.c ast_setendmapping")],
  [("zone list cursor","next zone to process","src/lx/main.c"),("error flag","first failure seen by a worker","src/lx/main.c"),("end mapping table","token id -> mapping","src/lx/ast.c")],
  ["generated output","exit status","instrumented memory accesses","lock operations"])

p("C15","Generated lexers tokenise the bytes, not the way they arrive",
  "The token sequence, token text and positions produced by a generated C lexer are those the specification gives for the input bytes (in each zone the longest run its patterns can follow; a run which ends where no pattern matches is an unknown token), entering and leaving zones as specified, and do not depend on which input interface is used, how reads are split or interrupted, or how the text buffer grows. When the input fails or the text buffer cannot grow, the lexer reports an error rather than a clean end of input or a token with damaged text, and leaks nothing. A valid specification gives C that compiles, and an example it names for a token is an example of that token; the program lx gives for dumping tokens compiles too, and prints that same sequence.",
  ["inputs","fault_sequences","programs"],
  "every lexer in a corpus of specifications (including zones), every input, every split of reads, interruptions and errors at any read, allocation failure at any buffer growth",
  "The one runtime test checks positions for a single lexer over files that never fail.",
  ["src/lx/print/c.c","src/lx/print/h.c","src/lx/print/dump.c","src/lx/main.c","src/lx/ast.c","src/lx/parser.act"],
  [("pushback and longest-match loop","src/lx/print/c.c generated zone functions"),("input adapters and text buffers","src/lx/print/c.c")],
  [("lexer state","pushback character, positions, buffer","generated struct lx")],
  ["generated lx_next()"])

p("C16","Generated examples are sound, bounded and obey the caller's callback",
  "Every string generated from an automaton is accepted by it, is no longer than the requested bound, is reported with the state it ends in, and none is reported twice. A path asked for between two states leads from one to the other, at the least cost of any, if there is one at all. Unless cut short every accepted route within the bound is represented, whatever the random source yields; stopping or pruning from the callback takes effect immediately, leaves the language of the automaton unchanged and leaks nothing.",
  ["histories","inputs","fault_sequences"],
  "every deterministic automaton, bound, random sequence, and every pattern of continue, prune and stop answers, with allocation failures",
  "Tests generate from a few patterns with callbacks that mostly continue, and never vary the random source adversarially or stop mid-way.",
  ["src/libfsm/gen.c","src/libfsm/trim.c","src/libfsm/example.c","src/libfsm/shortest.c"],
  [("depth-first exploration with explicit stack","src/libfsm/gen.c"),("distance-to-end pruning","src/libfsm/trim.c")],
  [("exploration stack and buffer","current path","src/libfsm/gen.c struct gen_ctx")],
  ["callback arguments","fsm_exec on each generated string"])

p("C17","Limits and cancellation are exact and side-effect free",
  "An operation given a state or step limit either finishes with the same result as without the limit, or says the limit was reached and leaves the automaton as it was. A larger limit never turns success into refusal, a refusal happens only when the automaton or its unlimited result has more states than the limit, and a walk visits each state or edge exactly once, and makes no further calls once its callback asks to stop.",
  ["configurations","histories","inputs"],
  "every automaton, every limit value around the actual need, every stopping point of a callback, followed by further use of the automaton",
  "Tests exercise one or two limit values on one automaton and do not look at the automaton after a refusal.",
  ["src/libfsm/determinise.c","src/libfsm/detect_required.c","src/libfsm/walk.c","src/libfsm/endids.c"],
  [("limit check while adding result states","src/libfsm/determinise.c"),("step counter","src/libfsm/detect_required.c")],
  [("automaton","unchanged until the result is complete","src/libfsm/determinise.c")],
  ["result codes","fsm_walk_edges"])

p("C18","Command-line tools exit successfully only when their output is complete",
  "Each command-line tool exits with success only if everything it was asked to read was read and everything it had to write was accepted by the output. A failing or full output, a failing input, or exhausted memory leads to an unsuccessful exit (or a diagnosed abort), never to a successful exit with missing or different output.",
  ["fault_sequences","configurations","inputs"],
  "every tool and mode, every input or output error position, every buffering, every failing allocation",
  "Tests run the tools on files that never fail, through pipelines that discard exit codes.",
  ["src/fsm/main.c","src/re/main.c","src/lx/main.c","src/rx/main.c","src/retest","src/libfsm/print.c"],
  [("error checks on output streams","src/*/main.c"),("exit status plumbing","src/*/main.c")],
  [("stdio streams","standard input and output of the tool","process")],
  ["exit status","bytes received on standard output"])

p("C19","A string set matches exactly its strings, with their ids",
  "An automaton built from an incrementally filled set of strings accepts exactly those strings (or inputs beginning with, ending with, or containing one, as the anchoring flags say), and each accepted input carries exactly the ids of the strings responsible. Order of insertion, repeated strings, empty strings, strings that are prefixes or suffixes of others, and insertions that failed in between make no difference to the rest.",
  ["histories","inputs","fault_sequences"],
  "every sequence of insertions (with failures at any allocation), every anchoring, building more than once, every input",
  "Tests build a few word lists once and sample a few inputs.",
  ["src/libre/re_strings.c","src/libre/ac.c"],
  [("trie with failure links","src/libre/ac.c"),("id transfer to end states","src/libre/ac.c")],
  [("trie","strings added so far","src/libre/ac.c")],
  ["re_strings_build result"])

p("C20","Pattern constructs mean what the dialect documents",
  "A pattern of a supported dialect (LIKE, literal, glob, native, SQL, PCRE), under any flags, compiles to an automaton that accepts exactly the strings the dialect says it matches: literals and escapes, classes and their negation and subtraction, any-character wildcards, grouping, alternation, repetition by operator or count, anchors wherever they are accepted, case folding, single-line, anchored and reversed compiling, inline flags, quoting and comments. A construct outside the dialect, or one that cannot be supported, is refused; it is never compiled to something else. This remains so when allocations fail while compiling (the compile fails, holding nothing) and however the automaton is then determinised, minimised, trimmed, copied or freed of epsilons. A pattern reported to be a literal string matches just as that string, anchored as reported, does.",
  ["inputs","histories","fault_sequences"],
  "every pattern, every flag set, every input string, every allocation failure while compiling, every following sequence of transformations",
  "Finite corpora of pattern and expectation pairs, most of which compare automata rather than decide what they accept; interactions between nested anchors, empty alternatives, repetition and classes occur only in combinations nobody lists.",
  ["src/libre/dialect","src/libre/parser.act","src/libre/class","src/libre/ast.c","src/libre/ast_analysis.c","src/libre/ast_rewrite.c","src/libre/ast_compile.c","src/libre/ast_new_from_fsm.c","src/libre/re.c","src/libre/class_lookup.h"],
  [("parser, analysis, rewriting and compilation in turn","src/libre/re.c"),("anchors resolved on the syntax tree","src/libre/ast_analysis.c"),("class tables","src/libre/class")],
  [("syntax tree","nodes and their anchoring and nullability flags","src/libre/ast.h")],
  ["re_comp","re_is_literal"])

p("C21","Substituting group references is total and bounded",
  "Expanding a replacement template writes only inside the given buffer, terminates it, and either expands every reference or reports the position of the first bad one.",
  ["inputs"],
  "every template, group list and buffer size",
  "The tests cover a list of templates.",
  ["src/libre/re_interpolate_groups.c"],
  [("single-pass state machine","src/libre/re_interpolate_groups.c")],(),["re_interpolate_groups"])

p("C22","Anchoring analysis agrees with matching",
  "Whenever a pattern is reported as anchored at the start, whatever it matches begins at the beginning of the input, and whenever it is reported as anchored at the end, at the end (a final newline apart, where the dialect's end anchor allows one). A satisfiable pattern which plainly begins or ends with an anchor is reported as anchored there. When an allocation fails during the analysis the error is reported and nothing is kept.",
  ["inputs","fault_sequences"],
  "every pattern and flag set, every allocation failure during the analysis",
  "The tests enumerate examples and compare the answer with one written beside the pattern, never with what the pattern matches; none makes an allocation fail.",
  ["src/libre/re.c","src/libre/ast_analysis.c","src/libre/ast_rewrite.c","src/libre/ast.c"],
  [("anchoring flags flow up, down and sideways over the syntax tree","src/libre/ast_analysis.c")],
  [("anchoring flags","per node","src/libre/ast.h")],["re_is_anchored"])
p("C23","Programs generated in other languages decide the automaton's language",
  "A program printed for another language (Rust, LLVM IR, x86-64 assembly in AT&T, NASM and Go syntax, Go, shell) is accepted by that language's compiler and accepts exactly the inputs the automaton accepts, through every input interface the printer offers. Where ids are asked for it gives those of the input: all of them, sorted, or the lowest. This holds for every deterministic automaton whatever history built it, whichever options select the form of the program, and even when an attempt to print it failed before.",
  ["programs","inputs","histories"],
  "every deterministic automaton over all byte values, every language and input interface, every option combination, every input",
  "The tests generate programs from fixed patterns and run them on a few strings each; languages whose tools are not installed are not run at all.",
  ["src/libfsm/print/rust.c","src/libfsm/print/llvm.c","src/libfsm/print/vmasm.c","src/libfsm/print/go.c","src/libfsm/print/sh.c","src/libfsm/vm/ir.c","src/libfsm/vm/vm.c","src/libfsm/vm/retlist.c","src/print"],
  [("intermediate form shared by the printers","src/libfsm/vm/ir.c"),("instruction list with linearised branches","src/libfsm/vm/vm.c"),("one printer per language","src/libfsm/print/*.c")],
  [("id lists by return value","table of distinct id sets","src/libfsm/vm/retlist.c")],
  ["compiler exit status","verdict and ids of the running program"])
p("C24","Captures report where their path matched, after any transformation",
  "When a path is set between two states of an automaton, matching an input that goes along it reports the offsets at which the input passed its ends. This remains so however the automaton is combined with others (capture ids moving by the base each combining call reports), copied, renumbered, trimmed, determinised or minimised, and whatever failed in between. (A path which several inputs go along may, once minimising has merged their states, be met more than once on the way; which time is reported is then not said.) Until states are merged by minimising, no capture is reported for an input that doesn't go along its path, and no position lies outside the input.",
  ["histories","inputs","fault_sequences"],
  "every set of paths, every sequence of combining and transforming calls with failures at any allocation, every input",
  "The tests set paths on a few hand-built chains and combine two or three of them in one way.",
  ["src/libfsm/capture.c","src/libfsm/epsilons.c","src/libfsm/determinise.c","src/libfsm/consolidate.c","src/libfsm/merge.c","src/libfsm/clone.c","src/libfsm/state.c","src/libfsm/exec.c","include/fsm/capture.h"],
  [("actions on states in a hash table beside the automaton","src/libfsm/capture.c"),("actions carried over by each transformation","src/libfsm/*.c")],
  [("capture actions","state, kind, id, next state","src/libfsm/capture.c")],
  ["fsm_exec captures","fsm_countcaptures","capture bases of combining calls"])
p("C25","Printed descriptions describe exactly the automaton",
  "What is printed as JSON, as JSON of the intermediate form, as a dot graph or as calls of the API is well-formed (a JSON parser, a dot reader and a C compiler accept it) and describes exactly the automaton: its states, start, ends, edges by every byte value, empty edges, and, where the form has them, end ids. This holds whatever history built the automaton, whichever options select the form, and even when an attempt to print it failed before.",
  ["histories","inputs","configurations","fault_sequences"],
  "every automaton over all byte values, every option combination, every failing allocation or write in an earlier attempt",
  "Tests look at dot and JSON through fixed patterns, if at all; the calls of the API are never compiled, and the JSON of the intermediate form is never parsed.",
  ["src/libfsm/print/json.c","src/libfsm/print/irjson.c","src/libfsm/print/dot.c","src/libfsm/print/api.c","src/libfsm/vm/ir.c","src/print/json.c","src/print/dot.c","src/print/c.c","src/adt/bitmap.c"],
  [("one printer per form","src/libfsm/print/*.c"),("characters escaped for each form","src/print/*.c")],
  [("intermediate form","a strategy for each state's edges","src/libfsm/vm/ir.h")],
  ["the text written","states, edges and ids read back from it"])
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
