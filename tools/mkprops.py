#!/usr/bin/env python3
"""properties.jsonl is generated from this table (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

F="src/libfsm/"; R="src/libre/"
p("P01","Boolean operations compute exactly the set operation on languages",
  "For any two automata with start states, union accepts a word exactly when either accepts it, intersection exactly when both do, subtraction exactly when the first does and the second does not, and complement exactly when the original does not, over all words of bytes of every length. Concatenation accepts exactly the words that split into a word of the first followed by a word of the second, and intersecting with a character set accepts exactly the original's words made only of those characters. This holds for nondeterministic operands, operands with epsilon transitions, self-loops on the start state, unreachable or dead states, and empty languages.",
  ["inputs","programs"],"every pair of automata and every word over the 256 byte values",
  "a test checks a handful of automata on a handful of words; the claim quantifies over all automata and all (unboundedly long) words",
  [F+"union.c",F+"intersect.c",F+"subtract.c",F+"complement.c",F+"concat.c",F+"charset.c",F+"walk2.c",F+"merge.c",F+"complete.c"],
  [("product construction",F+"walk2.c:fsm_walk2"),("merge of state sets with base offsets",F+"merge.c:fsm_merge"),("complete then flip ends",F+"complement.c"),("epsilon glue",F+"union.c:fsm_union")],
  ["automaton returned by the operation"])
p("P02","Determinisation preserves language and pattern ids and yields a DFA",
  "Determinising any automaton gives one in which no state has an epsilon transition or two transitions on the same byte, every state is reachable from the start, and every word is accepted with exactly the same set of end ids as before. When a state limit is given, either the result is as above, or the limit is reported as reached and the automaton still accepts exactly what it did before with the same ids.",
  ["inputs","programs"],"every automaton (epsilon cycles, duplicate edges, dead parts, ids on ends) and every word",
  "subset construction errors show only on particular overlaps of labels and closures; the equality is over all words",
  [F+"determinise.c",F+"determinise_internal.h",F+"epsilons.c",F+"closure.c","src/adt/internedstateset.c","src/adt/edgeset.c"],
  [("label-group analysis of closures",F+"determinise.c:analyze_closures_*"),("interned state sets","src/adt/internedstateset.c"),("end id carry",F+"endids.c:fsm_endid_carry")],
  ["automaton after the call"])
p("P03","Minimisation gives the smallest equivalent DFA that keeps ids apart",
  "Minimising any DFA leaves every word's acceptance and set of end ids unchanged, and the result has no more states than necessary: no two states of the result agree on acceptance and ids for every continuation, and no state is unreachable or unable to reach an end. Consequently any two automata with the same language and ids minimise to the same automaton up to state numbering.",
  ["inputs","programs"],"every DFA (after determinising any automaton) and every word",
  "a partition refinement slip merges or splits states only for particular graph shapes; minimality is a statement about all pairs of states and all continuations",
  [F+"minimise.c",F+"minimise_internal.h",F+"trim.c",F+"consolidate.c"],
  [("Moore partition refinement",F+"minimise.c:build_minimised_mapping"),("initial split by end distance and metadata",F+"minimise.c:split_ecs_by_end_metadata"),("consolidation",F+"consolidate.c:fsm_consolidate")],
  ["automaton after the call"])
p("P04","Epsilon removal and reversal are exact",
  "Removing epsilon transitions leaves no epsilon transition and keeps every word's acceptance, end ids and eager outputs. Reversing accepts exactly the mirror images of the accepted words; in particular reversing twice restores the language.",
  ["inputs","programs"],"every automaton and every word",
  "depends on the shape of epsilon closures, cycles, several end states and a start state that is also an end",
  [F+"epsilons.c",F+"reverse.c",F+"closure.c"],
  [("closure edge lifting",F+"epsilons.c:fsm_remove_epsilons"),("edge reversal and new start",F+"reverse.c:fsm_reverse")],
  ["automaton after the call"])
p("P05","Every matching pattern's id is reported, and no other, through any pipeline",
  "When automata are tagged with end ids and then combined by any sequence of union, union of an array, concatenation, merging, cloning, renumbering, epsilon removal, determinisation and minimisation, the ids reported for an accepted word are exactly the ids of the tagged end states that accept it. Setting an id on all ends affects exactly the current end states; remapping or incrementing ids changes every id accordingly; ids read back are sorted, unique and complete however many there are.",
  ["histories","inputs"],"every sequence of operations over several tagged automata, every word",
  "ids can be lost or leak at any operation and only show for words that several patterns share; tests use two or three ids",
  [F+"endids.c",F+"determinise.c",F+"minimise.c",F+"merge.c",F+"union.c",F+"consolidate.c",F+"epsilons.c",F+"clone.c"],
  [("id hash table",F+"endids.c"),("carry on determinise/epsilon removal",F+"endids.c:fsm_endid_carry"),("split by ids on minimise",F+"minimise.c:split_ecs_by_end_metadata")],
  ["ids returned for the end state reached"])
p("P06","Building an automaton by API calls yields exactly the automaton described",
  "After any history of creating, adding and removing states, adding literal, any-byte and epsilon edges, setting and clearing start and end states, and attaching ids, the automaton holds exactly the states, edges, start, ends and ids the calls describe, under the state numbers they returned. Removing a state removes exactly the edges into and out of it along with its marks, renumbers consistently, and disturbs nothing else; compacting by a filter keeps exactly the chosen states.",
  ["histories"],"every history of construction and mutation calls",
  "containers grow, rehash and shift at particular sizes and orders; a test fixes one order",
  [F+"fsm.c",F+"state.c",F+"edge.c",F+"start.c",F+"end.c",F+"endids.c","src/adt/edgeset.c","src/adt/stateset.c"],
  [("state array growth and swap-removal",F+"state.c"),("edge groups","src/adt/edgeset.c"),("id table",F+"endids.c")],
  ["walk of states and edges, predicates, counts and ids after each call"])
p("P07","Copying, renumbering, trimming and completing never change what is matched",
  "Cloning and moving give an identical automaton, and changing a clone leaves the original alone; shuffling and vacuuming change at most the state numbering; trimming removes exactly the states that are unreachable from the start (and, when asked, those that cannot reach an end) and reports how many; completing adds transitions so that every state has one for every byte. None of these changes acceptance or ids of any word, and merging two automata keeps both intact side by side at the reported offsets.",
  ["inputs","histories"],"every automaton, every seed, every word",
  "renumbering errors depend on which states are removed or moved and on metadata attached to them",
  [F+"clone.c",F+"shuffle.c",F+"vacuum.c",F+"trim.c",F+"complete.c",F+"consolidate.c",F+"merge.c",F+"fsm.c",F+"collate.c",F+"mergestates.c",F+"subgraph.c"],
  [("mapping-based consolidation",F+"consolidate.c"),("reachability marking",F+"trim.c")],
  ["automaton after the call, counts returned"])
p("P08","Predicates, emptiness, equality and reachability queries answer truthfully",
  "Emptiness holds exactly when no word is accepted, and equality of two automata exactly when they accept the same words. The per-state predicates (end, complete, deterministic, nondeterministic, any-edge, incoming, outgoing, epsilons) and the state and edge counts agree with the graph, most-common-destination queries return a destination of maximal frequency, and the reachability queries (any/all reachable states satisfy a predicate) agree with graph reachability.",
  ["inputs"],"every automaton and pair of automata",
  "answers are wrong only for particular shapes (epsilon-only paths, unreachable ends, overlapping edge groups)",
  [F+"empty.c",F+"equal.c",F+"pred",F+"walk",F+"mode.c"],
  [("equality via double subtraction",F+"equal.c"),("predicates",F+"pred")],
  ["return values"])
p("P09","Generated examples and enumerated matches are accepted words, none missing",
  "An example produced for a state is a word leading from the start to it, of minimal length when a shortest path is asked for, and one is produced whenever the state is reachable. Enumerating matches up to a length produces only accepted words of at most that length, never the same word twice, and follows every accepting path of states no longer than the limit.",
  ["inputs"],"every DFA, goal state and length limit",
  "the search prunes by distance, keeps an explicit stack and mutates the automaton; omissions show only on particular cycles and limits",
  [F+"example.c",F+"shortest.c",F+"gen.c","src/adt/priq.c","src/adt/path.c",F+"cost/legible.c"],
  [("uniform-cost search",F+"shortest.c"),("depth-first generation",F+"gen.c")],
  ["strings passed to the callback or returned"])
p("P10","Required-character detection is exact",
  "For any DFA the reported set of required characters is exactly the set of bytes that occur in every accepted word, the count agrees with the set, and when the step limit is reached that is reported instead of an answer. The automaton is left as it was.",
  ["inputs"],"every DFA with a non-empty language, every step limit",
  "the statement is about all accepted words; the search backtracks over all simple paths",
  [F+"detect_required.c","src/adt/bitmap.c"],
  [("backtracking path walk with label counts",F+"detect_required.c")],["charmap and count returned"])
p("P11","Executing an automaton accepts exactly its language and reports the right state",
  "Executing a DFA on an input returns a match exactly when the whole input is in the language, with the end state the input leads to, reads the input once from the front, and stops at the first byte that cannot continue. Eager output ids are reported exactly for the states passed through, and nothing is reported as a match for an automaton without a start.",
  ["inputs"],"every DFA and every input of bytes 0..255",
  "membership for every input; tests sample inputs mostly from printable text",
  [F+"exec.c",F+"getc.c"],[("execution loop",F+"exec.c:fsm_exec")],["return value, end state, callback calls"])
p("P12","Bytecode matching agrees with the automaton under every encoding and option",
  "Compiling a DFA to bytecode and matching a buffer or a stream accepts exactly the inputs the DFA accepts, for both instruction encodings, with and without optimisation, for long and short branches, and regardless of how the input is divided into reads.",
  ["programs","inputs","configurations"],"every DFA, every input, every compile option",
  "branch sizes, fallthrough and comparison ranges depend on DFA shape and size; tests compile small regexes",
  [F+"vm.c",F+"vm/ir.c",F+"vm/vm.c",F+"vm/v1.c",F+"vm/v2.c",F+"print/ir.c"],
  [("IR strategy selection",F+"print/ir.c:make_ir"),("opcode lowering and relocation",F+"vm/ir.c"),("encoders and interpreters",F+"vm/v1.c, vm/v2.c")],
  ["match result"])
p("P13","Generated C matchers behave as the automaton",
  "The C source generated from a DFA (table-free switch style and VM style), compiled and run under each input interface, returns a match with the right end ids exactly for the inputs in the language, whatever combination of options (ranges, grouping, comments, fragments, ambiguity handling) is chosen.",
  ["programs","inputs","configurations"],"every DFA, input, I/O interface and option combination",
  "translation correctness over all DFAs; tests compile selected regexes",
  [F+"print/c.c",F+"print/vmc.c",F+"print/ir.c",F+"vm/ir.c",F+"vm/retlist.c","src/print/c.c"],
  [("switch generation with mode default",F+"print/c.c"),("vm style generation",F+"print/vmc.c")],["output of the compiled matcher"])
p("P14","Matchers generated for other languages behave as the automaton",
  "The Go, Rust, shell, awk, LLVM, assembly and VM-opcode-table code generated from a DFA returns a match exactly for the inputs in the language, and reports the end ids where the target supports them.",
  ["programs","inputs","configurations"],"every DFA and input, for each target that can be run",
  "translation correctness over all DFAs; tests cover few regexes per language",
  [F+"print/go.c",F+"print/rust.c",F+"print/sh.c",F+"print/awk.c",F+"print/llvm.c",F+"print/vmasm.c",F+"print/vmops.c","src/print"],
  [("per-language printers",F+"print")],["output of the generated matcher"])
p("P15","Structured dumps describe exactly the automaton",
  "The JSON, Graphviz, IR-JSON and API-call outputs of an automaton describe exactly its states, transitions, start, ends and ids, with every byte value escaped so that it can be read back unambiguously, whatever options for consolidating or naming are chosen.",
  ["inputs","configurations"],"every automaton (labels over all 256 byte values) and option combination",
  "escaping and range consolidation depend on which bytes appear; tests compare a few files",
  [F+"print/json.c",F+"print/dot.c",F+"print/irjson.c",F+"print/api.c",F+"print/ir.c","src/print/json.c","src/print/c.c","src/print/dot.c"],
  [("printers",F+"print")],["text printed"])
p("P16","The textual automaton format round-trips",
  "Printing any automaton in the textual format and parsing that text gives back the same states (up to numbering), transitions including epsilon and any-byte edges, start, ends and end ids, and hence the same language. Text written by hand with the documented syntax denotes the automaton the manual describes.",
  ["inputs"],"every automaton with labels over all 256 bytes, and every text of the grammar",
  "lexing and escaping of each byte value and edge grouping interact; tests use a few files",
  [F+"print/fsm.c",F+"parser.c",F+"parser.act",F+"lexer.c",F+"lexer.lx","src/print/fsm.c","man/fsm.5"],
  [("printer",F+"print/fsm.c"),("parser",F+"parser.act")],["automaton parsed back"])
p("P17","A compiled PCRE pattern matches exactly the strings the pattern denotes",
  "For every supported pattern built from literals, escapes, character classes, dot, groups, alternation, counted and starred repetition, inline flags and anchors, the compiled automaton accepts a string exactly when the pattern matches somewhere in it under PCRE's rules (matching anywhere unless anchored, and end-of-string anchors allowing a final newline where they do in PCRE). Patterns that cannot match anything compile to an automaton that accepts nothing.",
  ["programs","inputs"],"every pattern of the supported syntax and every subject string",
  "patterns compose without bound and anchors interact with nullability; the claim is over all subjects",
  [R+"ast.c",R+"ast_compile.c",R+"ast_analysis.c",R+"ast_rewrite.c",R+"parser.act",R+"dialect/pcre",R+"re.c",R+"class"],
  [("parser actions",R+"parser.act"),("anchor analysis",R+"ast_analysis.c"),("Thompson-style compile",R+"ast_compile.c"),("rewrites",R+"ast_rewrite.c")],
  ["automaton returned"])
p("P18","Literal, like, glob, SQL and native patterns match what their dialect defines",
  "In each of the simpler dialects a pattern denotes exactly the language its documentation gives it: literals match only themselves, the wildcard dialects' single and multiple wildcards match any one and any number of bytes and all other bytes match themselves, SQL and native operators have their usual regular meaning, and the dialects without anchors match the whole string.",
  ["programs","inputs"],"every pattern of each dialect and every subject string",
  "over all patterns and subjects",
  [R+"dialect/like",R+"dialect/glob",R+"dialect/literal",R+"dialect/native",R+"dialect/sql",R+"parser.act",R+"re.c"],
  [("dialect table and forced flags",R+"re.c:re_dialect"),("dialect grammars",R+"dialect")],["automaton returned"])
p("P19","Matching flags have exactly their documented effect",
  "Case-insensitive compilation accepts a string exactly when some casing of ASCII letters of pattern and subject agrees, and changes nothing else; anchored compilation accepts exactly whole-string matches; the reverse flag accepts exactly mirror images; dot-matches-newline and extended-syntax flags affect only the dot and only unescaped whitespace and comments. Flags given inline apply exactly to their scope.",
  ["programs","configurations","inputs"],"every pattern, flag combination and subject",
  "flag scope and interaction with classes, ranges and inversion is combinatorial",
  [R+"re.c",R+"ast_compile.c",R+"ast_rewrite.c",R+"parser.act"],
  [("case folding on edges",R+"ast_compile.c:addedge_literal"),("flag masks",R+"parser.act")],["automaton returned"])
p("P20","Literal and anchoring analysis of patterns is truthful",
  "When a pattern is reported to be a literal, compiling it gives exactly the language of strings that contain, start with, end with or equal that literal according to the reported anchoring; when reported unsatisfiable it matches nothing. When a pattern is reported anchored at the start or end, no match begins after the start or ends before the end (up to a final newline).",
  ["programs"],"every pattern",
  "a claim about the whole language of each pattern",
  [R+"re.c",R+"ast.c",R+"ast_analysis.c"],[("literal extraction",R+"ast.c:ast_expr_is_literal"),("anchor flags",R+"ast_analysis.c")],["reported category, string and anchoring"])
p("P21","Malformed or unsupported patterns are refused with a position, never misread",
  "A pattern outside the supported syntax is rejected with an error code and, where the code carries positions, with byte offsets that lie within the pattern and in order; no pattern crashes the compiler, and patterns rejected leave nothing behind. A syntactically valid and supported pattern is never rejected.",
  ["inputs"],"every byte string as pattern, in every dialect",
  "error paths depend on where the malformation sits; tests sample a list",
  [R+"parser.act",R+"re.c",R+"strerror.c",R+"dialect"],[("error actions and marks",R+"parser.act")],["error returned"])
p("P22","Multi-string matching finds exactly the given strings with their ids",
  "The automaton built from a set of strings accepts exactly the strings that contain, start with, end with or equal a member, according to the anchoring requested, and reports for an accepted word exactly the ids of the members that match it there. The order and duplication of insertions, members that are prefixes or suffixes of others, empty strings and arbitrary bytes make no difference.",
  ["inputs","histories"],"every set of byte strings, flag combination and subject",
  "failure links only matter for particular overlaps",
  [R+"re_strings.c",R+"ac.c"],[("trie and failure edges",R+"ac.c")],["automaton and ids"])
p("P23","Combined pattern groups report each pattern exactly when it matches",
  "Compiling patterns with linkage information, combining them as a repeated group, then determinising and minimising, yields an automaton that for every subject reports pattern i (by eager output or end id) exactly when pattern i compiled alone matches that subject. Eager outputs placed by hand survive determinisation, minimisation and epsilon removal in the same way.",
  ["programs","inputs"],"every list of supported patterns and every subject",
  "combining changes linkage of anchored and nullable patterns in many cases; over all subjects",
  [F+"union.c",F+"eager_output.c",F+"determinise.c",F+"minimise.c",R+"ast_compile.c"],
  [("group analysis and rewiring",F+"union.c:fsm_union_repeated_pattern_group"),("eager output table",F+"eager_output.c")],["ids emitted by execution"])
p("P24","Group interpolation substitutes exactly the referenced groups",
  "Interpolating a format string replaces each escaped group number by that group's text, an escaped escape by the escape character, and leaves every other byte alone; nonexistent groups, trailing escapes and unknown escapes are errors reported with the offsets of the offending reference, and output never exceeds the given buffer, failing with an error when it does not fit.",
  ["inputs"],"every format string, escape character, list of groups and buffer size",
  "a small state machine whose edges (end of string after digits, exact fit, overflow of numbers) tests sample",
  [R+"re_interpolate_groups.c"],[("three-state scanner",R+"re_interpolate_groups.c")],["return value, output, positions"])
p("P25","Sets and maps of states and edges behave as mathematical sets under any history",
  "The state sets, edge sets, id maps, interned sets and bit maps used throughout hold exactly the elements added and not removed, in order where an order is promised, report membership, size, emptiness, equality and iteration accordingly, and map each interned set to one identity, for any sequence of operations including growth, bulk addition, copying and renumbering.",
  ["histories"],"every sequence of container operations",
  "growth thresholds, hash collisions and ordering only show for particular histories",
  ["src/adt/stateset.c","src/adt/edgeset.c","src/adt/idmap.c","src/adt/internedstateset.c","src/adt/bitmap.c","src/adt/set.inc","src/adt/tupleset.c"],
  [("sorted arrays","src/adt/stateset.c"),("edge groups","src/adt/edgeset.c"),("hash tables","src/adt/idmap.c, src/adt/internedstateset.c")],["results of queries after each operation"])
p("P26","Queues deliver in their promised order, each element once",
  "The work queue delivers elements first-in first-out, each exactly once, refusing exactly those pushed when it holds as many as it was made for; the priority queue always delivers an element of least cost among those present, and lookups and cost updates find exactly the entries pushed.",
  ["histories"],"every interleaving of pushes, pops and updates",
  "shifting, refusal and ties happen at particular counts and orders",
  ["src/adt/queue.c","src/adt/priq.c"],[("array queue","src/adt/queue.c"),("sorted list","src/adt/priq.c")],["popped elements"])
p("P27","Generated lexers split every input by longest match in the right zone",
  "A lexer generated from any specification of tokens and zones divides any input, in the current zone, into the longest texts which some pattern of that zone can still begin with, deciding with one character of lookahead and never going back: each such text is the token whose pattern it matches, a skipped text where that pattern has no token, and reported as unknown where no pattern matches it. Zones are entered and left where the specification says, and input which ends inside a zone that has an exit is an error. Token text and the byte, line and column positions of tokens are those of the input, whichever way the lexer is asked to read or buffer it.",
  ["programs","inputs"],"every lexer specification and every input",
  "longest match with pushback and zone changes depends on interactions of patterns and inputs",
  ["src/lx/main.c","src/lx/print/c.c","src/lx/parser.act","src/lx/ast.c","src/lx/tokens.c","src/lx/lexer.lx"],
  [("zone DFA construction","src/lx/main.c"),("generated zone functions","src/lx/print/c.c")],["token stream of the generated lexer"])
p("P28","Ambiguous token definitions are diagnosed, and only those",
  "A lexer specification in which some text could be two different tokens in one zone is rejected with a diagnosis, and a specification without such text is accepted.",
  ["programs"],"every lexer specification",
  "ambiguity is a statement about all texts",
  ["src/lx/main.c","src/lx/ast.c"],[("conflict detection on end ids","src/lx/main.c")],["exit status and diagnostics"])
p("P29","The command-line tools compute what the library computes",
  "The pattern tool exits with success exactly when the texts match the pattern(s) and prints the automaton of the pattern; the automaton tool applies the requested operations to its inputs and prints the result, or answers its queries through its exit status, consistently with the language of the inputs.",
  ["inputs","configurations"],"every pattern, text and combination of options",
  "options combine; tests run fixed command lines",
  ["src/re/main.c","src/fsm/main.c","src/rx/main.c"],[("option handling","src/re/main.c, src/fsm/main.c, src/rx/main.c")],["exit status and output"])
p("P30","A failed memory allocation is reported and harms nothing",
  "If any single allocation (or every allocation from some point on) fails during an operation, the operation returns its error indication or a correct result, without crashing, and automata not consumed by the operation remain valid and usable and denote the same language.",
  ["fault_sequences"],"every allocation index at which an operation's memory request can fail",
  "needs a fault at each allocation point",
  [F+"determinise.c",F+"minimise.c",F+"state.c",F+"edge.c",F+"clone.c","src/adt/alloc.c"],
  [("user-supplied allocator","include/fsm/alloc.h"),("error paths",F)],["return value and automata afterwards"])
p("P31","Results depend only on the inputs",
  "The same sequence of operations on the same inputs produces the same automata, numbering, ids and printed output, whatever ran earlier in the process, whatever memory contained and wherever it was placed.",
  ["histories","configurations"],"every sequence of operations, prior history and memory content",
  "a single test run sees a single memory layout",
  [F+"determinise.c",F+"state.c","src/adt/internedstateset.c","src/adt/idmap.c","src/adt/edgeset.c"],
  [("hashing of contents, not addresses","src/adt/hash.h"),("initialisation of states",F+"state.c")],["dumps of two runs"])
p("P32","Converting automata and patterns back to patterns keeps the language",
  "Printing a parsed pattern in PCRE syntax and compiling that text accepts the same strings as the original pattern, and converting an automaton to a pattern denotes the automaton's language.",
  ["programs"],"every pattern and automaton convertible",
  "precedence and escaping depend on nesting",
  [R+"print/pcre.c",R+"ast_new_from_fsm.c",R+"ast.c","src/print/pcre.c"],
  [("printer",R+"print/pcre.c"),("state elimination",R+"ast_new_from_fsm.c")],["language of the printed pattern"])
p("P33","Capture positions report where each group of the matched path began and ended",
  "Execution of an automaton carrying capture paths (an id, a start and an end state) over an accepted input reports, for each id, the position at which the input first left a path's start along a route of labelled edges to its end, and the last position after that at which it stood at the end (for a path whose start and end are one state, where it stood there), and no position for an id where that did not happen; an end is never before its start. This holds for the automaton as built and for the results of union, array union and concatenation (paths and ids moved by the reported bases), cloning, determinisation, trimming and minimisation, where a state stands for all the states it was made of.",
  ["inputs","histories"],"every automaton with capture paths, pipeline and input",
  "capture actions are remapped by every operation; tests use a few shapes",
  [F+"capture.c",F+"exec.c",F+"determinise.c",F+"consolidate.c",F+"merge.c"],
  [("capture actions",F+"capture.c"),("resolution on exec",F+"exec.c")],["positions returned"])
p("P34","The result of any operation is an automaton like any other",
  "In every sequence of library operations each operation gives, on the results of those before it, what it would give on the same automaton built by hand: the language, ids and form it promises, whatever operations made its operands; and questions asked of an automaton in between neither change it nor the operations that follow.",
  ["histories"],"every sequence of operations and queries",
  "marks, caches and orderings left behind by one operation are only seen by the next; tests apply few operations in a row",
  [F+"walk2.c",F+"complement.c",F+"complete.c",F+"trim.c",F+"determinise.c",F+"minimise.c",F+"consolidate.c",F+"merge.c"],
  [("operations on fsm","include/fsm/bool.h"),("state marks",F+"internal.h")],["dumps after every step"])
p("P35","A compiled pattern file reports exactly the lines that match",
  "The rx tool gives every line of its pattern files an id (the line's number in a single file, the file's number among several), declines exactly the lines that are malformed, unsupported, unsatisfiable, outside the character set or beyond the limit and writes those out in order, and compiles the others into one matcher which for every text reports exactly the ids of the lines whose pattern matches it, under the dialect of each file and the flags given. Ambiguity is diagnosed exactly when some text matches lines of different ids, with a true example; strict mode fails exactly at malformed or unsatisfiable lines.",
  ["inputs","configurations"],"every set of pattern files, option and text",
  "the repository's tests run rx on a few fixed files and compare output text; whether the combined matcher reports the right lines is a claim about all texts and all sets of patterns",
  ["src/rx/main.c","src/libre/re_strings.c","src/libre/ac.c",F+"union.c",F+"determinise.c",F+"print.c"],
  [("categorize","src/rx/main.c:categorize"),("build_pattern_fsm","src/rx/main.c:build_pattern_fsm"),("conflict","src/rx/main.c:conflict")],["rx -l fsm, -l c, -q, -d and -v"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
