#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the wording lives in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": [dict(zip(("name","meaning","where"), s)) for s in (state or [])],
                  "mechanism": [dict(zip(("name","where"), m)) for m in mech],
                  "observe_at": observe, "hook_needed": hook}})
D="dandy/src/dfa/mod.rs"; DE="dandy/src/dfa/eval.rs"; N="dandy/src/nfa/mod.rs"; NE="dandy/src/nfa/eval.rs"; W="dandy/src/nfa/words.rs"
RX="dandy/src/regex/mod.rs"; PF="dandy/src/parser/fa.rs"; PM="dandy/src/parser/mod.rs"; PR="dandy/src/parser/regex.rs"; T="dandy/src/table/mod.rs"
DP="dandy/src/dfa/parse.rs"; NP="dandy/src/nfa/parse.rs"; U="dandy/src/util.rs"; DR="dandy-draw/src/lib.rs"; P2="dandy-draw/src/pos2.rs"; WA="dandy-wasm/src/lib.rs"
CM="dandy-cli/src/main.rs"; CA="dandy-cli/src/automata.rs"; CB="dandy-cli/src/binary_op.rs"; CE="dandy-cli/src/equivalence.rs"; CN="dandy-cli/src/enumerate.rs"; CT="dandy-cli/src/test_files.rs"

p("C01","Evaluation follows the transition table in every interleaving of sessions",
  "Whatever order any number of evaluators of one DFA or NFA are stepped, cloned, fanned out and queried in, each evaluator's current state (for an NFA: the ε-closed set of states) and acceptance are exactly those its own input prefix leads to in the automaton's table, and a word given at once, as graphemes or step by step gets the same verdict. "
  "Once an element outside the alphabet has been fed, that evaluator never accepts again. Evaluating changes neither the automaton nor any other evaluator.",
  ["schedules","inputs","histories"],
  "every DFA and NFA (with and without ε-moves, any initial state, any alphabet), every set of concurrent evaluator sessions and every interleaving of step, step_multiple, step_all, clone and query, with any elements inside or outside the alphabet, for every hash seed",
  "The tests step a handful of fixed automata on fixed words in one session each; the claim is over all automata, words, interleavings of several live sessions and hash-map orders.",
  [DE,NE,D,N],[("Evaluator step / closure",DE+", "+NE),("accepts, accepts_graphemes, closure",D+", "+N)],
  ["return values of step/step_multiple/step_all/current_state(s)/is_accepting/accepts/accepts_graphemes/closure/graphemes_only"],
  [("current_state / current_states","position of one session",DE+", "+NE),("unknown_elem_seen","session is poisoned",DE+", "+NE)])

p("C02","Word enumeration is complete, ordered, duplicate-free and stays ended",
  "Enumerating an ε-free NFA yields exactly the words of its language, shortest first and, among words of equal length, in the order of the alphabet, each once, as strings, as components and as alphabet indices alike. "
  "When the language is finite the enumeration ends after its last word and stays ended however often it is asked again. Pausing, resuming and interleaving several enumerations of the same automaton changes none of their outputs.",
  ["inputs","schedules","histories"],
  "every ε-free NFA (including empty, finite, sparse and infinite languages), every number of words requested, every interleaving of several iterators and of the three output forms",
  "The tests enumerate a few fixed automata to a fixed depth; a skipped length class, a premature end or a repeated word shows only for particular cycle structures and depths.",
  [W,N],[("WordComponentIndices::next / next_word and length-feasibility matrices",W)],["items of words(), word_components(), word_component_indices()"],
  [("iterator position","word and states reached so far",W)])

p("C03","DFA reductions keep the language and reach the unique minimum",
  "Minimising a DFA, merging its indistinguishable states or removing its unreachable states never changes its alphabet or accepted language, in any order and any number of repetitions. "
  "A minimised DFA has exactly as many states as the smallest complete DFA for the language; removing unreachable states keeps exactly the reachable ones; the reported equivalence classes partition all states into exactly the classes of states that accept the same continuations. "
  "Every surviving state carries the name of an original state with the same future, and no operation leaves a malformed automaton or panics.",
  ["inputs","histories"],
  "every DFA and every sequence of reductions and queries applied to it, for every hash seed",
  "Tests minimise a few fixed DFAs; which states survive and how classes split depends on shape, on the position of the initial state and on hash order.",
  [D],[("state_equivalence_classes_idx, merge_nondistinguishable_states, remove_states, reachable_state_idx",D)],
  ["alphabet, states, transitions and initial state of the result; state_equivalence_classes; (un)reachable_states; has_reachable_accepting_state"])

p("C04","DFA set operations compute exactly the set operation on languages",
  "For two DFAs over the same set of symbols, in whatever order each lists them, union, intersection, difference, symmetric difference and any user-chosen product accept exactly the corresponding combination of the two languages, over the first operand's alphabet and with only reachable, distinctly named states. "
  "They report failure exactly when the symbol sets differ. Inverting a DFA accepts exactly the words over its alphabet it rejected before, and twice is the identity; the operands are never changed.",
  ["inputs","histories"],
  "every pair of DFAs (equal, permuted or different alphabets, clashing and confusing state names) and every chain of set operations on earlier results",
  "Tests combine three or four fixed pairs listing the same alphabet in the same order; chains, permuted alphabets and name clashes are not sampled.",
  [D,U],[("product_construction, invert, alphabet_equal",D+", "+U)],["the resulting automaton through its public accessors, or None"])

p("C05","NFA union, intersection and product compute the right language",
  "For two NFAs over the same set of symbols, in whatever order each lists them, with or without ε-moves, union and intersection accept exactly the union and intersection of the two languages, and a general product accepts a word exactly when a pair of states, one reachable in each operand by that word, satisfies the caller's predicate. "
  "They report failure exactly when the symbol sets differ, and union then hands both operands back unchanged. The states of every result have distinct names, whatever the operands' names.",
  ["inputs","histories"],
  "every pair of NFAs incl. ε-cycles, multi-target states, permuted alphabets and clashing names, and chains of these operations on earlier results, for every hash seed",
  "Tests cover a few fixed pairs without ε-moves in the product and with one order of the alphabet; name clashes depend on results of earlier operations.",
  [N,U],[("union, intersection, product_construction",N)],["the resulting automaton through its public accessors, Err/None"])

p("C06","NFA simplification keeps the language",
  "Removing ε-moves, removing unreachable states and optimising an NFA never change its alphabet or accepted language, in any order and any number of repetitions, and leave a well-formed automaton. "
  "After removing ε-moves none is left, at most one state has been added and, if there were any, no dead end remains (a state neither initial nor accepting whose transitions all lead to dead ends); after removing unreachable states exactly the reachable ones are left. The result is the same for every hash seed.",
  ["inputs","histories"],
  "every NFA incl. ε-cycles, ε-chains into accepting states, unreachable and dead states, any initial index; every sequence of these operations, for every hash seed",
  "Tests simplify a few fixed NFAs; ε-cycles, accepting states reached only by ε, and the index arithmetic after removing states depend on particular shapes.",
  [N],[("remove_epsilon_moves, optimize, remove_states, reachable_state_idx, closure",N)],["the automaton through its public accessors after each step"])

p("C07","Determinisation and equivalence verdicts are right",
  "Converting an NFA to a DFA, or a DFA to an NFA, keeps the alphabet and the accepted language and yields a well-formed automaton of which, for a DFA made from an NFA, every state is reachable. "
  "Two DFAs or two NFAs are declared equivalent exactly when they have the same set of symbols and accept the same words, in either direction of asking, whatever the order of the alphabet, the number and names of the states. "
  "Verdicts, languages and numbers of states do not depend on hash seeds or on what was asked before.",
  ["inputs","histories"],
  "every pair of DFAs/NFAs (equal, equal up to renaming/permutation/state splitting, differing in one late transition or one accepting flag, different alphabets) and every chain of conversions",
  "Tests compare a few fixed pairs; a wrong verdict needs a difference that shows only after a long word or in a pair of states explored in a certain order.",
  [N,D,U],[("to_dfa, to_nfa, equivalent_to, alphabet_equal",N+", "+D+", "+U)],["verdicts and resulting automata"])

p("C08","A regular expression denotes its language through parser and NFA",
  "Every regular expression in the documented syntax is parsed with the documented precedence and escapes, and the NFA made from it accepts exactly the language it denotes, over exactly the characters that occur in it, listed in order of first appearance. "
  "The same holds of the NFA made from an expression put together from the library's public types. The resulting NFA and its printed form are the same for every hash seed, and so is the determinised form up to the names of its states. Malformed expressions are rejected with an error, never accepted as something else and never with a panic.",
  ["inputs","configurations"],
  "every regular expression of bounded size (nesting, alternation, ∅, ε, escapes, multi-codepoint graphemes, redundant parentheses, surrounding whitespace), every malformed variant, every hash seed",
  "Tests convert a handful of expressions and check few words; wrong wiring of nested stars or of ∅ and ε shows only for particular nestings, and order only for particular hash seeds.",
  [PR,RX,PM],[("parser::regex::full_regex",PR),("Regex::to_nfa, calculate_alphabet",RX)],["parse result, alphabet, states, language, table of the NFA"])

p("C09","Saved automata survive restart exactly",
  "Whatever DFA or NFA a session of loading and transforming has produced, the table printed for it, plain or ASCII, read back after a restart yields the very same automaton: alphabet in order, states in order with names, initial and accepting marks and all transitions; its columns stand below one another, character by character. "
  "A regular expression, whether parsed or put together from the library's public types (of single graphemes), printed and read back denotes the same language over the same characters. A session that crashes and recovers from its last saved tables at any points ends in the same state as one that never crashed.",
  ["crash_points","histories","inputs"],
  "every history of load/transform/save/crash/recover over a store of tables with crashes at arbitrary points, and every automaton whose names and symbols the format can express and whose DFA alphabet is non-empty",
  "Tests round-trip a few fixed automata; column layout, ε columns, empty sets, ε-only alphabets and names that resemble markers arise from particular transformation results.",
  [T,D,N,RX,PF,DP,NP],[("gen_table, Table::to_string, Regex::to_string",D+", "+N+", "+T+", "+RX),("parsers and TryFrom",PF+", "+DP+", "+NP)],
  ["table text, the automaton parsed from it"],[("store","tables that were durably saved before the crash","simulated by the harness")])

p("C10","A drawing shows the whole automaton, the same every time",
  "Drawing an automaton shows every state exactly once with its full name and its accepting and initial marks, shows every transition, ε-move and self-loop as an arrow between the right states labelled with exactly the symbols concerned, and shows nothing else. "
  "Arrows that share a level never run over one another and states never overlap; offset and scale are applied uniformly to everything drawn. Redrawing the same automaton with the same options, in any frame order and for any hash seed, draws exactly the same picture.",
  ["inputs","schedules","configurations"],
  "every DFA and NFA whose states include the initial state anywhere, all drawing options, all interleavings of frames of several automata on one surface, all hash seeds",
  "The repository has no drawing tests; determinism across hash seeds and completeness for every shape cannot be sampled by eye.",
  [DR,P2],[("draw_states, group_arrows, calc_arrow_level_states, OffsetScaleDrawer",DR)],["the sequence of Drawer calls (circles, lines, text) of each frame"])

p("C11","ASCII art is total, stable and shows the states",
  "Turning any DFA or NFA into ASCII art succeeds, whatever its names, symbols and number of transitions, and gives the same text every time and for every hash seed. "
  "The last line lists every state in order with its name, double parentheses exactly for accepting states and an arrow's head before the initial one alone. Above it, every connection of two states and every self-loop is one unbroken line with its head on the proper side, standing on bars over the right states, and there are no others; the label of an arrow between two states appears below its line, intact where it fits.",
  ["inputs","configurations"],
  "every DFA and NFA, incl. long and non-ASCII names and labels, many parallel arrows, empty transition sets; every hash seed",
  "There are no ASCII-art tests; overlong labels, wide characters and hash-order dependent placement need particular inputs.",
  [DR],[("dfa_ascii_art, nfa_ascii_art, ascii canvas",DR)],["the returned text"])

p("C12","The JavaScript-facing handle registry behaves like a sequential store",
  "Across any interleaving of calls by any number of workers, a handle returned by a load or conversion always denotes that automaton and nothing else until it is deleted or consumed; handles are never reused within a worker, deleted or foreign handles are reported absent and never touch another object, and the result of each call is what the library gives for the objects concerned. "
  "A failed load or a failed drawing call (no page, no canvas, lost context) leaves every other object and all later calls unaffected. Workers never see one another's objects.",
  ["histories","schedules","fault_sequences"],
  "every sequence of load/convert/minimise/compare/print/delete/draw calls with valid, stale, foreign and never-issued handles, malformed inputs and missing page, interleaved over several workers",
  "The crate has no tests; stale-handle, consume-on-convert and post-failure behaviour are properties of whole call histories.",
  [WA],[("DFA_MAP, NFA_MAP, REGEX_MAP, KEYGEN",WA)],["return values of every exported function"],
  [("maps","live objects by handle",WA),("KEYGEN","next handle",WA)])

p("C13","Damaged automaton files are never misread",
  "A DFA or NFA text is accepted exactly when it follows the documented format, and then yields exactly the automaton its rows describe, whatever the layout, comments, blank lines and spelling of markers. "
  "A text that was cut short, has lost, repeated, swapped or altered pieces is either still a valid description, and then read as exactly that, or rejected with an error; reading never panics or hangs.",
  ["fault_sequences","inputs","crash_points"],
  "every valid table in every layout, and every truncation point and sequence of drops, duplications, swaps, corruptions of characters, fields, lines and blocks of it",
  "Tests reject one example per error kind; what a reader makes of a torn or damaged file depends on where the damage lies.",
  [PF,PM,DP,NP],[("dfa/nfa parser, TryFrom validation",PF+", "+DP+", "+NP)],["Ok/Err of parse and validation, the automaton obtained"])

p("C14","Transient I/O trouble does not change what the command line prints",
  "For every command and input, short reads and writes, interrupted system calls, misleading file-size hints and clock jumps change nothing in what the program writes to standard output and to its output file, apart from the time a log line tells. "
  "A differing hash seed changes at most the order and names of the states and symbols it lists, never the results. "
  "What it prints is the whole result in order, and it terminates.",
  ["fault_sequences","inputs","configurations"],
  "every subcommand with every option over simulated files, and every sequence of transient faults at any system call",
  "The CLI has almost no tests and none runs it under faults; the claim is over all fault positions and hash seeds.",
  [CM,CA,CB,CE,CN,CT],[("sink, File::create, fs::read_to_string",CM+", "+CA+", "+CE+", "+CT)],["bytes written to stdout and to the output file, exit"])

p("C15","Hard I/O errors are contained and reported by the command line",
  "When an input file is missing, unreadable, a directory, or not valid text, the program says so with the reason the system gave (and, of two operands, which one it is) and never reports a result for it; in an equivalence check all other files are still judged, each exactly as without the fault and in the order given. "
  "When the output file cannot be created the program says so and standard output is unaffected. No failing read, open, or create makes it crash, hang or print a wrong result.",
  ["fault_sequences","inputs"],
  "every subcommand over simulated files and every assignment of hard faults (missing file, permission, directory, I/O error, bad encoding, uncreatable output) to its files and system calls",
  "No test runs the CLI with failing files; containment must hold for every fault position among many files.",
  [CM,CA,CB,CE,CN,CT],[("load_file, EquivalenceResult::FailedToLoad, out_file handling",CA+", "+CE+", "+CM)],["stdout, stderr, output file, exit status"])

p("C16","The output file mirrors the results, also across crashes",
  "When a run ends normally, the output file holds exactly the result lines printed to standard output, each on a line of its own, in order, with nothing left over from earlier contents. "
  "When a run is killed or its disk or its reader fails at any point, the output file and standard output each hold a prefix of the complete result text, and they differ by at most the one result being written; running again afterwards produces the complete file.",
  ["crash_points","fault_sequences","inputs"],
  "every subcommand and input, with and without logs, and a crash, full disk, write error or closed reader at every system call",
  "No test uses the output file; crash points cannot be sampled by running the program.",
  [CM,CB,CE,CN,CT],[("sink closure, File::create",CM)],["stdout bytes and output file bytes, in time order"],
  [("out_file","durable results",CM)])

p("C17","Command-line equivalence verdicts are right",
  "The equivalence command prints, for each listed file and in the order given, one verdict, and it says equivalent exactly when the automaton in that file, of the tested type, has the same alphabet and language as the reference automaton of its type; invalid and unparsable files are reported as such. "
  "With minimisation required, an equivalent but non-minimal DFA is reported as not minimised and no other. In boolean form exactly the equivalent ones are true; paths are shortened to exactly the requested number of trailing components. "
  "When logs are on, the reference is shown as a table of that very language, and the closing summary counts exactly the files that passed.",
  ["inputs","configurations","histories"],
  "every reference and every list of files of every type combination, with every combination of options",
  "The CLI test covers only fixed fixtures of parsing; verdicts depend on combinations of types, options and file contents.",
  [CE,CA,CM],[("equivalence, test_equivalence, prepare_to_compare_with, last_n_components",CE+", "+CA+", "+CM)],["stdout lines"])

p("C18","Command-line set operations print the right automaton",
  "Union, intersection, difference and symmetric difference of two files of any types print a table of a DFA that accepts exactly that combination of the two languages, minimal when minimisation is asked for. "
  "Words enumerated from the result are exactly its first words in length-then-alphabet order with the right count when fewer exist, and the comparison with a third automaton says equivalent exactly when it is. Inputs with different alphabets are refused. When logs are on, exactly the inputs that were no DFAs are said to have been converted.",
  ["inputs","configurations"],
  "every pair of DFA/NFA/regex files, every operation and every combination of options",
  "No test runs these commands; the result depends on conversions, alphabet orders and options together.",
  [CB,CA],[("binary_op",CB)],["stdout lines parsed back by an independent reader"])

p("C19","Command-line enumeration and word tests are right",
  "Enumerating a regular expression or an automaton file prints exactly the first requested words of its language in length-then-alphabet order, marks the empty word, and tells how many there are when fewer exist. "
  "Testing files of words marks exactly the accepted lines, counts them correctly, and in whole-file mode reports the first rejected line of each file or success, for files in the order given. When logs are on, the loaded automaton is shown as a table of that very language.",
  ["inputs","configurations"],
  "every regex and automaton file (with ε-moves, duplicates, empty languages), every count, and every list of word files with any line endings",
  "No test runs these commands; conversions before enumeration and boundary counts depend on the input.",
  [CN,CT,CA],[("enumerate_regex, enumerate_file, test_files",CN+", "+CT)],["stdout lines"])

p("C20","The desktop viewer shows what was rendered last",
  "From its second frame on, the viewer's picture is exactly the drawing of the automaton described by the text that stood in its text field when its Render button was last clicked – at first the example – and nothing when that text describes none; typing, pasting, selecting, pressing or releasing elsewhere, resizing, losing focus, late frames and clock jumps never change it. "
  "What the user types or pastes stays in the field. No text and no sequence of events makes the program panic. EguiDrawer paints every requested circle, line, rectangle and text at the requested place, size, width and colour.",
  ["histories","schedules","fault_sequences"],
  "every history of typing, pasting, clicking, key presses, window and pointer events (lost, reordered, batched in one frame), clock readings and window sizes; every automaton and drawing option",
  "There are no GUI tests; the picture depends on the whole history of events.",
  ["dandy-egui/src/main.rs","dandy-draw/src/egui.rs",DR],[("update closure, dfa_to_render","dandy-egui/src/main.rs"),("EguiDrawer","dandy-draw/src/egui.rs")],["the shapes painted in every frame"],
  [("dfa, dfa_to_render","edited and rendered text","dandy-egui/src/main.rs")])
p("C21","The browser canvas shows what was asked for, where it was asked for",
  "Drawing a loaded automaton on a canvas paints every circle, line, rectangle and centred text asked for on that canvas, at the requested place, size, width and colour, whatever state the page's own scripts left the canvas's context in and however the drawer was obtained, and paints on no other canvas. "
  "It reports success exactly then: when the window, the element or the context is missing or of another kind, or the context is lost while drawing, it does not report success, and later drawings are unaffected.",
  ["histories","fault_sequences","inputs","configurations"],
  "every automaton and drawing option, every prior state of a context, every order of drawings on several canvases, and every missing, foreign or failing window, document, element and context",
  "There are no browser tests; what a canvas shows depends on the state left behind by earlier calls.",
  ["dandy-draw/src/canvas.rs",WA,DR],[("CanvasDrawer","dandy-draw/src/canvas.rs"),("draw_dfa, draw_nfa",WA)],["the calls each canvas receives, painted by a model canvas; the return value"])
p("C22","The web page answers for exactly what its fields say",
  "Once the bindings are loaded, after each click of one of its buttons the web page shows the result for exactly the texts that stood in that section's fields at the click: Check! says whether the two automata are equivalent, and, when a text is not readable, gives no verdict but names the field and the reason; Convert! and Minimize! show a table of an equivalent automaton of the wanted kind (minimal when minimised) or the reason why there is none; Visualize! leaves the picture of that NFA alone on the canvas. "
  "A click changes neither the fields nor another section, an error shown earlier is gone after a success, and no automaton stays loaded in the bindings afterwards. Clicks before the bindings are loaded, failing calls of the bindings, a lost canvas context or a reload leave later clicks unaffected.",
  ["histories","schedules","fault_sequences","inputs"],
  "every history of writing and copying valid and unreadable texts, clicks, page loads, late or failed loading of the bindings, failing calls and lost canvas contexts",
  "Nothing in the repository runs the page; what it shows, and what stays loaded, depends on the whole history of edits, clicks and failures.",
  ["website/index.html",WA],[("checkDfaEq, checkNfaEq, nfaToDfa, visualizeNfa, minimizeDfa, regexToNfa, run","website/index.html")],["texts of fields, buttons and error lines; texts visible on the canvas; which handles the bindings still know"],
  [("fields, buttons, results, canvas","what the user sees","website/index.html"),("DFA_MAP, NFA_MAP, REGEX_MAP","what stays loaded",WA)])
p("C23","The reason given for rejecting a description is true",
  "When a DFA or NFA description whose rows can be read is rejected, the error names a flaw that this text really has – the symbol that is listed twice, the state that is defined twice, the row with the wrong number of columns with both numbers, the state and the target that does not exist, no initial state or several – and its message names the same symbols, states and numbers. A text without rows is never said to have such a flaw, and a text that has one is never accepted.",
  ["inputs","fault_sequences"],
  "every description, in every layout, damaged in any way (torn, lost, repeated, altered or swapped lines, fields and characters), with any number of flaws at once",
  "Tests check one example per error kind; with several flaws, odd names or a damaged layout an error can blame the wrong place.",
  [PF,DP,NP],[("DfaParseError, NfaParseError",DP+", "+NP)],["error values and their messages"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
