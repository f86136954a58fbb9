DST="deterministic simulation: "
TRUST=" Sampled, seeded exploration; trusts the independent reference model in sim/src/model.rs and reader.rs."
NOTE={
"C01":(DST+"seeded interleavings of evaluator sessions against a reference table walker","exploration","Every live session is compared with the table after every operation, under two hash seeds per run."+TRUST),
"C02":(DST+"seeded interleavings of paused and resumed enumeration sessions against the reference word order","exploration","Each word of each session is compared with the reference order, also after the end. The number of long words per run is bounded by an effort limit."+TRUST),
"C03":(DST+"seeded histories of reductions under several hash seeds against partition refinement","exploration","Language, minimality, names and partitions are checked after every operation."+TRUST),
"C04":(DST+"seeded programs of set operations against the reference pair automaton","exploration","Every result and every operand is checked after every operation."+TRUST),
"C05":(DST+"seeded programs of NFA operations with crashing predicates against reference sets of reachable pairs","exploration","Languages are compared exactly by reference subset construction."+TRUST),
"C06":(DST+"seeded histories of simplifications under several hash seeds against the reference language and shape","exploration","Results are also compared with one another across hash seeds."+TRUST),
"C07":(DST+"seeded histories of conversions and equivalence questions under several hash seeds against reference determinisation","exploration","Verdicts are exact: the reference decides equivalence by product search."+TRUST),
"C08":(DST+"seeded expressions and damaged texts under several hash seeds against an independent reader and Thompson construction","exploration","Texts whose meaning the documentation leaves open are only required not to crash."+TRUST),
"C09":(DST+"seeded sessions with crash and restart from durable tables against the undisturbed session","exploration","Saves are atomic in the simulated store; torn files are C13's subject."+TRUST),
"C10":(DST+"seeded recording canvas with a lost-canvas fault against the picture the library itself predicts and the automaton it depicts","exploration","Every call of a whole picture is accounted for; overlap of node interiors is checked geometrically."+TRUST),
"C11":(DST+"seeded automata under several hash seeds, the ASCII picture read back and compared with the automaton","exploration","Reads the text picture only; where the picture cannot be read unambiguously only the presence of labels is required."+TRUST),
"C12":(DST+"seeded interleavings of calls by several workers with crashes and failing calls against a sequential store per worker","exploration","The bindings are compiled for the host against stand-ins of the JavaScript engine and the page."+TRUST),
"C13":(DST+"seeded storage damage to automaton files against an independent reader","exploration","Texts with undocumented white space are only required not to crash."+TRUST),
"C14":(DST+"the whole program on a simulated operating system, undisturbed and under seeded transient system-call faults: identical output","exploration","The simulated operating system answers the libc calls the program makes; process death loses no data that write returned for."+TRUST),
"C15":(DST+"the whole program on a simulated operating system with seeded hard faults on its files, compared with what a reference expects for exactly these faults","exploration","The simulated operating system answers the libc calls the program makes; process death loses no data that write returned for."+TRUST),
"C16":(DST+"crash, disk, reader and memory faults at seeded points of the whole program on a simulated operating system; prefix and mirror invariants after every call, recovery by rerun","exploration","The simulated operating system answers the libc calls the program makes; process death loses no data that write returned for."+TRUST),
"C17":(DST+"the whole program on a simulated operating system; verdicts compared with reference decisions, under seeded hash seeds and transient faults","exploration","The simulated operating system answers the libc calls the program makes; process death loses no data that write returned for."+TRUST),
"C18":(DST+"the whole program on a simulated operating system; printed tables read back and compared with reference combinations, under seeded hash seeds and transient faults","exploration","The simulated operating system answers the libc calls the program makes; process death loses no data that write returned for."+TRUST),
"C19":(DST+"the whole program on a simulated operating system; words and verdicts compared with reference enumeration and acceptance, under seeded hash seeds and transient faults","exploration","The simulated operating system answers the libc calls the program makes; process death loses no data that write returned for."+TRUST),
"C20":(DST+"the viewer's own main.rs with egui under a simulated window and a seeded user, with pointer, clock, focus and resize faults; every frame compared with the picture of the text last rendered","exploration","The native window (eframe) is a stand-in; egui itself is real, up to the shapes it hands to the GPU."+TRUST),
"C21":(DST+"seeded drawings on a simulated page whose window, elements and contexts are missing, foreign, altered or lost; the calls painted by a model canvas and compared with the requested picture","exploration","The bindings are compiled for the host against stand-ins of the JavaScript engine and the page; the canvas model covers the calls a drawing can be made of."+TRUST),
"C22":(DST+"seeded users, late or failed loading, trapping calls, lost contexts and reloads on the real page script in a simulated browser, against reference verdicts, tables and pictures","exploration","The page's own script runs in node on a small simulated document; the bindings below it are the real code compiled for the host. Layout and styling are not simulated."+TRUST),
"C23":(DST+"seeded storage damage to markers, names and columns; the reported error against the complete list of flaws an independent reader finds","exploration","An error may name any flaw the text has, not necessarily the first. Errors of texts without readable rows are not judged beyond that."+TRUST),
}
NA={
}
