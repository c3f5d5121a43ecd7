m={}
m['S01']="Blocks are enumerated as word sequences with and without blanks. The oracle needs no grammar: if the parser accepts, the concatenation of the word texts it hands back must be the input without blanks (outside comments). Exclusions: letters after a program name are swallowed by design (documented form of O)."
m['S02']="The word table of each driver (`conf/*/word_grammar*.json`) is read by an independent reader; for each row all boundary integer parts (min-1, min, max, max+1, 0, digits count changes), signs, and decimals at the interval ends in several spellings are verified; the oracle decides membership with exact decimal strings."
m['S03']="Differential: a history with rejected blocks inserted against the same history without them, on two parsers, comparing verdicts and the whole observable state after each step; all interleavings of good and bad blocks."
m['S04']="Every pair of words of each table in both orders; the oracle is the `unique` flag of the row; non-unique repetitions must be accepted unless another rule (tables, groups) speaks, which is determined by parsing each word alone."
m['S05']="Texts rather than blocks: all strings over a 36-character alphabet to depth 3, all sequences of grammar fragments (brackets, words without number, #, =, functions, comments, slashes, overlong numbers) to depth 2 and 3, programs of edge blocks, and repetition/nesting ladders up to 5000. Each is parsed with all analyses and none, and given to every tool, in a build with AddressSanitizer and UBSan (this is a monitor of each enumerated execution, the enumeration is what decides). Besides: refused and accepted are consistent with messages, the tools agree with the parser on readability, analyses only refuse more. Exclusions: a block with `#` may be refused without a message if the evaluated text is unreadable; one and the same word twice is not unreadability; nesting over 100 is refused by a fix."
m['H01']="Lines are composed from pieces (line number, BEGIN/END PGM, CYCL, Q parameters, general words with sign/Q/number/tilde, comments) in three spacings; every piece carries its meaning, so the expected reading is known by construction. 38 mistakes are put in 10 places. All texts of 4 characters must end with a consistent answer under the sanitizers. Every message must be `1:COL: ` and the text from COL on, with COL not in front of a planted mistake, and every line is read through the C interface too. Exclusions: `XQ5` is another word; `.5` after a complete value is the word `.`; `CYCL DEFX 1` is DEF followed by X."
m['M01']="All expression trees by construction with every bracketing; the oracle evaluates the tree with the stated precedences in long double; undefined variables, division by zero kinds and MOD 0 included. The same expressions are evaluated as standalone values and as assignments in blocks."
m['M02']="Programs over assignments and uses; the model keeps the list of (value, line) per variable, exactly as the user of hover and of the C interface sees it. Includes repeated and far apart line numbers, failing assignments and clearing."
m['M03']="The model maps the last accepted words to the documented system variables; all variables are dumped after each block, so writing any other variable is seen too."
m['M04']="Differential: each block with a literal against the block with `#1` (or `-#1`) holding the value, on two parsers, comparing verdict and whole state afterwards, over every word of every table, and in histories. `M66 M60` on drivers other than fanuc_mill and sequence numbers are outside (they are not values)."
m['V01']="The group files are read independently (a code may be in several groups). Verdict and, on rejection, presence of a message are compared for every ordered pair; triples and codes by variables use one representative per set of groups."
m['V02']="All blocks up to 4 words over M words with values literal/variable/in comments; oracle: number of M words, driver family, other rules determined from the same driver's group file."
m['V03']="Values around every limit; the oracle compares integer parts; lathe T halves; histories check that a refused block does not change modal state."
m['V04']="Zero points and travel ranges are placed so that each boundary is crossed by each kind of move (absolute, incremental, tool exchange, base point); the oracle tracks the three positions and decides inside/outside."
m['V05']="A three flag automaton (S seen, M3/M4 seen, reported) is stepped along all programs."
m['V06']="Unit switching histories, then each word of both tables at the boundaries; the oracle is the S02 membership in the table selected by an automaton."
m['P01']="The common kinematic reference model (`Model` in src/p.cpp, some 400 lines: modal groups, planes, units, feed modes, tools, cycles, arcs, times) is stepped along; every result of every block is compared: verdict, block distance, total, tool totals, rapid and cutting time, current/lowest/highest X Y Z, tool, unit."
m['P02']="Arcs are generated from integer points of circles so that all kinds occur (same quadrant, ends on axes, half, full), in three planes, two directions, by centre and by R; the expected length is radius x angle in exact geometry. Modal arc programs check direction and centre persistence. Half circles by R are excluded from modal combinations where the centre is not determined."
m['P03']="Cycles in three planes; per hole the reference computes the feed and rapid travel (pecks). The single cycle grid covers start, R, depth, Q; sequences cover persistence, K0/Kn, G80, G98/G99 changes, missing data. Only grids with start >= R >= depth are expected to follow the formula (a descending cycle); other orders are not defined."
m['P04']="Programs with dwells, exchange/measure/pallet codes, feed modes and unit changes; the model's times are compared at every block."
m['P05']="Programs over tools and motions; the model keeps a map tool -> totals. Preselection (M6 alone exchanges the tool chosen before; a second T of the block of M6 is the next choice), repeated turns, lathe numbers, leading zeros (T02 is T2)."
m['P06']="Metamorphic: one path, written in all ways, must give the same results. Half helices are excluded (the centre is not determined within the rounding used)."
m['P07']="Differential: history, reset, program against a new parser and the program; all results after each block."
m['P08']="The programs are generated from the path; position and total are compared after every block. The formulas are those the unit tests fix (full turn 2 pi sqrt(r^2+dz^2), quarter pi/2 sqrt(r^2+16 dz^2)); that they count the height of a turn 2 pi times, where geometry has sqrt((2 pi r)^2+dz^2), is fixed by PathCalculatorTest and cannot be repaired here, so the property takes them as given and speaks of what the length may depend on. Helices are ended by a straight move (the calculator takes a flat arc directly after a helix as its last half or quarter)."
m['P10']="The P model with lathe and mill-turn configurations and doubled diameters; arcs in ZX."
m['T01']="The expected text of a block is built word by word from the table types (length, feed, decimals); then whole programs are converted and both versions measured, whose distances must agree in the other unit. Outside: `/` in mid-block, letters after a program name, G20.0, lengths held in variables, K/L counts."
m['T02']="An automaton (current number, frequency count) over all settings (start, max, min, step, frequency, padding, which blocks) and histories with resets. Block numbers are literal."
m['T03']="Expected words by construction; state of the parser compared before and after; refusal message compared with that of parsing."
m['T04']="Expected words from the rotation matrix for every block; programs: both versions are measured by the real calculator and positions compared with rotated positions. Arcs only for G17 originals with centre; drilling cycles excluded (their depth has no rotated form)."
m['T05']="A reference splitter: for each program, criterion, limit, rapid-only flag, retraction block; the list of parts is compared block by block. Path and time limits use the real measuring results of each block (verified by P). Fresh modal state; codes by variables do not count as codes."
m['T06']="Each function of the C interface is called in histories, the parser class stepped alongside with the same calls; all outputs compared after each call, strings through their C form. (A double free of the result array found on the way was in the harness, not in the code.)"
m['T07']="16 enumerations with their documented names; all values, all names, all single edits of names."
m['N01']="The real `main` loop of the server runs with its input on a pipe under the control of the explorer, which decides where each read ends: every cut into two reads, input ended at every byte, cuts into three for the short sessions, 8 header layouts. Output bytes are parsed as frames and compared with the answers expected of the complete messages."
m['N02']="Sessions of messages through the real message handler; the oracle counts requests and compares ids; after each session a known request must be answered as in a fresh server. Single-defect mutations of all messages: every member missing or of another kind."
m['N03']="Documents over 22 lines; expected diagnostics come from the block parser in the same driver and settings, driven line by line by the harness (so N03 checks the server, S/M/V check the parser)."
m['N04']="Differential against the reference answer for (current text, configuration): after each history of operations on two documents all questions about both are asked."
m['N05']="Hover at every position of every enumerated line; the oracle tokenises independently, consults the description files through an independent reader, and takes variable values from the assignments of the document. Any description matching the number is accepted where ranges overlap (#1132 lies in two). Outside: #3101/#3102 preset at line -1, variable numbers longer than int."
m['N06']="Completion and resolve after pairs of histories; the set of labels is compared with the description files, each once."
m['N07']="Lens text rebuilt from the totals of the library (verified by P) with its rounding; resolves interleaved with requests for another document."
m['N08']="Every setting alone and in pairs, on all drivers; the reference reads the settings file independently. Unreadable settings interleaved with requests and repaired. Hover and completion are not compared while the file is unreadable (the property speaks of documents only)."
m['N09']="File states (missing, good, broken, repaired) interleaved with requests."

m['N10']="Twin documents: each line over 22 pieces is sent once as it is and once with every UTF-16 unit of a tab or a character outside ASCII replaced by one ASCII character; diagnostics (line, character, message with the characters mapped back) and hovers at every position of both must agree. Blocks with # compare line and message only (positions then refer to the substituted text)."
E=" The source of the extension, transpiled, runs in node against a model of the editor (src/e.js): its promises, dialogs, file reads, timers, child processes, server starts and settings events are pending actions, and a depth first search executes every order and outcome of them, each execution from a fresh extension."
m['N11']="The real `main` is started with every enumerated command line (file names with blanks, `=` and characters outside ASCII) and a session whose answers depend on every option (driver and zero point, code lenses, described variables); every answer is compared with the reference server made from what the options mean, and the log file with what it held before. An unusable command line (unknown option, not a truth value) is outside."
m['E01']="The command line options handed to the language client are parsed and compared with the values in force."+E
m['E02']="Histories of setting changes by hand, of commands and of unrelated changes; a change is announced before the promise of the save resolves, as in the editor, or later with others between. Checked: each change has an offer after it, offers never outnumber changes, the value in force after switching, target scope, refusals."+E
m['E03']="Histories of writings; the read of the status and the restart of the server finish in any order. Checked when nothing is pending: status text against the content, restarts against writings."+E
m['E04']="Histories of starts, ends and failures; at most one process, its file and folder, and what is said."+E
m['E05']="Every answer to the first question; each command; deactivation between any two actions."+E
