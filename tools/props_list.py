# ---------------------------------------------------------------- S: reading blocks
P('S01', 'A block is read without loss',
  'When a block is accepted, the words handed back, written one after the other, are exactly the characters of the block with blanks outside comments removed: no word, sign, digit, bracket or comment is dropped, invented, reordered or changed (program names O... are taken alone or before a comment).',
  'inputs', 'all blocks of up to 3 words over every word of every shipped word table and a set of value shapes (sign, integer, decimals, variable, brackets), comments and optional-block marks, with every blank placement',
  'tests parse a few dozen hand-written blocks of one machine and compare some of them',
  'parser/fanuc/AllAttributesParserGrammar.h parser/fanuc/AllAttributesParser.cpp',
  [('block grammar', 'parser/fanuc/AllAttributesParserGrammar.h all_attributes_grammar')])
P('S02', 'A word is accepted exactly when the shipped word table allows its value',
  'For every word of every shipped word table (each driver, millimetre and inch) a single-word block with a literal value is accepted exactly when the integer part with its sign lies inside the range of the row, and a fractional part is present only where the row allows decimals and, read as a number, lies in the allowed interval.',
  'inputs configurations', 'every row of the tables of the 11 Fanuc-family drivers in both unit systems x values at, next to and far from every boundary x sign x decimals',
  'tests probe a handful of words of one table',
  'parser/fanuc/AllAttributesParserGrammar.h parser/fanuc/AllAttributesParser.cpp conf',
  [('range check of a word', 'parser/fanuc/AllAttributesParserGrammar.h verify_range')])
P('S03', 'A rejected block leaves no trace in later blocks',
  'The verdict on a block and everything computed from it depend only on the accepted blocks before it and on its own text: interleaving blocks that the word table or the grammar rejects (unbalanced brackets, bad values, unknown words) changes no later verdict and no later result.',
  'histories', 'all sequences of up to 5 blocks over an alphabet of good and malformed blocks, and all placements of malformed blocks into programs that cut, compute variables and change tools',
  'tests use a fresh parser per block or short fixed programs',
  'parser/fanuc/AllAttributesParser.cpp parser/fanuc/AllAttributesParserGrammar.h',
  [('per-block status of the grammar is cleared', 'parser/fanuc/AllAttributesParserGrammar.h clear_message')])
P('S04', 'A word that may occur only once per block is rejected when repeated',
  'A block is rejected when a word marked unique in the active word table occurs twice in it, wherever the two occurrences stand and whatever their values; repeating only words that are not marked unique is never a reason to reject.',
  'inputs configurations', 'every ordered pair and triple of words of each shipped table with one word repeated, and every word twice with all pairs of 13 kinds of value, both unit systems',
  'tests repeat one or two words',
  'parser/fanuc/UniqueCode.cpp', [('unique word check', 'parser/fanuc/UniqueCode.cpp')])
P('S05', 'No text ends or stalls the parser, and a refusal says why',
  'For every text, read as a block or a program under any driver with all analyses or none, parsing, unit conversion, removal of numbering, comments and optional marks, renumbering, rotation and splitting end with an answer: no exception, crash, endless loop or access to memory that is not there. A block without variables that can be read but is refused has a message saying why, an accepted one has none; the tools accept the same blocks as readable, and the analyses only ever refuse more.',
  'inputs', 'every text of up to 3 of 36 characters, every block of up to 2 of 140 and 3 of 36 fragments, all programs of up to 3 of 42 edge blocks, repetition and nesting up to 5000, on one driver, shorter ones on ten more, under the address and undefined behaviour sanitizers; expressions nested more than 100 deep are refused',
  'tests parse well formed blocks and a few errors', 'parser/fanuc/AllAttributesParser.cpp parser/fanuc/AllAttributesParserGrammar.h parser/fanuc/AttributesPathCalculator.cpp parser/fanuc/SystemMacroAssigner.cpp parser/fanuc/ValueCalculator.cpp',
  [('parse', 'parser/fanuc/AllAttributesParser.cpp')])
P('H01', 'A Heidenhain line is read as written, and mistakes are refused',
  'A Heidenhain line - an optional line number, then BEGIN or END PGM with a name and MM or INCH, a cycle definition or call, cycle parameters, or words with optional sign, Q variable, number and tilde, then an optional comment, in any spacing - is read as exactly these parts in this order, with no message; a line that cannot be read gives a message saying where (the column, with the text from there on), never in front of the mistake. No text crashes or stalls the reader, and the C interface gives the same verdict and message.',
  'inputs', 'every line of up to 3 parts of the line grammar in several spacings, every single mistake of a list at every place, and every text of up to 4 of 20 characters, under the address and undefined behaviour sanitizers',
  'tests parse about twenty lines', 'parser/heidenhain/AllAttributesParserGrammar.h parser/heidenhain/AllAttributesParser.cpp parser/heidenhain/AllAttributesParser.h parser/heidenhain/AllAttributesParserWrapper.cpp',
  [('parse', 'parser/heidenhain/AllAttributesParser.cpp')])
# ---------------------------------------------------------------- M: macro variables
P('M01', 'Macro expressions have the value the language defines',
  'An expression of numbers, variables, brackets, + - * / AND OR XOR MOD and the functions ABS ACOS ASIN ATAN COS COSH EXP FIX FUP LOG LOG10 ROUND SIN SINH SQRT TAN TANH (angles in degrees) evaluates to the value given by the usual precedence (multiplicative operators including AND and MOD before additive ones including OR and XOR, left to right), and is an error when it reads a variable that has no value.',
  'inputs', 'all expressions of up to 3 operands over 12 operands and 8 operators with every bracketing, 4 operands over a smaller set, every function on 22 arguments and in pairs; also written as assignments in blocks',
  'tests evaluate a few expressions; precedence and bracket combinations are unbounded',
  'parser/fanuc/ValueCalculator.cpp parser/fanuc/MacroEvaluator.cpp',
  [('expression grammar', 'parser/fanuc/ValueCalculator.cpp'), ('block macro evaluator', 'parser/fanuc/MacroEvaluator.cpp')])
P('M02', 'Variables hold the last value assigned before the reading block',
  'After any sequence of assignments and uses every variable has exactly the values assigned to it, recorded with the line of the assignment; a read yields the most recent one, a failed assignment changes nothing, reading a variable that was never assigned rejects the block, and clearing removes all variables.',
  'histories', 'all programs of up to 5 blocks over 10 assignments and uses of 4 variables, with consecutive, gapped and repeated line numbers, followed by clearing',
  'tests run single fixed sequences',
  'parser/fanuc/MacroEvaluator.cpp parser/Macro.h parser/fanuc/MacroEvaluatedCodeVerifier.cpp',
  [('variable store ordered by id and line', 'parser/Macro.h')])
P('M03', 'System variables mirror the last modal words',
  'After every accepted block the system variables #4102/#4302/#4502 (B), x07 (D), x08 (E), x09 (F), x11 (H), x13 (M), x14 (N), x19 (S) hold the last commanded value of the word (with its sign, through variables too), x20 (T) that of the last tool actually selected (by M6, or by T itself where the machine exchanges on T), and no other variable changes.',
  'histories configurations', 'all programs of up to 4 blocks over 19 blocks on one driver and up to 2 on the other ten, with and without exchange on T',
  'tests check one or two of the variables after a single block',
  'parser/fanuc/SystemMacroAssigner.cpp parser/fanuc/AttributesPathCalculator.cpp',
  [('system variable table', 'parser/fanuc/SystemMacroAssigner.cpp')])
P('M04', 'A word written with a variable behaves like the word written with its value',
  'Replacing the literal value of a word (axis, feed, spindle, tool, code, parameter words; not sequence or program numbers and jumps) by a variable holding that value, with or without a minus sign, changes neither the verdict on the block nor any result: totals, times, axis ranges, variables and unit system stay the same for this and for later blocks.',
  'programs configurations', 'every such word of every shipped table (11 drivers, mm and inch) x 21 values x sign x wide and narrow machine limits, alone and in cutting, arc, drilling, dwell and tool blocks; pairs of modal blocks',
  'tests substitute a variable in a few words',
  'parser/fanuc/MacroEvaluatedCodeVerifier.cpp parser/fanuc/AllAttributesParser.cpp',
  [('substitution and second parse', 'parser/fanuc/AllAttributesParser.cpp parse')])
# ---------------------------------------------------------------- V: what the machine and the driver forbid
P('V01', 'Two codes of one modal group never pass in one block',
  'With code group verification on, a block of G and M words (literal or variable) is rejected with a message exactly when two of them share a group of the shipped G or M group file of the driver (matching number and decimal part; unlisted codes belong to no group); with it off, such blocks pass. On Haas drivers a second M word is rejected in any case.',
  'inputs configurations', 'every ordered pair of codes of the shipped group files of 11 drivers, also separated by other words; triples of one representative per set of groups; values through variables',
  'tests try a few pairs of one driver', 'parser/fanuc/CodeGroupsVerifier.cpp conf', [('code group check', 'parser/fanuc/CodeGroupsVerifier.cpp')])
P('V02', 'Haas blocks carry at most one M word',
  'A block with more than one M word (whatever its values, literal or variable, wherever they stand; not inside comments) is rejected on the Haas drivers and never for that reason on the others; the refusal concerns that block only.',
  'inputs configurations', 'all blocks of up to 4 words over 10 words for 11 drivers',
  'tests try single blocks', 'parser/fanuc/SameWordInBlockVerifier.cpp parser/fanuc/AllAttributesParser.cpp', [('extra verifier', 'parser/fanuc/AllAttributesParser.cpp')])
P('V03', 'S, T and F beyond the machine settings are rejected',
  'With the settings analysis on, a block is rejected exactly when S exceeds the maximum spindle speed, F the maximum working feed (integer parts) or the tool number (on a lathe the first half of a T of more than two digits) the number of tools of the machine, literal or through a variable; with it off such blocks pass; a refusal leaves no trace.',
  'inputs configurations', '8 combinations of limits x values around each limit x S/T/F and pairs x 3 machine types x 11 drivers x analysis on/off',
  'tests probe one set of limits', 'parser/fanuc/RangeVerifier.cpp', [('settings analysis', 'parser/fanuc/RangeVerifier.cpp')])
P('V04', 'Positions outside the axis travel of the machine are reported',
  'With the zero point analysis on, a block is rejected exactly when it leaves some axis X, Y or Z at a position outside the travel of the machine settings minus the zero point (bounds included); this holds for absolute, incremental and tool exchange moves, tool exchange and base points being related to the same zero point; with it off no block is rejected for that.',
  'histories configurations', '6 zero points x 3 travel ranges: every boundary of every axis +-{0, 0.001, 1, 20} on 11 drivers and all programs of up to 3 of 11 motion blocks',
  'tests use one zero point and single moves', 'parser/fanuc/AllAttributesParser.cpp parser/fanuc/RangeVerifier.cpp', [('zero point', 'parser/fanuc/AllAttributesParser.cpp set_ncsettings')])
P('V05', 'Cutting without a started spindle is reported once',
  'With the rotation check on: when the program starts the spindle, the first block after which a cutting code (G1, G81-G89, but not G81.4) has been read while not both S and M3/M4 have been read is rejected and no other block is; when the operator starts it, exactly the blocks with S, M3 or M4 are rejected. With the check off none is.',
  'histories configurations', 'all programs of up to 4 of 15 blocks on one driver and 3 on the other ten, both ways to start; every G and M code around the listed ones',
  'tests run a few fixed sequences', 'parser/fanuc/RotationVerifier.cpp', [('rotation check', 'parser/fanuc/AllAttributesParser.cpp')])
P('V06', 'G20 and G21 select the word table of the following blocks',
  'Blocks are verified against the inch table of the driver after G20 and the millimetre table after G21 (the default unit system before any), from the next block on, and the reported unit system follows; nothing else switches it and rejected blocks do not.',
  'histories configurations', 'every address word of 11 drivers at the boundaries of both tables after 11 switch histories x both default units; all programs of up to 4 of 10 blocks',
  'tests hardly parse a block after a unit switch', 'parser/fanuc/AllAttributesParser.cpp parser/fanuc/GrammarSelector.cpp', [('table selection', 'parser/fanuc/AllAttributesParser.cpp select_grammar')])
# ---------------------------------------------------------------- P: distance, time and position
PC = 'parser/fanuc/AttributesPathCalculator.cpp parser/fanuc/PathCalculator.cpp parser/fanuc/TimeCalculator.cpp'
P('P01', 'Straight moves add their length, and leave the axes where they were sent',
  'After a block of rapid or linear motion (G0, G1 or the modal one in force; absolute or incremental; on a lathe with X halved unless diameters are doubled) the reported distance of the block, the totals, the current, lowest and highest value of X, Y and Z, and the rapid or cutting time are those of the straight line from the previous position. Skipped parts, comments and blocks without motion change none of them.',
  'histories configurations', 'all programs of up to 4 of 16 linear blocks on mill, incremental default and lathe, up to 2-3 on seven more machine configurations and ten more drivers, and every move over an 8x8x8 grid of positions',
  'tests run a few programs and compare the end total', PC, [('motion of a block', 'parser/fanuc/AttributesPathCalculator.cpp evaluate')])
P('P02', 'An arc has the length of the circle piece it describes',
  'A G2 or G3 block whose end lies on its circle, given by centre (I J K relative to the start) or by a positive (short) or negative (long) R, in the planes G17, G18 and G19, absolute or incremental, adds radius times the swept angle in its direction (clockwise or counterclockwise seen against the third axis; end equal to start is a full circle) and moves the axes to its end. Modal arcs keep direction and centre.',
  'inputs histories', 'every ordered pair of the 36 integer points of a circle at 3 radii around 3 centres in 3 planes, both directions, by centre and by R, absolute and incremental; all consistent modal programs of up to 4 of 14 blocks',
  'tests compute a few arcs, mostly quarters', PC, [('arc lengths', 'parser/fanuc/PathCalculator.cpp')])
P('P03', 'Drilling cycles report the path of every hole and keep the modal cycle',
  'For the cycles G73, G74, G76 and G81 to G89 in all three planes, with G98 or G99, with start, R and depth absolute and descending (incremental with K too), each hole adds its travel in the plane plus the feed and rapid distances of the cycle (pecks of Q included), and the drilled axis returns to where it was. The cycle stays in force for following positions with the data of its last complete specification, K0 only positions, G91 with K repeats K holes, G80 (and the motion codes configured so, but not G80.4 to G80.8) ends it, and missing R, depth or Q is an error.',
  'inputs histories', 'all programs of up to 4 of 11 blocks of cycles, arcs and lines on 6 configurations whose motion codes end cycles; 12 cycles x G98/G99 x all descending start/R/depth of a 7-value grid x 4 pecks x 3 planes, absolute and incremental with K0/K1/K3; all programs of up to 4 of 16 blocks in five machine configurations',
  'tests check single holes with a few values', PC, [('cycle distances', 'parser/fanuc/PathCalculator.cpp DrillCyclePath'), ('modal cycle', 'parser/fanuc/AttributesPathCalculator.cpp evaluate')])
P('P04', 'Time follows feed, spindle mode, dwell and exchange times',
  'Cutting time is distance over feed (per minute; on lathes in per-revolution mode feed times spindle speed, with G96 the speed following from the surface speed), rapid time is distance over the fastest feed, and the program total additionally grows by each dwell (X and U seconds, P seconds or milliseconds without a point) and by the configured tool exchange, pallet exchange and tool measurement times when those codes, however many leading zeros they have, are executed, also in a block that selects a tool or returns to the base point (G28). Dwell parameters, the words of setting codes (G10 G50 G51 G52 G53 G92 G92.1) and the arguments of macro calls (G65 G66) move nothing, S with G50 or G92 is no speed, G81.4 and G91.1 are neither G81 nor G91; cutting without a feed and rapid motion without a fastest feed are refused.',
  'histories configurations', 'all programs of up to 2-4 of 24 blocks on 9 machine configurations, of up to 3 of 46 on 5, of up to 3-4 of 24 feed, spindle and unit blocks on 9, pairs on all 11 drivers',
  'tests check a few single blocks', PC, [('times', 'parser/fanuc/TimeCalculator.cpp'), ('added times', 'parser/fanuc/AttributesPathCalculator.cpp evaluate')])
P('P05', 'Distance and time are also summed per tool',
  'At every block the reported tool is the one last exchanged (by M6, of its own block or preselected before, or by T itself where the machine exchanges on T; on lathes the first half of a T of more than two digits) and the tool totals are the distance and motion time spent with exactly that tool, over all its turns. Preselecting a tool changes neither tool nor totals.',
  'histories configurations', 'all programs of up to 5 of 13 blocks on a mill (4 in five more configurations), up to 3 of 10 blocks with lathe tool numbers on 11 drivers x 4 configurations',
  'tests exchange one tool once', PC, [('totals by tool', 'parser/fanuc/AttributesPathCalculator.cpp')])
P('P06', 'Writing the same path in another way changes no result',
  'A path of straight moves, arcs, full circles and full or quarter helices gives the same total distance, time, tool totals and axis ranges whether it is written absolute, incremental, alternating, with or without repeated modal codes, or with the words of a block in another order; carried over to another plane (axes and centre words renamed cyclically) it gives the same distance and time.',
  'programs', 'every path of up to 3 of 11 steps in the 3 planes in five ways of writing, and between planes',
  'tests never compare two programs', PC, [('motion of a block', 'parser/fanuc/AttributesPathCalculator.cpp evaluate')])
P('P07', 'After a reset the parser behaves like a new one',
  'After the calculator and the variables are reset, whatever was parsed before, all reported results equal those of a newly made parser with the same settings, and so do the verdict and every result of each block of any program parsed next.',
  'histories configurations', 'all histories of up to 3 (2) of 16 blocks in 9 machine configurations followed by 11 programs and pairs of them; single blocks on 11 drivers',
  'tests use new parsers', PC, [('reset', 'parser/fanuc/AttributesPathCalculator.cpp reset')])
P('P08', 'A helix depends on its radius and climb, not on what was written before',
  'A full turn of a helix in G17, G18 or G19 (end over its start, height given), a modal further turn of which only the height is written, and a quarter turn have the length the calculator\'s formulas give for their radius, whether that is written as R or as I J K, and their height, absolute or incremental, after whatever other motion, arc or helix. The axes end at the programmed point.',
  'histories programs', 'all paths of up to 4 of 13 steps in 3 planes, absolute, incremental and alternating; up to 2 on five more drivers',
  'tests follow two helices', PC, [('helix', 'parser/fanuc/AttributesPathCalculator.cpp evaluate'), ('helix lengths', 'parser/fanuc/PathCalculator.cpp G2G3_Helix*')])
P('P10', 'Lathe and mill-turn distances use diameters only in the turning plane',
  'On a lathe, and on a mill-turn while G18 is active, X words are diameters: distances and arcs use half of X and I unless doubled diameter programming is set, while the reported axis values stay as programmed; in other planes and machines X is a length.',
  'histories configurations', 'all programs of up to 4 of 14 blocks on one lathe driver and up to 2 on ten others x 10 machine configurations; every pair of 20 circle points as ZX arcs in 5 configurations',
  'tests have a few lathe blocks', PC, [('diameter programming', 'parser/fanuc/AttributesPathCalculator.cpp evaluate')])
# ---------------------------------------------------------------- N: the language server
NJ = 'nclangsrv/JsonMessageHandler.cpp'
P('N01', 'Messages are framed by Content-Length, however the bytes arrive',
  'However the input is cut into reads, in whatever order the header fields come and wherever the input ends, the server handles exactly the complete messages before an exit or shutdown, in order, each once; every byte it writes belongs to a message framed by its exact length. It ends, successfully, after shutdown, exit or the end of its input.',
  'schedules inputs crash points', '6 sessions on the real main loop with the input ended at every byte, cut at every byte and (short sessions) every pair of bytes, 8 header layouts',
  'no test runs the server', 'nclangsrv/nclangsrv.cpp', [('main loop', 'nclangsrv/nclangsrv.cpp main')])
P('N02', 'Every request gets one answer with its id, whatever was sent before',
  'Each request (known, unknown or malformed) is answered by exactly one result or error with the same id, an integer or a string; notifications and unreadable messages are not answered; nothing a client sends other than shutdown or exit ends the server or stops it from answering the next request as usual.',
  'histories inputs', 'all sessions of up to 3 of 19 messages followed by requests; every single missing or replaced member of 14 messages, before and after a document is open',
  'no test runs the server', NJ, [('dispatch', NJ + ' parse')])
P('N03', 'Each rejected line of a document is one diagnostic with its place and message',
  'After a document is opened or changed the published diagnostics name that document and are exactly one error for each line the parser rejects with the configured driver and settings, in order, at that line and the reported column, with the complete message of the parser (the block itself if it has none). Empty lines, trailing blanks, carriage returns and a missing last line end change nothing.',
  'inputs configurations', 'all documents of up to 3 of 22 lines on fanuc_mill and up to 2 on ten more drivers in 3-4 configurations',
  'no test runs the server', NJ + ' nclangsrv/NCParser.cpp', [('lines', 'nclangsrv/NCParser.cpp parse'), ('diagnostics', NJ + ' textDocument_publishDiagnostics')])
P('N04', 'Answers about a document depend on its current text alone',
  'Diagnostics, hover and code lenses of a document are those of its last opened or changed text, the same as in a fresh server, independent of other documents and of texts, closes and requests before; a closed document has none.',
  'histories', 'all sequences of up to 4 of 14 open, change and close operations on two documents, then every question about both',
  'no test runs the server', NJ, [('file contexts', NJ + ' mFileContexts')])
P('N05', 'Hover explains the code or variable under the cursor',
  'Over a G or M code (plain, with leading zeros or with a decimal, or given by a variable with a value) hover shows the description of the driver for that code; over a variable its value by the last assignment up to that line and its description (its own, else that of a range it lies in, the user file before the shipped one), or that it is undefined; the range is exactly the piece under the cursor, and elsewhere there is no hover.',
  'inputs histories', 'every position of all lines of up to 3 pieces after 4 assignment histories; every described code and variable of the 11 drivers',
  'no test runs the server', NJ + ' nclangsrv/MacrosDescReader.cpp nclangsrv/CodesReader.cpp', [('hover', NJ + ' textDocument_hover')])
P('N06', 'Completion offers every described code and variable of the driver once',
  'The completion list is, at any point of a session, exactly the described G and M codes (one-digit codes also with a leading zero) and variables of the configured driver, each once, plus those of the user file; resolving an item hands it back with the title and text of its description and needs no request before.',
  'histories configurations', '11 drivers with and without user file, all pairs of 8 histories; all labels resolved',
  'no test runs the server', NJ, [('completion', NJ + ' textDocument_completion'), ('resolve', NJ + ' completionItem_resolve')])
P('N07', 'Code lenses show the totals after each block that takes time',
  'With path calculation on, a document has one code lens at each line whose block changes the total time, showing the total path and time, the path of the current tool if it differs, and the accumulated rapid and cutting path and time (those the block adds to), rounded to hundredths and milliseconds; resolving a lens gives the same title whichever document was asked about last. Without it there are none.',
  'programs histories', 'all programs of up to 4 of 14 blocks on fanuc_mill and 3 in 4 more configurations beside a second document; 54 magnitudes',
  'no test runs the server', 'nclangsrv/NCParser.cpp ' + NJ, [('titles', 'nclangsrv/NCParser.cpp formatPathTimeResult'), ('lenses', NJ + ' textDocument_codeLens')])
P('N08', 'The server uses the driver and every setting of the settings file',
  'Diagnostics, code lenses, hover and completion are those of the driver, machine type, machine points, kinematics, defaults and zero point in the settings file (the built-in ones without a file). While the file cannot be read every document shows one error instead, and once it can be read everything follows it.',
  'configurations histories', '11 drivers x 3 machine types x 21 settings and pairs of them; all histories of up to 4 of 11 operations with unreadable settings',
  'no test runs the server', 'nclangsrv/NCSettingsReader.cpp nclangsrv/NCParser.cpp', [('reading', 'nclangsrv/NCSettingsReader.cpp read')])
P('N09', 'A broken user description file is reported until it is repaired',
  'As long as the user description file of variables cannot be read, every opened or changed document shows one error about it besides its own diagnostics, and once it can be read its descriptions take precedence over the shipped ones and add to them.',
  'histories', 'all histories of up to 4 of 10 file states and requests, then a good file and all questions',
  'no test runs the server', 'nclangsrv/MacrosDescReader.cpp ' + NJ, [('reading', 'nclangsrv/MacrosDescReader.cpp read')])
P('N10', 'Positions are counted in UTF-16 units, as the protocol counts them',
  'The line and character of every diagnostic and of every hover, in the question and in the range of the answer, count UTF-16 code units of the document as sent: a line with tabs or characters outside ASCII has the same diagnostics and hovers, at the same characters and with the same texts, as the line with one ASCII character in place of each such unit (in comments, or where the character is refused anyway). Messages never contain a part of a character.',
  'inputs', 'all lines of up to 3 of 22 pieces (characters of 1 to 4 bytes, tabs, codes, variables, mistakes) on one driver, up to 2 in 11 more configurations; hover at every position',
  'no test runs the server', NJ + ' nclangsrv/NCParser.cpp', [('positions', 'nclangsrv/JsonMessageHandler.cpp textDocument_hover'), ('positions', 'nclangsrv/JsonMessageHandler.cpp textDocument_publishDiagnostics')])
P('N11', 'The server works with what its command line says, however it is written',
  'The settings file, the path calculation, the own descriptions and the log file named on the command line are those the server works with, in whatever order and accepted way they are written (--name value, --name=value, -n value, -nvalue; true or false, 1 or 0, yes or no) and whatever other options stand beside them. What is left out means built-in settings, no calculation, no own descriptions and no log. A log changes no answer and is added to the file named.',
  'configurations histories', 'all subsets of the four options in all orders in four ways of writing, all combinations of the ways in one order, six lists of other options, on two drivers; a session of 16 messages with each',
  'no test runs the server', 'nclangsrv/nclangsrv.cpp nclangsrv/Logger.cpp', [('command line', 'nclangsrv/nclangsrv.cpp main'), ('log', 'nclangsrv/Logger.cpp')])
# ---------------------------------------------------------------- E: the editor extension
X = 'vscode-client/src/extension.ts'
P('E01', 'The editor starts one server, from the extension, with what the settings say',
  'On activation exactly one language server is started, for NC documents: the executable of the platform in vscode-client/out of the folder of the extension, run in that folder, with --ncsetting-path, --log-path and --macro-desc-path followed by the value in force of their settings when it is not empty, --calculate-path true when calculation is in force, and no other option. A failure to start is shown to the user, success is not.',
  'configurations', 'all values (unset, empty, a path with blanks; true, false) of the four settings in user or workspace scope, one overridden by the workspace, on 2 platforms, the server starting or failing',
  'no test runs the extension', X, [('start of the server', X + ' startLangServerNCProj')])
P('E02', 'A changed setting is offered to take effect, exactly when it changed',
  'Each change of one of the four settings, by hand or saved by a command, in any order and overlap, is followed by an offer to reload the window; unrelated or unchanged settings cause none, and no change is offered twice. Switching the calculation reverses the value in force, also where the workspace sets it; a selected file is saved in the settings chosen; a setting that cannot be saved is reported; the window reloads only when the offer is accepted.',
  'histories schedules', 'all histories of up to 2 of 9 changes and commands and up to 3 of 4, with every answer to prompts and dialogs, every order of the answers and of saving; saving refused; several settings at once; 6 combinations of user and workspace values',
  'no test runs the extension, and the order in which settings are saved and announced cannot be tested', X, [('changes of settings', X + ' startListeningConfigurationChanges'), ('commands', X + ' askFilePath')])
P('E03', 'A machine configuration that is written is reloaded and shown',
  'Whenever the configuration file in use is written, the server restarts after that writing, once per writing at most, and when all is quiet the status bar shows the trimmed machine_tool_id of the latest content, or, where the file has none or cannot be read, the file name without its last extension. Writing other files, with the same extension or name, does nothing.',
  'histories schedules', 'all histories of up to 2 of 8 writings (7 contents of the file, other files) and up to 3 of 4, with every order of finished reads and restarts, for 9 file names on 2 platforms; up to 3 of 7 writings after the start',
  'no test runs the extension, and a late read is a matter of timing', X, [('status', X + ' setStatusText'), ('restart', X + ' startListeningConfigurationChanges')])
P('E04', 'One configuration tool runs at a time, found where the extension is',
  'The command to create a configuration starts the tool of the extension (cmtconfig.exe in vscode-client/out, run in that folder, whatever characters the path has) unless it runs already, which is said; after it ends or fails it can be started again. A failure is shown to the user, success is not; where the tool does not exist (other platforms) it is said and nothing is started.',
  'histories schedules', 'all histories of up to 5 starts with every order of ends and failures, 3 folders on Windows and 2 on Linux, with and without a configuration',
  'no test runs the extension', X, [('configuration tool', X + ' registerCmdNcsettingCreate')])
P('E05', 'Without a configuration the user is asked, and every command answers',
  'Activation without a configuration asks whether to create or select one, and does the one chosen; with one it does not ask. The five commands exist while the extension is active and are released with it; both selecting commands ask, the placeholder command opens a document of macro descriptions the server can read. The server is stopped on deactivation, at whatever point of the start, and only then; a status is always shown.',
  'histories schedules', 'every setting (unset, empty, set) on 2 platforms x every answer x each of 5 commands x deactivation at every point, the server starting or failing',
  'no test runs the extension', X, [('activation', X + ' activate'), ('deactivation', X + ' deactivate')])
# ---------------------------------------------------------------- T: transformations of programs
P('T01', 'Unit conversion scales lengths and feeds and nothing else',
  'Converting a block that can be read between millimetres and inches divides or multiplies by 25.4 the numeric value of each word that the word table types as a length or feed, rounded to the decimals of that word, and swaps G20 and G21; blocks marked optional or with G4, the I, J, K and R of a rotation (G68), words with variables or brackets, words without a number, comments and every other word are returned as written. The distances and positions of a converted program are those of the original in the other unit; conversion changes no totals or variables.',
  'inputs histories', 'every word of both word tables of 11 drivers x 40 values, alone and beside 9 codes, both directions; all blocks of up to 3 of 45 words; path and positions of all programs of up to 3 blocks on 3 drivers',
  'tests convert a handful of blocks of one machine', 'parser/fanuc/UnitConverter.cpp parser/fanuc/AllAttributesParser.cpp', [('conversion', 'parser/fanuc/UnitConverter.cpp evaluate')])
P('T02', 'Renumbering numbers exactly the requested blocks consecutively',
  'Renumbering replaces or adds the number of every block, or of every n-th one, with the start value plus a multiple of the step, beginning again at the smallest number once the maximum is passed, padded with zeros on request; blocks beginning with /, % or a program name or comment (unless already numbered), and on request blocks without a number, are left alone, and no other word of any block changes. The count goes on over blocks until it is reset.',
  'histories configurations', '288 settings x all histories of up to 2 of 21 and up to 5 of 6 operations on one driver, shorter ones on ten more',
  'tests renumber one program with a few settings', 'parser/fanuc/Renumberer.cpp parser/fanuc/AllAttributesParser.cpp', [('numbering', 'parser/fanuc/Renumberer.cpp evaluate')])
P('T03', 'Removing numbers, comments or optional marks removes just those',
  'For a block that can be read, removing the numbering drops its leading block number, removing comments drops every comment and removing optional-block marks drops its leading /1 to /9 marks; everything else is handed back unchanged and in order. A block that cannot be read is refused with the message of reading it; totals and variables do not change.',
  'inputs', 'all blocks of up to 4 of 19 words (numbers, marks, comments, codes, assignments, expressions) on one driver and up to 3 on ten more',
  'tests remove from a handful of blocks', 'parser/fanuc/AllAttributesParser.cpp', [('removal', 'parser/fanuc/AllAttributesParser.cpp remove_numbering')])
P('T04', 'A rotated program moves along the rotated path',
  'Rotating by 90, 180 or 270 degrees about X, Y or Z exchanges and negates X, Y, Z and I, J, K as that rotation does, chooses the matching plane code for G17, G18 and G19 and exchanges G2 and G3 where the sense of the arc turns round, however these codes and signs are written; all other words, and blocks with G4, are unchanged. Every program of G17 moves has the same distances and times after the rotation, and the rotated positions.',
  'inputs histories', '9 rotations x all blocks of up to 3 of 42 words (up to 2 on ten more drivers) and all programs of up to 4 of 17 blocks',
  'tests rotate a handful of blocks and never follow the path', 'parser/fanuc/AxesRotator.cpp parser/fanuc/AllAttributesParser.cpp', [('rotation', 'parser/fanuc/AxesRotator.cpp evaluate')])
P('T05', 'Splitting a program keeps every block, in order, and cuts where allowed',
  'Splitting by block count, working path, working time, tool change or text cuts before the first block at which the limit is reached and a cut is allowed (not inside a drilling cycle; on request only in rapid traverse; G80.5 and G81.4 are no such codes), before every tool change but the first, or before each block with the text; the retraction block is added on both sides of every cut. All other blocks occur once, in order, consecutively numbered; a wrong limit or a block that cannot be read is refused with a message.',
  'histories configurations', 'all programs of up to 3 of 25 blocks and up to 5 of 6 blocks x 5 kinds x limits x rapid only or not x retraction or not, on 4 drivers',
  'tests split a few fixed programs', 'parser/fanuc/FileSplitter.cpp parser/fanuc/AllAttributesParser.cpp', [('splitting', 'parser/fanuc/FileSplitter.cpp')])
P('T06', 'The C interface does what the parser does',
  'After any history of calls every function of the C interface returns the result, words, message, variables, totals, ranges and unit system that the parser class gives for the same history and settings: nothing is truncated, mixed up, lost between words or left from an earlier call.',
  'histories', 'all histories of up to 2 of 196 calls and up to 3 of 23 calls on one driver, shorter ones on ten more, all outputs compared after each call',
  'no test calls the C interface', 'parser/fanuc/AllAttributesParserWrapper.cpp parser/AllAttributesParserWrapperBase.cpp', [('C interface', 'parser/fanuc/AllAttributesParserWrapper.cpp')])
P('T07', 'Every setting name is read back as the value it was written for',
  'For each enumeration of machine, driver, unit, plane, motion, feed, rotation, conversion and word kinds, each value is written under its documented name, no two values share one, reading that name gives the value back, and a misspelt or differently cased name is refused, never taken for another value.',
  'inputs', '16 enumerations: every value, every name, and every name with one letter removed, added or of the other case',
  'tests write and read none of them', 'parser/GeneralParserDefines.cpp parser/fanuc/AllAttributesParserDefines.cpp', [('names', 'parser/GeneralParserDefines.cpp to_string')])
