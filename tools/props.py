#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json: run it to regenerate both."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe, technique, note, level='exploration', state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=observe, technique=technique, note=note, level=level, state=state))

SAMPLE = 'The suite runs about a hundred fixed scripts and compares their output with a stored copy, so it sees one input per construct; '

prop('C01', 'Expressions evaluate by the language rules',
     'Every expression built from number, string, boolean and null operands yields the value the language defines: IEEE double arithmetic, string concatenation and comparison, 32-bit shifts, bitwise operators on non-negative integers, loose and strict equality, assignment and increment forms, with C-style precedence and associativity. Operands are evaluated left to right, each exactly once (the value of a plain variable is taken when its operator is applied), and the operands skipped by &&, || and ?: are not evaluated. An arithmetic operand that is not a number raises a catchable error in the default checking mode instead of producing a value.',
     ['inputs', 'programs'], 'all expression trees over the operators and operand values', SAMPLE + 'operator/operand-type combinations and nesting are unbounded.',
     ['src/jsiEval.c', 'src/jsiValue.c', 'src/parser.y', 'src/jsiLexer.c', 'src/jsiCode.c'],
     [('opcode interpreter', 'src/jsiEval.c jsiEvalCodeSub'), ('loose comparison', 'src/jsiValue.c Jsi_ValueCmp'), ('precedence', 'src/parser.y')],
     ['values and call order printed by generated programs'], 'reference-model monitor over generated expression programs, on an ASan+UBSan build',
     'Random and pairwise-exhaustive expression trees; the oracle is an independent evaluator in Python that also predicts the trace of operand evaluations.')
prop('C02', 'Control flow executes exactly the prescribed statements',
     'For every program built from if, while, do, for, for-in, for-of, switch, labelled break/continue and return, the sequence of executed statements and the final variable values are those defined by the language, however the constructs are nested. Loops terminate when their condition says so, switch falls through until a break, and break/continue always reach the construct they name.',
     ['programs'], 'all nestings of the control statements', SAMPLE + 'nesting combinations (a continue inside a switch inside a labelled loop inside try) are not enumerated.',
     ['src/parser.y', 'src/jsiCode.c', 'src/jsiEval.c'], [('jump patching', 'src/jsiCode.c'), ('iteration and switch opcodes', 'src/jsiEval.c')],
     ['trace of executed statements'], 'trace comparison of generated programs against a second engine (node), on an ASan+UBSan build',
     'Random structured programs in the language subset both engines share; a violation is a difference between the event traces.')
prop('C03', 'Functions, closures, this, new and prototypes behave as defined',
     'A call binds arguments to parameters by position, runs the body with the right this, and returns the value of the executed return; closures see and update the variables of the scope instance they were created in, and recursion gets fresh locals. call, apply, bind and new deliver the given this and arguments; property lookup and instanceof follow the prototype chain, and writing or incrementing a property changes only the object itself.',
     ['programs'], 'all programs over nested functions, closures, recursion, constructors and prototype chains', SAMPLE + 'scope and prototype shapes are unbounded.',
     ['src/jsiFunc.c', 'src/jsiEval.c', 'src/jsiProto.c', 'src/jsiPstate.c', 'src/jsiObj.c'], [('call frames and scopes', 'src/jsiFunc.c, src/jsiProto.c'), ('prototype lookup', 'src/jsiObj.c')],
     ['trace of calls and values'], 'trace comparison of generated programs against a second engine (node), on an ASan+UBSan build',
     'Random programs with nested closures, mutual recursion, constructors and prototype chains in the shared subset.')
prop('C04', 'Exceptions unwind to the right handler and finally always runs',
     'A thrown value, or an error raised by the engine itself, is delivered unchanged to the innermost active catch, at any call depth; every finally block on the way runs exactly once whether the try ends normally, by an exception, by break or continue, or from inside a nested call (a return leaves the function directly, as the dialect documents). After a catch execution continues normally and the state built before the throw is intact.',
     ['programs'], 'all placements of throw, try, catch and finally in nested calls and loops', SAMPLE + 'the placements of throw relative to handlers, loops and calls are unbounded.',
     ['src/jsiEval.c', 'src/jsiFunc.c', 'src/jsiProto.c'], [('try list and unwinding', 'src/jsiEval.c'), ('error state', 'src/jsiUtils.c')],
     ['trace of executed statements and caught values'], 'trace comparison of generated programs against a second engine (node), on an ASan+UBSan build',
     'Random programs throwing at every reachable depth; a violation is a difference of traces.')
prop('C05', 'Arrays behave as the list operations define',
     'After any sequence of operations (push, pop, shift, unshift, splice, slice, concat, reverse, fill, indexing, assignment, length changes, map/filter/forEach/reduce/find/some/every, join, indexOf and the rest) an array holds exactly the elements, in the order, that the documented list semantics give, and each call returns the documented result (slice and fill take an inclusive end; join leaves the joined elements as text, as tests/array.jsi records). Arrays not involved in an operation are unaffected, and assigning a callback parameter changes no array.',
     ['histories'], 'all histories of array operations', SAMPLE + 'histories and index ranges (negative, beyond the end) are unbounded.',
     ['src/jsiArray.c', 'src/jsiObj.c'], [('array methods', 'src/jsiArray.c'), ('array storage growth', 'src/jsiObj.c Jsi_ObjArraySizer')],
     ['array contents printed after each operation'], 'history checker against a list model, on an ASan+UBSan build',
     'Random operation histories on several arrays; a Python list model with the dialect rules predicts every result and content.')
prop('C06', 'Sorting yields an ordered permutation',
     'Sorting an array returns a permutation of its elements in which no adjacent pair is out of order under the requested order: numeric for numbers, code order for strings, or as chosen by mode (nocase, dict), desc, unique and the user comparison function. The comparison function only ever sees elements of the array, and duplicates are removed exactly when unique is requested.',
     ['inputs'], 'all arrays, comparison functions and option combinations', SAMPLE + 'a handful of arrays are sorted.',
     ['src/jsiArray.c', 'src/jsiValue.c', 'src/jsiUtils.c'], [('sort driver', 'src/jsiArray.c'), ('comparison', 'src/jsiValue.c Jsi_ValueCmp, Jsi_StrcmpDict')],
     ['sorted arrays and comparator call log'], 'permutation and order oracle over generated arrays, on an ASan+UBSan build',
     'Random arrays and options; permutation, order and comparator-argument oracles plus full equality where the order is total.')
prop('C07', 'Objects are exact property maps and freeze is enforced',
     'After any history of property writes, deletes, literal construction, Object.keys/create/defineProperty/getters and for-in loops, reading a property gives the last value written, absent names read as undefined, and enumeration lists exactly the own enumerable names once, in the documented key order. A frozen object (or one not extensible) changes only as its freeze mode permits, and other references to the same object always see the same contents.',
     ['histories'], 'all histories of property operations over any names', SAMPLE + 'names, sizes and delete/insert orders that rebalance the tree are not sampled.',
     ['src/jsiObj.c', 'src/jsiTree.c', 'src/jsiProto.c', 'src/jsiEval.c', 'src/jsiHash.c'], [('property tree', 'src/jsiTree.c'), ('freeze', 'src/jsiProto.c, src/jsiObj.c')],
     ['values and key lists printed after each step'], 'history checker against a map model, on an ASan+UBSan build',
     'Random histories with up to hundreds of keys; a Python dict model predicts each read, listing and error.')
prop('C08', 'String operations return the exact characters',
     'For every string and argument the string methods (indexing, length, charAt, charCodeAt, fromCharCode, indexOf, lastIndexOf, search, substr, substring, slice, split, join, concat, repeat, replace, trim*, toUpperCase/toLowerCase/toTitle, map and comparison) return exactly the documented characters, counting characters rather than bytes for valid UTF-8. Only ASCII letters change case, and positions outside the string give the documented empty or absent result. The contents of a string are never altered by an operation on it.',
     ['inputs'], 'all strings (ASCII and multi-byte) and arguments', SAMPLE + 'argument ranges and multi-byte positions are sampled by a few literals.',
     ['src/jsiString.c', 'src/jsiUtf8.c', 'src/jsiChar.c', 'src/jsiDString.c'], [('string methods', 'src/jsiString.c'), ('UTF-8 indexing', 'src/jsiUtf8.c')],
     ['returned strings'], 'reference-model monitor over generated calls, on an ASan+UBSan build',
     'Random strings and arguments against a Python model of the documented dialect.')
prop('C09', 'Numbers and text convert faithfully',
     'A numeric literal or numeric string denotes the nearest double, and printing a number and reading it back gives the same value to the printed precision (exactly for integers up to 2^53). toString(radix), toFixed, toPrecision, toExponential, parseInt, parseFloat, Number and the Math functions agree with their definitions (toPrecision keeps leading characters and parseInt takes a leading 0 as octal, as the test suite records).',
     ['inputs'], 'all doubles, digit strings and radixes', SAMPLE + 'a few constants are converted.',
     ['src/jsiNumber.c', 'src/jsiValue.c', 'src/jsiLexer.c', 'src/jsiMath.c', 'src/jsiFormat.c'], [('formatting', 'src/jsiNumber.c Jsi_NumberDtoA'), ('literals', 'src/jsiLexer.c')],
     ['printed numbers'], 'reference-model monitor over generated values, on an ASan+UBSan build',
     'Random doubles of all magnitudes, compared with C/Python conversions of the same bits.')
prop('C10', 'JSON encodes and decodes without loss, and rejects malformed text',
     'Parsing any valid JSON text yields the value it denotes, and stringifying any JSON-representable value (strict mode) yields valid JSON text that an independent parser reads back as the same value, numbers to the printed precision of 15 digits, so parse(stringify(v)) equals v. Text with unbalanced or mismatched brackets, unterminated strings, bad escapes, or unquoted words or characters outside strings makes JSON.parse raise a catchable error and JSON.check return false in strict checking (stray or missing separators are tolerated), nesting beyond maxDepth is refused, and the interpreter works on afterwards.',
     ['inputs'], 'all JSON texts and all values, including nesting, escapes and mutations of valid texts', SAMPLE + 'two scripts with a dozen texts.',
     ['src/jsiJSON.c', 'src/jsmn.c', 'src/jsiUtils.c', 'src/jsiValue.c'], [('parser', 'src/jsmn.c, src/jsiJSON.c'), ('serialiser', 'src/jsiUtils.c jsiValueGetString')],
     ['decoded values and encoded text'], 'round-trip and cross-implementation oracle (Python json) over generated and mutated texts, on an ASan+UBSan build',
     'Random values both ways plus mutated texts.')
prop('C11', 'Regular expressions match what the pattern defines',
     'test, exec, match, matchAll-style global scans, search, replace (with text, $-references or a function) and split report exactly the leftmost-longest matches, submatches and positions that the extended regular expression defines, including flags i, g and m. An invalid pattern raises a catchable error.',
     ['inputs'], 'all patterns of the grammar and all subject strings', SAMPLE + 'one script with a few patterns.',
     ['src/jsiRegexp.c', 'src/jsiString.c'], [('matching', 'src/jsiRegexp.c'), ('replace', 'src/jsiString.c StringReplaceCmd')],
     ['match results'], 'differential oracle (runtime monitoring) under AddressSanitizer/UBSan: generated patterns, flags, subjects and replacements; every result compared with a model of the global scans over the C library matcher called directly',
     'Random patterns of the extended grammar (groups, bounds, sets, classes, anchors, word assertions, some back references) as literals and as RegExp objects. glibc is the reference for a single match; matches at every position, groups, lastIndex, $-references and function arguments are modelled independently. Bytes, not characters, are matched: patterns that can split a non-ASCII character are left out.')
prop('C12', 'Declared parameter and return types are enforced',
     'When a function declares parameter types, counts or defaults, a call whose arguments conform runs with exactly those arguments (defaults filled in), and a call whose argument has another type, is missing or surplus is reported, as a catchable error by default and as a warning with the noError option, giving the number and name of the parameter or the count. A returned value outside the declared types is reported in the same way, and built-in commands refuse arguments of the wrong type. Functions without declarations, and all calls with the noCheck option, are not restricted.',
     ['inputs', 'configurations'], 'all declared signatures and argument lists', SAMPLE + 'a few signatures.',
     ['src/jsiFunc.c', 'src/jsiInterp.c', 'src/jsiEval.c'], [('argument checks', 'src/jsiFunc.c jsi_ArgTypeCheck, jsi_StaticArgCheck')],
     ['errors, warnings and received arguments'], 'reference-model monitor over generated signatures and calls, on an ASan+UBSan build',
     'The product of declared types and argument kinds, plus random multi-parameter signatures.')
prop('C13', 'No script or data input can corrupt memory or abort the interpreter',
     'Whatever script text, arguments, files and data are given, the interpreter ends with a normal result or a reported error: it never reads or writes memory it does not own, uses freed values, executes undefined behaviour, or dies from a signal (running out of memory, and threaded interpreters, are outside this property).',
     ['programs', 'inputs'], 'all script texts, valid or not, and all argument combinations of the built-in commands', SAMPLE + 'none of them is hostile, and none runs with memory monitors.',
     ['src/jsiEval.c', 'src/jsiLexer.c', 'src/parser.y', 'src/jsiCmds.c', 'src/jsiValue.c', 'src/jsiObj.c', 'src/jsiString.c', 'src/jsiUserObj.c'], [('reference counting', 'src/jsiValue.c, src/jsiObj.c'), ('argument validation', 'every *Cmd function')],
     ['sanitizer reports, exit status'], 'AddressSanitizer + UndefinedBehaviorSanitizer under mutated scripts and argument-confusion calls',
     'Every built-in command called with combinations of hostile arguments, mutated copies of the test scripts, and truncated/garbled source.')
prop('C14', 'Everything allocated is released',
     'When an interpreter is deleted, or a value stops being referenced, all memory it held is released exactly once: after any program ends, normally or by an error, nothing it allocated remains, and repeating an operation that keeps nothing does not make the process grow.',
     ['programs', 'histories'], 'all programs and error exits; all repeat counts', SAMPLE + 'the suite never looks at memory.',
     ['src/jsiValue.c', 'src/jsiObj.c', 'src/jsiInterp.c', 'src/jsiPstate.c', 'src/jsiFunc.c'], [('reference counts', 'src/jsiValue.c'), ('interpreter deletion', 'src/jsiInterp.c')],
     ['leak reports, live-object counts'], 'runtime monitoring: live heap bytes and allocation sites, sampled through AddressSanitizer allocator hooks between repetitions of operations in one interpreter and around whole interpreters',
     'About 300 operations over all modules, alone and mixed, ended normally and by errors, and generated programs, whole, ended by errors or exit, and with damaged texts. Function objects kept by the interpreter and reference cycles are known findings; leaks on the way out of the jsish program itself, after its last statement, are not looked at.')
prop('C15', 'Sub-interpreters are isolated and exchange only data',
     'Code in a sub-interpreter can neither see nor change variables, objects or options of its parent or siblings except through declared aliases and explicit eval/call/value/uplevel requests, whose arguments and results are copied as data. Deleting a sub-interpreter, an error in it, or its exit leaves every other interpreter unaffected.',
     ['programs', 'histories'], 'all histories of creating, evaluating in, aliasing, sharing and deleting interpreters', SAMPLE + 'two scripts.',
     ['src/jsiInterp.c', 'src/jsiCmds.c'], [('interpreter creation and aliases', 'src/jsiInterp.c'), ('value copying', 'src/jsiInterp.c Jsi_CleanValue')],
     ['values read in each interpreter'], 'history checker against a model of independent stores, on an ASan+UBSan build',
     'Random histories over a tree of interpreters; the model keeps one store per interpreter.')
prop('C16', 'Configured resource limits stop the program where they say',
     'When a limit is set (operation count, call depth, include depth, interpreter depth, user objects, array size) a program that exceeds it is stopped with a catchable or reported error and does not crash or hang, and a program that stays within it is unaffected. Unbounded recursion is always stopped by the depth limit.',
     ['programs', 'configurations'], 'all limits and programs below, at and above them', SAMPLE + 'one recursion script.',
     ['src/jsiEval.c', 'src/jsiInterp.c', 'src/jsiFunc.c', 'src/jsiObj.c'], [('limit checks', 'src/jsiEval.c, src/jsiFunc.c, src/jsiObj.c')],
     ['completion or limit error'], 'limit monitor: generated programs below, at and beyond every limit, on an ASan+UBSan build',
     'Recursion by 16 mechanisms, operation counts with markers, endless loops, object, interpreter and include nesting, 23 ways to grow an array; after histories of failing operations the same limits must still hold at the same point.')
prop('C17', 'Safe mode confines file and process access',
     'An interpreter running in safe mode cannot read, write, list, create, delete, rename or link any file outside the directories it was granted, through any command (File, Channel, Sqlite, Zvfs, source, load, import, exec, CData and the rest) or path spelling (.., //, symlinks, prefixes, relative, over-long), and cannot run programs or change its own safety settings; sub-interpreters it creates are at least as confined. Operations on paths inside the granted directories work as they do in an unrestricted interpreter. (Queries of names alone, such as File.exists, isdir or realpath, are outside this property.)',
     ['inputs', 'configurations'], 'all file-touching commands, path spellings (.., //, symlinks, prefixes, relative) and grant configurations', SAMPLE + 'safe mode is hardly exercised.',
     ['src/jsiInterp.c', 'src/jsiFilesys.c', 'src/jsiFileCmds.c', 'src/jsiCmds.c', 'src/jsiSqlite.c', 'src/jsiLoad.c'], [('access check', 'src/jsiInterp.c Jsi_InterpAccess')],
     ['file-system state and returned data'], 'containment monitor (file-tree snapshot plus secret-token detector) over generated programs, run as an unprivileged user on an ASan+UBSan build',
     'Every file-touching command crossed with path spellings and grants; canaries must be unread and unchanged, and granted access must work.')
prop('C18', 'Threaded interpreters are race-free and deliver every message once',
     'Interpreters running in threads never access shared engine state without synchronisation, under any schedule, and each message sent to a threaded interpreter is executed exactly once, in the order sent by that sender. Creating and deleting threaded interpreters at any moment neither deadlocks nor crashes.',
     ['schedules'], 'all thread schedules of interpreter creation, evaluation, messaging and deletion', 'No test in the stable list starts a thread.',
     ['src/jsiInterp.c', 'src/jsiCmds.c', 'src/jsiUtils.c', 'src/main.c'], [('mutexes', 'src/jsiInterp.c'), ('event queues', 'src/jsiInterp.c jsi_ThreadEvalCmd')],
     ['race reports, message logs'], 'ThreadSanitizer plus exactly-once/order checker over message logs, with varied timing',
     'Stress programs with several threaded interpreters under ThreadSanitizer and ASan.')
prop('C19', 'Timer events fire in order, as often as asked, and never after cancel',
     'A timeout runs once and an interval repeatedly, only from within update(), never before its delay has passed and never inside its own handler; within one pass the handlers due run in order of due time, then of creation, and a timer that has become due is run by the next complete pass. A cleared timer never runs again, clearing an unknown or finished one raises an error, handlers may set and clear timers, throw and call update, and Event.names/info list exactly the live timers. update() returns the number of handlers it ran, having run for at least minTime and at most the passes and events its options allow.',
     ['histories', 'schedules'], 'all histories of setTimeout, setInterval, clearInterval and update', SAMPLE + 'one script.',
     ['src/jsiCmds.c', 'src/jsiInterp.c'], [('event table and dispatch', 'src/jsiCmds.c Jsi_EventProcess')],
     ['event log with times'], 'trace checker over event logs of generated histories under a virtual clock (LD_PRELOAD), on an ASan+UBSan build',
     'Random timer programs; the log is checked for exactly-once, not-before, order, liveness, never-after-cancel and the counts update returns.')
prop('C20', 'Files and channels store and return exact bytes',
     'After any history of open, read, write, gets, puts, seek, tell, truncate, flush and close, file contents and positions are those of the byte model, and File.read/write/copy/rename/remove/mkdir/size/glob and the other file commands have exactly the effect on the file system they name. Failed operations raise an error and leave other files unchanged.',
     ['histories'], 'all histories of channel and file commands', SAMPLE + 'three scripts.',
     ['src/jsiFilesys.c', 'src/jsiFileCmds.c'], [('channels', 'src/jsiFilesys.c'), ('file commands', 'src/jsiFileCmds.c')],
     ['file bytes, positions and directory listings read back by the operating system'], 'history checker against a byte-array and directory model, on an ASan+UBSan build',
     'Random histories in scratch directories; judged from outside with Python.')
prop('C21', 'Archives and compression preserve every byte',
     'Zvfs.deflate gives zlib data that any zlib decompresses to the input, Zvfs.inflate returns exactly the data of a valid stream and gives an error for a damaged or truncated one, and channels opened with a z or Z mode write and read gzip and zlib streams byte for byte, through any sequence of writes, flushes, appends and read sizes. An archive made by Zvfs.create and extended by Zvfs.append, or made by another zip tool, lists exactly the names, sizes, dates and checksums of its files and gives exactly their bytes, sizes, kinds and times, through a mounted path with reads and seeks in any order and to an independent unzip tool; a mount is read-only, hides nothing outside of its mount point, ends with unmount, and offset/truncate keep the bytes in front of the archive. A damaged or truncated archive is refused or its damaged entries give errors, without a crash, a hang or memory errors (checksums of stored bytes are not verified).',
     ['inputs'], 'all file sets, contents and corruptions', SAMPLE + 'no stable test builds or mounts an archive.',
     ['src/jsiZvfs.c', 'miniz/miniz.c', 'lib/Zip.jsi'], [('zip reading and writing', 'src/jsiZvfs.c'), ('deflate/inflate', 'miniz/miniz.c')],
     ['bytes and listings'], 'runtime monitoring: cross-implementation oracle (Python zlib, gzip, zipfile) over generated data, channel histories, file trees and damaged archives on an AddressSanitizer+UBSan build',
     'Random file sets both directions and corrupted archives.')
prop('C22', 'Database values and queries are faithful',
     'Values bound into a statement, by position, name or variable, are stored and read back with the same type and content, never interpreted as SQL; queries return exactly the rows, columns and order the database holds in every output mode (rows, array, json, csv, list, ...) and to every callback. Errors in SQL are raised and leave the connection usable.',
     ['inputs', 'histories'], 'all values, statements and output modes', SAMPLE + 'one script.',
     ['src/jsiSqlite.c'], [('binding and result conversion', 'src/jsiSqlite.c')],
     ['query results and the database file'], 'cross-implementation oracle (Python sqlite3 on the same file), on an ASan+UBSan build',
     'Random tables and values written by one side and read by the other in all modes.')
prop('C23', 'Database transactions are all-or-nothing',
     'The changes made inside a transaction are all kept when its function ends normally and all undone when it ends by an exception, nested transactions included, and a process killed at any moment leaves a database holding exactly the committed transactions.',
     ['fault_sequences', 'crash_points', 'histories'], 'all nestings, throw points and kill points', SAMPLE + 'no test aborts or kills a transaction.',
     ['src/jsiSqlite.c'], [('nested transactions', 'src/jsiSqlite.c transaction command')],
     ['database file after the run'], 'fault injection (exceptions and kills at enumerated points) with an oracle on the reopened file',
     'Every throw point of random nestings and kills at randomised moments.', 'fault_enumeration')
prop('C24', 'Digests, checksums and encodings are exact and reversible',
     'The hash functions (md5, sha1, sha256, sha3 family) and crc32 return the standard digest of any bytes, of a file the same as of its contents; base64 (lines of 72), hex, utf-8 and URI encodings are the standard ones and decode back to the input. Util.decrypt returns what Util.encrypt was given when the key is the same; another key does not give that text.',
     ['inputs'], 'all byte strings, lengths around block boundaries, and keys', SAMPLE + 'a few constants.',
     ['src/jsiCrypto.c', 'src/jsiCmds.c', 'src/jsiUtils.c'], [('digest code', 'src/jsiCrypto.c')],
     ['digests and encoded strings'], 'cross-implementation oracle (Python hashlib/zlib/base64), on an ASan+UBSan build',
     'All lengths around the block boundaries plus random content.')
prop('C25', 'format() and printf follow their conversion specifications',
     'format and printf produce, for every combination of flags, width, precision (literal or *) and conversion d i u o x X a A e E f g G s c, exactly the text C printf defines for the argument (integers as long long, reals as double, strings as bytes; the modifiers h, l and ll change nothing), and %S and %q give the toString and JSON text of a value with the same width and precision rules. Too few or wrongly typed arguments, unknown conversions and absurd widths raise an error and never read stray memory; surplus arguments are ignored.',
     ['inputs'], 'all conversion specifications and arguments', SAMPLE + 'one script of constants.',
     ['src/jsiFormat.c'], [('formatter', 'src/jsiFormat.c Jsi_FormatString')],
     ['formatted text'], 'oracle: C printf via ctypes on the same specification and value, on an ASan+UBSan build',
     'Exhaustive flag combinations with random widths, precisions and values.')
prop('C26', 'Times convert to and from calendar text consistently',
     'strftime renders an instant of the years 1 to 9999 as the calendar date, time and milliseconds of that instant, in UTC by the proleptic Gregorian calendar and otherwise by the rules of the local zone, before and after 1970. strptime of a text that fixes an instant returns exactly that instant, so that the two are inverse (a local hour that occurs twice may give either); text that does not match the format gives NaN, and an instant out of range an error.',
     ['inputs'], 'all instants and format directives', SAMPLE + 'one script of constants.',
     ['src/jsiFormat.c', 'src/jsiUtils.c', 'src/jsiCmds.c'], [('conversion', 'src/jsiCmds.c DateStrftime/DateStrptime')],
     ['rendered and parsed times'], 'reference-model monitor (Python calendar arithmetic; the C library for local zones) over generated instants, formats and zones, on an ASan+UBSan build',
     'Random instants over centuries and every boundary day.')
prop('C27', 'Sourcing and modules load the right code, once, in order',
     "source(file, options) runs the named file once per call, in order (paths relative to the directory of the file being sourced, top-level declarations global, the caller's variables visible unless `global` is set, the options once, exists, noError, noEval, isMain and the depth limit as documented, errors going to the caller and a later source starting afresh), and import runs a file as a function body and gives its return value. require(pkg, version) finds a package by name in the documented places, runs it exactly once, returns its version, fails when that is smaller than asked for, and does not take a package whose file failed as loaded. moduleRun/moduleOpts split a command line into options and arguments, convert values to the type of the default and reject unknown options and wrong types, alike for a module called by a script and one run as the main program.",
     ['inputs', 'histories'], 'all module graphs, versions and option lists', SAMPLE + 'two small modules.',
     ['src/jsiLoad.c', 'src/jsiCmds.c', 'src/jsiInterp.c', 'lib/Jsish.jsi'], [('package table', 'src/jsiLoad.c'), ('module options', 'src/jsiCmds.c')],
     ['load trace'], 'runtime monitoring: event-trace oracle (a Python model of source/import/require/module) over random trees of files run by the real program under AddressSanitizer+UBSan',
     'Random graphs of generated files; the load log is compared with a model.')
prop('C28', 'Options are validated, stored and read back exactly',
     'Setting options of an interpreter, database or socket through conf or the constructor accepts exactly the declared names (or an unambiguous prefix of one) and value types, stores the value (fractions of integer options dropped, null resetting what has a default, flags of a set added or removed as named, a function reaching another interpreter as text) so that reading it back returns it, and leaves every option not named unchanged. Unknown names, wrong types, out-of-range numbers, read-only options, and init-only or locked-down options given later are refused with an error, and an option after the refused one keeps its value. Options that act as commands (asserts, noError, scriptFile, stdoutStr, maxArrayList and the like) are judged by their own properties.',
     ['inputs', 'histories'], 'all option names and values of every configurable object', SAMPLE + 'a few options.',
     ['src/jsiOptions.c', 'src/jsiInterp.c'], [('option parser', 'src/jsiOptions.c')],
     ['conf() dumps before and after'], 'history checker against an option-table model, on an ASan+UBSan build',
     'Every option of several objects crossed with value kinds; frame condition checked from full dumps.')
prop('C29', 'Sockets deliver the bytes sent, in order, to the right peer',
     'Data written to a connected TCP socket arrives at the peer complete, in order and unaltered, and each UDP datagram arrives with its own content; every accepted connection and close is reported once, callbacks get the data of their own connection, and counters equal what was transferred.',
     ['schedules', 'inputs'], 'all message sizes, numbers of clients and interleavings', SAMPLE + 'no stable test opens a socket.',
     ['src/jsiSocket.c'], [('socket object', 'src/jsiSocket.c')],
     ['bytes at both ends'], 'runtime monitoring: an offline checker of recorded socket events and of the bytes seen by independent peers, under AddressSanitizer/UBSan',
     'Python peers on loopback (1-12 connections at once, random chunking, delays, peers that stop reading or reset) exchange messages with server and client scripts; per connection the bytes, the open/close/receive callbacks and the counters are compared with what the peers sent and got; TCP and UDP, async and sync sends.')
prop('C30', 'Errors report the right place, and the exit status tells the truth',
     'An uncaught error or syntax error makes the process exit non-zero and reports the file and line of the failing statement, also inside nested functions, callbacks, sourced files and statements over several lines (what is raised while a catch or finally part runs may be reported at its try statement); a caught error leaves the same position in Info.error(). A script that ends normally exits zero with nothing on standard error, and exit(n) exits with n for 0 to 127 wherever it is called, after all output written so far.',
     ['programs'], 'all error kinds at all positions', SAMPLE + 'expected outputs avoid line numbers.',
     ['src/jsiInterp.c', 'src/jsiUtils.c', 'src/jsiLexer.c', 'src/main.c', 'src/jsiCode.c'], [('line tracking', 'src/jsiCode.c, src/jsiLexer.c'), ('reporting', 'src/jsiUtils.c jsi_LogMsg')],
     ['stderr and exit status'], 'position oracle over generated programs with one planted error each, on an ASan+UBSan build',
     'Random layouts around one failing statement whose line is known.')
prop('C31', 'The test runner tells passing from failing scripts',
     'Running a script under the test option reports PASS and exit status zero exactly when the output and error text equal the expectation stored in the script, and FAIL with non-zero status otherwise; update mode writes an expectation that then passes and changes nothing else in the file.',
     ['inputs'], 'all scripts, outputs and expectation texts', 'The suite only ever uses the runner on passing scripts, so a runner that accepts everything would go unnoticed.',
     ['lib/Testing.jsi', 'src/main.c', 'lib/Jsish.jsi'], [('runner', 'lib/Testing.jsi')],
     ['exit status and report'], 'metamorphic oracle: generated scripts with right and minimally wrong expectations',
     'Each script is run with its exact expectation and with single-change corruptions of it.')
prop('C32', 'Typed C fields keep C semantics',
     'A field or array element of a C structure described to the options API returns the value last stored in it, converted by the C rules of its declared type: width, sign, float precision, buffer length, enumeration and bit set, times and owned strings, alone, in a sub-structure, in an array or in a whole dump. A value of the wrong type or outside of the range of the type, and a name or index that is none, gives an error and changes nothing; no store or increment changes another field or lies outside of the structure, and a replaced value is freed once.',
     ['inputs', 'histories'], 'all values and histories of stores and reads over all field types', 'No test calls the C API.',
     ['src/jsiOptions.c', 'src/jsi.h'], [('typed stores', 'src/jsiOptions.c jsi_SetOption_'), ('typed reads', 'src/jsiOptions.c jsi_GetOption'), ('enum, bit set, array and sub-structure handlers', 'src/jsiOptions.c')],
     ['every byte of the structure and the values read back'], 'runtime monitoring: random histories in a C harness linked with the library, every byte of the structure compared after each step with an independently computed image, on an ASan+UBSan+LSan build',
     'Random histories over 100 fields of all types; sampled, not exhaustive.')
prop('C33', 'Path functions agree with the path algebra',
     'realpath and join give the absolute path naming the same file, free of dot and dot-dot parts, doubled slashes and symlinks, whether or not the file exists; normalize gives an absolute path of the same file without empty and dot parts, and a second pass of either changes nothing. dirname, tail, rootname and extension split a path so that the parts recombine to it, for every spelling.',
     ['inputs'], 'all path strings', SAMPLE + 'one script of constants.',
     ['src/jsiFileCmds.c', 'src/jsiFilesys.c', 'src/jsiUtils.c'], [('normalisation', 'src/jsiFilesys.c Jsi_FileRealpath, jsi_pathNormalize')],
     ['returned paths'], 'comparison with posixpath and the kernel\\x27s path resolution over generated paths in a scratch tree with symlinks, on an ASan+UBSan build',
     'Random component sequences.')
prop('C34', 'Container library keeps its structural invariants',
     'The embedding API\'s hash tables, balanced trees, lists, maps, stacks and dynamic strings hold exactly what was inserted and not deleted, for every key type; lookups, counts and values always agree with that, and after a clear they are empty and usable. Iteration visits each entry exactly once (trees in key order or the requested walk order; hash tables and lists even while the current entry is deleted), and trees stay balanced. The free procedure runs exactly once for each non-null value dropped by a deletion, clear or container delete, and no freed entry is touched again.',
     ['histories'], 'all histories of insert, lookup, delete, iterate and clear, for all key types', 'No test calls the C API.',
     ['src/jsiHash.c', 'src/jsiTree.c', 'src/jsiDString.c', 'src/jsiUtils.c', 'src/jsi.h'], [('red-black tree', 'src/jsiTree.c'), ('hash table', 'src/jsiHash.c'), ('dynamic strings', 'src/jsiDString.c')],
     ['container contents through the public C API'], 'C harness with std::map models and structural assertions, on an ASan+UBSan build',
     'Long random histories with small and large key spaces, linked to the real library; every step is compared with the model.')
prop('C35', 'exec returns the command\'s output and status',
     'exec runs the given command line and returns exactly its output, or its exit code, or both, in the requested form, for any bytes and any size; a string given as input reaches the program unaltered even if it reads only a part, and a failing, unknown or killed command raises an error unless the options ask otherwise. Without the shell the words of the command reach the program unaltered, with noRedir a command with shell escapes is refused and not run, and the current directory is the same afterwards.',
     ['inputs'], 'all outputs, sizes, statuses and argument strings', SAMPLE + 'one script.',
     ['src/jsiCmds.c', 'src/jsiUtils.c'], [('exec', 'src/jsiCmds.c SysExecCmd')],
     ['returned text and status'], 'echo oracle: generated commands whose output and status are known, on an ASan+UBSan build',
     'Random sizes, statuses and argument bytes.')
prop('C36', 'eval, functions from text and scope lookup see the right variables',
     'Code given as text to eval runs in the scope where eval is called: it reads and writes the variables visible there, declares new ones there, and returns the value of its last expression when no semicolon follows it. Turning a function into text and evaluating that text gives a function of the same behaviour, and variables declared in a function or arrow function are never visible outside of it. Text that is not a complete program (for example an unterminated string) is an error, runs nothing, and leaves nothing behind.',
     ['programs'], 'all nestings of evaluated text, functions and scopes', SAMPLE + 'a few scripts.',
     ['src/jsiCmds.c', 'src/jsiFunc.c', 'src/jsiEval.c', 'src/jsiLexer.c'], [('eval', 'src/jsiEval.c'), ('function text', 'src/jsiFunc.c, src/jsiLexer.c')],
     ['values and scope contents'], 'runtime monitoring: generated programs of nested eval, functions from text, closures, arrows and this, run under ASan/UBSan and compared statement by statement with Node as the trace oracle; long histories of failing texts',
     'Shared subset of jsish and Node; layouts with newlines, comments and one token per line. Named functions declared by text give no value; an unterminated comment at the end is accepted (pinned by tests/utf.jsi).')


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as h:
        for p in P:
            h.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['qtext']), why_tests_cant=p['why'],
                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    have = [p for p in P if os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))]
    na = [dict(property=p['id'], reason=NA.get(p['id'], 'check not built yet')) for p in P if p not in have]
    man = dict(version=1, setup_cmd='python3 -m vf.build asan',
               checks=[dict(property=p['id'], quick_cmd='./check %s' % p['id'],
                            thorough_cmd='VERIF_TIER=thorough ./check %s thorough' % p['id'],
                            technique=p['technique'], level=p['level'], level_note=p['note']) for p in have],
               not_applicable=na)
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as h:
        h.write(json.dumps(man, indent=1) + '\n')
    for p in P:
        assert len(p['title']) <= 80, p['title']
        n = p['statement'].count('. ') + 1
        if n > 3:
            print('statement too long', p['id'], n)

NA = {
 'C18': 'the thread code of the built program shares engine-wide tables (key tables, option caches, the interpreter table) without locks, so on the unchanged tree messages sent to a new thread already fail depending on timing, and a repair would be a redesign; no check can be quiet on the unchanged tree and still decide this',
}
if __name__ == '__main__':
    main()
