FLAVOURS = ["p", "u", "t", "a"]
NOTE = "Seeded exploration: the property held on every simulated run of this seed; runs not explored are not covered. Trusts the simulator's model of streams, disk and heap, and the generators. "
L = "lttoolbox/"
prop("C01", "Null-flush servers answer each request before waiting for more input",
 "When a stream tool runs as a null-flush server (lt-proc -z in its analysis, generation, bilingual, postgeneration and transliteration modes, lt-tmxproc, lt-merge, lt-paradigm), the complete reply to a well-formed request, terminating NUL included, is written and flushed before the tool reads past that request's terminating NUL. A client that sends the next request only after the previous reply therefore never deadlocks, and every request is answered in bounded work.",
 ["inputs", "schedules", "configurations"], "every dictionary, mode, request, stdio buffer size and way of cutting requests into deliveries",
 "The tests feed whole files or flush after every line through a real pipe with a few fixed inputs; they cannot control when bytes arrive or see that a read was attempted too early.",
 [L+"fst_processor.cc", L+"input_file.cc", L+"lt_proc.cc", L+"lt_tmxproc.cc", L+"lt_merge.cc", L+"lt_paradigm.cc"],
 [("NUL handling and u_fflush after each block", L+"fst_processor.cc: analysis/generation/bilingual/postgeneration wrappers and skipUntil/readAnalysis"), ("single-character lookahead", L+"input_file.cc")],
 ["stdin reads and stdout writes of the simulated process"], claim=NOTE)
prop("C02", "A reply depends only on its own request, never on earlier ones",
 "In one null-flush session, the reply to each well-formed request equals the reply a freshly started tool gives to that request alone: nothing of an earlier request (text, blanks, case, capitalisation, numbers, weights, caches, an unfinished token) leaks into or changes a later reply. The same holds for repeated lookups through one loaded processor object (analysis, bilingual lookup).",
 ["histories", "inputs", "configurations"], "every history of requests, in every mode",
 "Tests send one or two requests per process; leaks need a particular earlier request.",
 [L+"fst_processor.cc", L+"state.cc", L+"buffer.h", L+"lt_tmxproc.cc", L+"lt_merge.cc"],
 [("per-block reset of queues, buffers and lexical state", L+"fst_processor.cc"), ("State::init per token", L+"state.cc")],
 ["stdout of the simulated process, frame by frame"], claim=NOTE+"The reference for each reply is a fresh simulated process.")
prop("C03", "Output does not depend on how input bytes are delivered",
 "For the same input bytes, the output bytes and exit status of every stream tool are the same whatever the sizes of the pieces in which the bytes arrive (multi-byte characters and escapes cut anywhere), whatever the stdio buffer sizes, whether dictionary files are read in short reads, and whether text goes through standard streams or through file arguments.",
 ["schedules", "inputs"], "every segmentation of the input into reads and every buffer size",
 "Tests always deliver input from a regular file or one write, so almost every read returns a full buffer.",
 [L+"input_file.cc", L+"fst_processor.cc", L+"compression.cc", L+"lt_proc.cc"],
 [("UTF-8 decoding byte by byte from the stream", L+"input_file.cc InputFile::get/internal_read")],
 ["stdout bytes, exit status"], claim=NOTE+"The reference is the same input delivered at once.")
prop("C04", "Each request gets exactly one reply, in request order",
 "A null-flush server sends exactly one NUL-terminated reply per NUL-terminated request, in request order, empty requests included, and each formatting blank of a request appears in the reply to that request and in no other (at most one empty frame may follow at end of input).",
 ["histories", "inputs", "schedules"], "every history of requests in every null-flush mode",
 "The number and pairing of replies under arbitrary request histories is not observed by the tests, which compare a single output.",
 [L+"fst_processor.cc", L+"lt_tmxproc.cc", L+"lt_merge.cc"],
 [("NUL written once per block, blank queue emptied per block", L+"fst_processor.cc flushBlanks, wrappers")],
 ["stdout frames"], claim=NOTE)
prop("C05", "Analysis never loses, duplicates, invents or reorders text or formatting",
 "Analysis (lt-proc default, -a, -w, -e and their options, and lt-tmxproc on text without matches) conserves its input: for well-formed text, the surface sides of the output units plus the text between them spell exactly the input characters in order, and all superblanks and wordblanks come out once each and in order, also when the client hangs up in the middle of a request. Exempt are plain white space, soft hyphens, characters listed as ignored, and the legacy SAO mode.",
 ["inputs", "histories", "crash_points"], "every dictionary, text, history and hang-up point",
 "Losses need a particular combination of partial multiword, compound, blank, end of block and buffer position.",
 [L+"fst_processor.cc", L+"buffer.h", L+"input_file.cc"],
 [("input buffer with rollback to the last accepted position", L+"fst_processor.cc analysis, readAnalysis; "+L+"buffer.h"), ("blank queue", L+"fst_processor.cc printSpace, flushBlanks")],
 ["stdout bytes"], claim=NOTE)
prop("C06", "Transfer and generation conserve formatting blanks and lexical units",
 "Bilingual lookup, generation, postgeneration, transliteration and lt-merge return every superblank of a well-formed request exactly once and in order, and bilingual lookup and generation every wordblank; bilingual lookup (-b, -o, -O) returns one unit per unit, and -b with its source side unchanged, also when the client hangs up between units. Every reply is a well-formed stream.",
 ["inputs", "histories", "crash_points"], "every dictionary, stream, history and hang-up point",
 "Needs particular unit sequences, tags, blanks and ends of block; tests fix a few streams.",
 [L+"fst_processor.cc", L+"lt_merge.cc", L+"input_file.cc"],
 [("blanks are copied through skipUntil/readFullBlock", L+"fst_processor.cc"), ("merge queue of blanks", L+"lt_merge.cc")],
 ["stdout bytes"], claim=NOTE)
ALLT = [L+"lt_"+t+".cc" for t in "append apply_acx comp compose expand invert merge paradigm print proc restrict tmxcomp tmxproc trim".split()]
prop("C08", "A failing input device ends the run and is never reported as success",
 "When reading any input of any of the fourteen tools (text on standard input or from a file, compiled dictionary, XML or AT&T source, character tables) fails with an I/O error at any byte, the tool stops: it does not loop, crash with a memory fault or emit endless output, and it does not exit with status 0 unless its product is byte for byte that of the undisturbed run (a transient error that was retried).",
 ["inputs", "crash_points", "configurations"], "every tool, every input file or stream, every byte position and transient or permanent errors",
 "A test cannot make read() fail at a chosen byte of a chosen file.",
 [L+"input_file.cc", L+"compression.cc", L+"file_utils.cc", L+"alphabet.cc", L+"transducer.cc", L+"trans_exe.cc", L+"compiler.cc", L+"expander.cc", L+"tmx_compiler.cc", L+"att_compiler.cc", L+"xml_parse_util.cc"] + ALLT,
 [("ferror is told apart from end of file", L+"input_file.cc InputFile::internal_read"), ("every value read from a dictionary is checked", L+"compression.cc check_read and its callers"), ("XML reader results are checked", L+"xml_parse_util.cc read_or_die and its callers")],
 ["exit status, product bytes, work done"], claim=NOTE)
prop("C09", "Output that could not be written is never reported as success",
 "When writing or closing the product of any of the fourteen tools (a file or standard output) fails (disk full, quota, I/O error) at any byte, or only when the file is closed, the tool does not exit with status 0 with an incomplete product, and it does not hang or crash with a memory fault.",
 ["inputs", "crash_points", "configurations"], "every tool, every byte position of its product, every stdio buffer size, write and close errors",
 "A test cannot fill the disk at a chosen byte; the last buffer is only written at close, where errors are easiest to lose.",
 [L+"file_utils.cc", L+"compression.cc", L+"transducer.cc", L+"tmx_compiler.cc"] + ALLT,
 [("outputs are closed through checked helpers", L+"file_utils.cc closeOutTextFile, closeOutBinFile"), ("writeByte and write_u64 check fwrite", L+"compression.cc, "+L+"compression.h")],
 ["exit status, product bytes"], claim=NOTE)
prop("C10", "A torn compiled dictionary is rejected",
 "A compiled dictionary that was cut short at any byte, for instance because the machine crashed or the disk filled up while it was being written, is never used: every tool that loads it fails (non-zero exit or abort) without a memory fault or a hang, and never answers from the part that survived.",
 ["crash_points", "inputs", "configurations"], "every dictionary, every crash point of the command writing it and every tool reading it",
 "The tests load intact dictionaries only.",
 [L+"file_utils.cc", L+"compression.cc", L+"alphabet.cc", L+"transducer.cc", L+"trans_exe.cc", L+"fst_processor.cc"],
 [("reads past the end of the file throw", L+"compression.cc check_read, called from file_utils.cc, alphabet.cc, transducer.cc, trans_exe.cc"), ("header and feature words", L+"file_utils.cc readShared")],
 ["exit status, output of the reading tool"], claim=NOTE+"Corruption other than truncation is not claimed.")
prop("C15", "Running out of memory is fail-stop",
 "When a C++ allocation fails at any point of a run of any of the fourteen tools, once or from then on, the tool stops with a failure or carries on and delivers exactly the right product: it never exits with status 0 and a wrong product, hangs, writes without end, frees memory twice or dereferences a null pointer.",
 ["crash_points", "inputs", "configurations"], "every tool and every allocation of a run",
 "A test cannot make the k-th allocation fail for every k.",
 [L+"state.cc", L+"fst_processor.cc", L+"transducer.cc", L+"compiler.cc", L+"lt_proc.cc"] + ALLT,
 [("std::bad_alloc propagates to main or terminates; unwinding leaves owners consistent", L+"state.cc copy, apply; "+L+"lt_proc.cc catch block")],
 ["exit status, product, operator new and delete"], claim=NOTE+"Only operator new fails; malloc inside ICU, libxml2 and libc does not.")
prop("C16", "The same command on the same files gives the same bytes",
 "Every tool is a function of its arguments, input files and input text: its product, messages and exit status do not depend on where the allocator places objects, on what fresh or freed memory happens to contain, or on address-space layout. In particular compiled dictionaries are reproducible and the order of analyses does not depend on pointer values.",
 ["schedules", "inputs", "configurations"], "every heap layout and content of uninitialised memory",
 "Tests run under one allocator whose fresh memory is zero and whose addresses hardly vary.",
 [L+"transducer.cc", L+"trans_exe.cc", L+"state.cc", L+"node.cc", L+"fst_processor.cc", L+"compiler.cc", L+"buffer.h"] + ALLT,
 [("finals and transitions are ordered by number, or by address only inside one array", L+"trans_exe.cc, "+L+"transducer.cc"), ("buffers are written before they are read", L+"buffer.h, "+L+"fst_processor.cc")],
 ["product, messages and exit status"], claim=NOTE)
prop("C18", "A failed compilation reports failure and leaves the previous output alone",
 "When lt-comp or lt-tmxcomp cannot compile its source (the XML is cut short or not well-formed, reading fails, an element, symbol or paradigm is unknown), it exits with a non-zero status, terminates, and leaves a previous output file exactly as it was; a source that is not well-formed is never reported as compiled.",
 ["inputs", "crash_points"], "every source, every way and position of damage",
 "Tests try a handful of bad sources and do not look at the previous output.",
 [L+"compiler.cc", L+"tmx_compiler.cc", L+"lt_comp.cc", L+"lt_tmxcomp.cc", L+"xml_parse_util.cc", L+"acx.cc"],
 [("parse errors end the program before the output is opened", L+"lt_comp.cc, "+L+"lt_tmxcomp.cc, "+L+"compiler.cc step, "+L+"xml_parse_util.cc")],
 ["exit status, the output file on the simulated disk"], claim=NOTE)
prop("C19", "The memory of a long-lived server does not grow with its history",
 "A null-flush server that answers the same requests over and over settles at a bounded amount of live heap memory, in every mode: no reply leaks, no queue, cache or buffer keeps growing with the number of requests served.",
 ["histories", "inputs", "configurations"], "every dictionary, mode and set of requests repeated without end",
 "Leaks show only after many requests in one process; tests end after one.",
 [L+"fst_processor.cc", L+"state.cc", L+"buffer.h", L+"input_file.cc", L+"lt_paradigm.cc"],
 [("sequences are recycled through a pool, blank queues are emptied, buffers wrap around", L+"state.cc, "+L+"fst_processor.cc, "+L+"buffer.h")],
 ["live heap bytes each time the server waits for input"], claim=NOTE+"Growth that stops is not a violation.")
prop("C11", "What is stored in a dictionary is what is loaded from it",
 "Every compiled dictionary that a tool of the package stores is in the documented binary format and loads back completely, in every reader: alphabetic characters, symbols, symbol pairs, sections, states, transitions and weights (to the stored precision) are the ones that were stored, whatever the read sizes, over whatever older file it was written, in both the current and the old (header-less) format. Storing what was loaded, or passing it through the library's stream serialisation, gives a dictionary with the same content; inverting twice gives the dictionary back.",
 ["inputs", "histories", "configurations"], "every dictionary, every tool that stores one, every sequence of loads and stores, every read size",
 "Tests store a few small ASCII dictionaries; boundaries of the variable-length numbers, characters outside the BMP, weights and many-state dictionaries are not sampled, and no test re-reads what the stream serialisation wrote.",
 [L+"compression.cc", L+"compression.h", L+"alphabet.cc", L+"transducer.cc", L+"trans_exe.cc", L+"file_utils.cc", L+"serialiser.h", L+"deserialiser.h", L+"lt_print.cc", L+"lt_invert.cc"],
 [("variable-length numbers, strings, weights", L+"compression.cc"), ("alphabet and transducer formats", L+"alphabet.cc write/read/serialise, "+L+"transducer.cc write/read, "+L+"trans_exe.cc read"), ("file layout", L+"file_utils.cc writeTransducerSet, readTransducerSet")],
 ["files on the simulated disk, lt-print output"], claim=NOTE+"The oracle is an independent reader and writer of the format.")
prop("C17", "Pipelines of tools neither deadlock nor change the result",
 "Tools joined in a pipeline give, byte for byte, the result of running them one after another, for every pipe capacity, stdio buffer size and order in which the processes run; with null flush the reply to each request leaves the end of the pipeline before the next request is needed. When one stage or the final reader dies, every other stage terminates, without a memory fault, and a stage whose output could not be delivered does not exit with status 0.",
 ["schedules", "crash_points", "inputs"], "every interleaving of the processes, every pipe capacity, every point at which a stage dies",
 "Tests run the tools one at a time from files; the order in which real pipes interleave them is not controlled.",
 [L+"fst_processor.cc", L+"input_file.cc", L+"file_utils.cc", L+"lt_proc.cc", L+"lt_merge.cc", L+"lt_tmxproc.cc"],
 [("flush at every NUL and only there", L+"fst_processor.cc"), ("streams are read character by character", L+"input_file.cc")],
 ["bytes moved through the simulated pipes, exit status of every stage"], claim=NOTE)
prop("C12", "Parallel compilation gives the sequential result under every thread schedule",
 "lt-comp with -j or LT_JOBS produces the same dictionary bytes, messages and exit status as without, whatever the order in which its threads run and however often they are preempted; the threads never access the same memory without synchronisation, never wait for each other for ever, and when a thread cannot be created or memory runs out the command fails or still delivers exactly that dictionary.",
 ["schedules", "inputs", "configurations"], "every dictionary, number of sections and interleaving of the minimisation threads",
 "The order in which real threads run is not controlled by a test; a race shows once in thousands of runs, on large dictionaries.",
 [L+"compiler.cc", L+"lt_comp.cc", L+"transducer.cc"],
 [("one thread per section, joined before the result is used", L+"compiler.cc parse"), ("minimize touches only its own transducer", L+"transducer.cc minimize, determinize, reverse")],
 ["product bytes, messages, every memory access of the threads"], claim=NOTE+"Races are judged by happens-before over the memory accesses of lttoolbox code in each simulated schedule.")
prop("C13", "Parallel composition gives the sequential result under every thread schedule",
 "lt-compose with LT_JOBS produces the same dictionary bytes and exit status as without, whatever the order in which its threads run; the threads never access the same memory without synchronisation and never wait for each other for ever, and when a thread cannot be created or memory runs out the command fails or still delivers exactly that dictionary.",
 ["schedules", "inputs", "configurations"], "every pair of dictionaries, number of sections and interleaving of the threads",
 "The order in which real threads run is not controlled by a test; the race needs two sections that add symbols at the same moment.",
 [L+"lt_compose.cc", L+"transducer.cc", L+"alphabet.cc"],
 [("tasks work on separate transducers; the shared alphabet is only changed by one thread", L+"lt_compose.cc compose")],
 ["product bytes, every memory access of the threads"], claim=NOTE+"Races are judged by happens-before over the memory accesses of lttoolbox code in each simulated schedule.")
prop("C14", "Threads that use separate processor objects do not disturb each other",
 "A program in which several threads each use their own FSTProcessor, InputFile, Alphabet and Transducer objects gets, in every thread and under every schedule, the results it would get doing the same work in one thread after another: the library keeps no hidden mutable state shared between objects, and no two threads access the same memory without synchronisation.",
 ["schedules", "inputs", "histories"], "every mix of library calls on separate objects and every interleaving",
 "Tests are single-threaded.",
 [L+"fst_processor.cc", L+"state.cc", L+"trans_exe.cc", L+"alphabet.cc", L+"transducer.cc", L+"compression.cc", L+"input_file.cc", L+"file_utils.cc", L+"ustring.cc"],
 [("all working storage belongs to the object: state pool, buffers, queues", L+"state.h, "+L+"fst_processor.h, "+L+"input_file.h")],
 ["results of library calls, files, every memory access of the threads"], claim=NOTE+"Sharing one object between threads is not claimed.")
prop("C21", "Analysis gives the leftmost-longest match with all its readings",
 "Over a whole session, whatever the requests, their order, the delivery of their bytes and the point at which the client hangs up, morphological analysis (lt-proc default, -a, -c, -w, -e and their options) segments text left to right into the longest match of the dictionary's standard, postblank, preblank and inconditional sections that ends at a word boundary, prints a word with no entry as *unknown with exactly its characters, and gives each unit exactly the readings the dictionary relates to that form: none missing, none invented, none twice; restored (-r) and ignored (-i, -I) characters and letter case (without -c, with -w) as documented, cheapest reading first, limited by number (-N) and weight class (-L), with the right weight (-W); a space is added after a match of a postblank and before one of a preblank section and nowhere else; compounds (-e, -M) with the fewest parts.",
 ["inputs", "histories", "schedules", "crash_points"], "every dictionary, option set, history of requests, delivery schedule and hang-up point",
 "The tests fix some dozens of words; wrong matches need particular combinations of entries sharing prefixes, case, blanks inside multiwords, weights, options and ends of block.",
 [L+"fst_processor.cc", L+"state.cc", L+"node.cc", L+"trans_exe.cc", L+"match_exe.cc", L+"alphabet.cc", L+"input_file.cc"],
 [("longest accepted position, rollback", L+"fst_processor.cc analysis"), ("set of live states, case variants, filtering and ordering of final paths", L+"state.cc step, step_case, filterFinals, NFinals"), ("decompounding", L+"fst_processor.cc compoundAnalysis; "+L+"state.cc restartFinals, pruneCompounds")],
 ["stdout of the simulated process, unit by unit"], claim=NOTE+"The oracle is a reference model that decodes the compiled dictionary itself. Outside the model: compounds across blanks or with letters outside the BMP, <ANY_CHAR> dictionaries; weights of empty transitions are ignored, as the tests pin.")
prop("C22", "Generation and bilingual lookup answer with exactly what the dictionary relates",
 "Over a whole session, generation (lt-proc -g, -d, -l, -m, -n, -C), bilingual lookup (-b, -o, -O and their options) and the library's word lookups (biltrans, biltransWithQueue, biltransWithoutQueue, lookup) answer every lexical unit with exactly the target side or sides the dictionary relates to it, in order of weight; tags after a bilingual match are carried over; the case of the unit is carried to the answer where the mode folds case and never where it does not; unknown units, and units marked *, @ or # come out with the documented mark; the answer does not depend on earlier units, on delivery or on a hang-up.",
 ["inputs", "histories", "schedules", "crash_points"], "every dictionary, mode, unit, history, delivery schedule and hang-up point",
 "The tests fix a few units per mode; library lookups are hardly tested.",
 [L+"fst_processor.cc", L+"state.cc", L+"node.cc", L+"trans_exe.cc", L+"alphabet.cc", L+"input_file.cc"],
 [("generation and transliteration of one unit", L+"fst_processor.cc generation, tm/lsx"), ("bilingual lookup with queue", L+"fst_processor.cc bilingual, biltrans, biltransWithQueue, biltransWithoutQueue"), ("library lookup", L+"fst_processor.cc lookup; "+L+"state.cc filterFinals")],
 ["stdout of the simulated process, results of library calls"], claim=NOTE+"The oracle is a reference model that decodes the compiled dictionary itself. Outside the model: biltransfull, the = mark, mixed-case lemmas such as aB in generation, <ANY_CHAR> dictionaries.")
prop("C20", "A compiled dictionary means what its source says",
 "lt-comp turns a dictionary source (XML with paradigms, nested paradigms, regular expressions, one-way entries, alternatives and variants, identities, groups, joins, weights and an accents file; or AT&T text) into a binary whose sections contain exactly the pairs of forms the source denotes in the chosen direction, with their weights and letters: none missing, none invented; a unified compilation followed by lt-restrict gives what direct compilation gives; lt-expand lists exactly those pairs with their direction; lt-print followed by lt-comp gives the same relation back; sources with an empty or blank-initial input side are refused. The order of the steps, short reads, older files in the way and a crash in the middle of writing followed by the same command make no difference.",
 ["inputs", "histories", "crash_points", "configurations"], "every dictionary source, option set and build history",
 "The tests compile some dozens of fixed dictionaries; wrong products need entries that share prefixes, cycles, empty paradigms, several paradigms or particular attribute combinations.",
 [L+"compiler.cc", L+"entry_token.cc", L+"regexp_compiler.cc", L+"transducer.cc", L+"att_compiler.cc", L+"expander.cc", L+"lt_restrict.cc", L+"lt_print.cc", L+"alphabet.cc", L+"acx.cc", L+"xml_parse_util.cc"],
 [("paradigms, attribute filters, tokens to transducer", L+"compiler.cc procEntry, insertEntryTokens, matchTransduction"), ("regular expressions", L+"regexp_compiler.cc"), ("determinisation, minimisation", L+"transducer.cc minimize, determinize, reverse"), ("word/punctuation split", L+"att_compiler.cc classify_forwards, extract_transducer"), ("cartesian product of paradigms by direction", L+"expander.cc procEntry"), ("symbols for restrictions", L+"lt_restrict.cc")],
 ["decoded relation of the product files, lines of lt-expand and lt-print, exit status"], claim=NOTE+"The oracle has its own XML reader and its own decoder of binaries. Outside the model: separable (lsx) and sequential dictionaries, AT&T paths that begin without a character when sections are split, lt-expand with v, vl or vr attributes, weights of entries with other than one non-empty pair.")
prop("C23", "Operations on compiled dictionaries compute the relation they name",
 "lt-invert swaps the sides of every pair; lt-append adds the sections of a second dictionary (replacing or, with -k, keeping those of the same name); lt-compose gives, section by section, exactly the pairs whose middle form the second dictionary relates (with -i on the input side), weights added; lt-apply-acx adds exactly the accent variants of the input side; lt-trim keeps exactly the analyses whose parts (split at joins, groups moved behind the tags, compound marks ignored) are prefixes, up to tags, of bilingual entries, and leaves sections not selected by -s alone; results of one operation are valid inputs of the next, in any history, with short reads, older files in the way and a crash in the middle of writing followed by the same command.",
 ["inputs", "histories", "crash_points", "configurations"], "every pair of dictionaries and every history of operations",
 "The tests apply each operation to a few small dictionaries, once.",
 [L+"transducer.cc", L+"lt_invert.cc", L+"lt_append.cc", L+"lt_compose.cc", L+"lt_trim.cc", L+"lt_apply_acx.cc", L+"alphabet.cc", L+"acx.cc", L+"file_utils.cc"],
 [("intersection with the bilingual side", L+"transducer.cc trim, appendDotStar, moveLemqsLast"), ("composition", L+"transducer.cc compose"), ("other operations", L+"transducer.cc invert, applyACX, unionWith, updateAlphabet"), ("sections and alphabets", L+"lt_append.cc, "+L+"file_utils.cc")],
 ["decoded relation of the product files, exit status"], claim=NOTE+"The oracle computes the operations on finite relations (cut at 6 symbols when there are loops). Outside the model: lt-compose -a, trimming entries with both a join and a group, weights in the bilingual dictionary of lt-trim, separable dictionaries.")

prop("C07", "Damaged streams and damaged sources never make a tool misbehave",
 "Whatever happens to the bytes between a producer and a tool (lost, doubled, changed, moved or flipped bytes, a cut at any point), the tool that reads the stream (lt-proc in every mode, lt-tmxproc, lt-merge, lt-paradigm) or the source (lt-comp, lt-expand, lt-trim, lt-tmxcomp, lt-restrict, lt-apply-acx on XML, AT&T, TMX or character files) ends by itself in bounded time, with an exit status and not a signal, without touching memory that is not its own, without undefined arithmetic and without using an empty container; it may refuse the input or translate it to anything.",
 ["inputs", "crash_points", "configurations"], "every well-formed stream or source and every sequence of damages to it",
 "The tests feed well-formed input and a handful of error cases; out-of-range accesses need a particular malformed byte sequence at a particular point and usually stay silent without instrumentation.",
 [L+"fst_processor.cc", L+"input_file.cc", L+"state.cc", L+"buffer.h", L+"compiler.cc", L+"att_compiler.cc", L+"expander.cc", L+"tmx_compiler.cc", L+"acx.cc", L+"xml_parse_util.cc", L+"lt_paradigm.cc", L+"regexp_compiler.cc"],
 [("stream readers: escapes, blanks, wordblanks, ends of block", L+"fst_processor.cc readAnalysis, readTMAnalysis, readSAO, readTransliterationBlank, readTransliterationWord; "+L+"input_file.cc readBlock"), ("source readers", L+"compiler.cc, "+L+"att_compiler.cc, "+L+"tmx_compiler.cc, "+L+"acx.cc")],
 ["exit status or signal of the simulated process, sanitizer reports, simulated steps"], claim=NOTE+"Built with AddressSanitizer, UndefinedBehaviorSanitizer and library assertions. Compiled dictionaries are cut short under C10, not here; decompounding only on words up to 28 bytes (its cost is exponential).")
prop("C24", "Postgeneration and transliteration replace exactly the longest matches",
 "Over a whole session, whatever the requests, their order, the delivery of their bytes and the point at which the client hangs up, postgeneration (lt-proc -p and -x) and transliteration (-t) go through the text from left to right and replace each longest match of the dictionary by what the dictionary relates to it (the best by weight), keeping capitals unless told not to; text that no entry matches, and everything outside a ~-woken stretch where the mode asks for one, passes unchanged, and a request never influences the rewriting of a later one.",
 ["inputs", "histories", "schedules", "crash_points"], "every rewriting dictionary, mode, option set, history of requests, delivery schedule and hang-up point",
 "The tests fix a few entries; wrong rewriting needs entries that share beginnings, failed long matches followed by a shorter one, capitals, multiwords and ends of block in one text.",
 [L+"fst_processor.cc", L+"state.cc", L+"node.cc", L+"trans_exe.cc", L+"input_file.cc", L+"alphabet.cc"],
 [("matching and rewriting", L+"fst_processor.cc postgeneration, intergeneration, transliteration"), ("what waits to be read, word ends", L+"fst_processor.cc readTransliterationWord, readTransliterationBlank, isAlphabetic"), ("states and case", L+"state.cc step_case, filterFinals")],
 ["stdout of the simulated process"], claim=NOTE+"The oracle is a reference model that decodes the compiled dictionary itself. Matches with several equally good results are outside the model; where the blanks of a rewritten multiword go is compared only when every blank is one space.")
prop("C25", "A translation memory translates stored segments and leaves other text alone",
 "lt-tmxcomp stores every segment pair of a TMX file (of at least five symbols) and lt-tmxproc, over a whole session and under every delivery schedule, replaces each longest stored segment standing in the text as whole words by its translation, carries the numbers of the text over to the places the translation has for them, and passes all other text through unchanged.",
 ["inputs", "histories", "schedules"], "every translation memory, history of requests and delivery schedule",
 "The tests do not run translation memories at all beyond one fixed file.",
 [L+"tmx_compiler.cc", L+"fst_processor.cc", L+"lt_tmxcomp.cc", L+"lt_tmxproc.cc", L+"state.cc"],
 [("compilation, alignment of numbers", L+"tmx_compiler.cc insertTU, align"), ("matching and number substitution", L+"fst_processor.cc tm_analysis, readTMAnalysis; "+L+"state.cc filterFinalsTM")],
 ["stdout of the simulated process"], claim=NOTE+"Segments whose translation has a number its source lacks, and texts in which a longer segment fails right behind a number or is cut off by the end of the text, are outside the model.")
prop("C26", "Merging makes one unit of a marked stretch, unmerging restores its text",
 "lt-merge turns every stretch of lexical units marked as a merge, with the blanks and units between them, into exactly one unit that carries their surface forms and blanks and the merged analysis, keeps the wordblanks, and leaves every other byte of the stream as it was; lt-merge -u gives back the surface text of the merged units and leaves the rest alone; request by request over a whole session, whether the stream comes from standard input or a file and goes to standard output or a file.",
 ["inputs", "histories", "schedules", "configurations"], "every well-formed stream with and without marks, every session and buffer size",
 "The tests merge a few fixed lines from standard input; marks at the ends of blocks, nested wordblanks, escapes and files are not sampled.",
 [L+"fst_processor.cc", L+"lt_merge.cc", L+"input_file.cc", L+"cli.cc"],
 [("the merge state machine", L+"fst_processor.cc quoteMerge"), ("unmerge", L+"fst_processor.cc quoteUnmerge"), ("input and output files", L+"lt_merge.cc")],
 ["stdout or output file of the simulated process"], claim=NOTE+"The oracle is an executable model of the documented format.")
prop("C27", "A paradigm listing shows exactly the forms that match the pattern",
 "For every pattern (letters, tags and the wildcards for any letter, any tag, tag choice and exclusion) lt-paradigm lists exactly those forms of the dictionary whose analysis matches it, for analysers and generators, and with -s each once and in order; request by request, in every session and for every hash and allocation order.",
 ["inputs", "histories", "configurations"], "every dictionary, pattern and option set",
 "One fixed dictionary and a handful of patterns are tested.",
 [L+"lt_paradigm.cc", L+"transducer.cc", L+"alphabet.cc", L+"file_utils.cc"],
 [("pattern to transducer, expansion", L+"lt_paradigm.cc"), ("intersection", L+"transducer.cc trim")],
 ["stdout of the simulated process"], claim=NOTE+"Patterns with tags the dictionary does not have are outside the model; forms with joins, splits or compound marks may or may not be listed.")
prop("C28", "A list of patterns gives every word its first matching class",
 "For every list of patterns (lemmas and tags with wildcards, sequences of them, labels used inside sequences, letters of any plane) a matcher made from it gives every word the smallest class among the patterns that match the whole word, -1 if none does, never a banned class, and has states left exactly while some pattern can still match; the same for a list that was written and read by another process, serialised, copied or assigned, for a copied matcher whose original is gone, and for every alternation of cursors (MatchState) that are stepped, copied, assigned, cleared and restarted.",
 ["inputs", "histories", "configurations"], "every pattern list, word, storage path and alternation of cursors",
 "No test uses the pattern classes at all; their users are the tagger and the transfer, in other packages.",
 [L+"pattern_list.cc", L+"match_exe.cc", L+"match_state.cc", L+"match_node.cc", L+"sorted_vector.cc", L+"compression.cc", L+"alphabet.cc"],
 [("patterns to transducer", L+"pattern_list.cc buildTransducer"), ("matcher", L+"match_exe.cc"), ("cursor", L+"match_state.cc step, classifyFinals")],
 ["class and size of every cursor after its steps"], claim=NOTE+"Patterns whose beginnings coincide share states, so both answers are accepted for a queue before the + of a sequence of plain items.")
prop("C29", "The stream reader hands over every part of a stream exactly once",
 "For every well-formed stream the library's StreamReader hands over, call by call, exactly the blanks, word-bound blanks, marks, readings, symbols and chunks of the stream in order, nothing twice and nothing dropped, one unit per call, and says null and end of input exactly where they are; for every way the bytes are delivered, from standard input and files, with and without an alphabet.",
 ["inputs", "delivery schedules", "histories"], "every well-formed stream and every delivery of it",
 "The class is only tested through a few lt-proc runs with whole files.",
 [L+"stream_reader.cc", L+"input_file.cc", L+"ustring.cc", L+"alphabet.cc"],
 [("units", L+"stream_reader.cc next"), ("blanks and blocks", L+"input_file.cc readBlank, readBlock, finishWBlank")],
 ["the fields of the reader after every call"], claim=NOTE+"Streams are well formed.")
prop("C30", "Operations on transducers do to their language what they say",
 "For every history of library operations on transducers (adding words, inserting one into another, union, copies, optional, one or more, zero or more, reversal, determinisation, minimisation, joining finals, inversion, deleting and emptying symbols, storing, loading and serialising, over shared and different alphabets) each transducer afterwards accepts exactly the label sequences the operations define, with the weights they define; operations leave the other transducers' languages alone; determinised transducers are deterministic and minimised ones as small as possible up to a second initial state.",
 ["inputs", "histories", "configurations"], "every history of operations",
 "Tests compile small dictionaries and look at a few words; cycles through initial states, weights on finals and mixed histories do not occur.",
 [L+"transducer.cc", L+"alphabet.cc", L+"compression.cc", L+"serialiser.h", L+"deserialiser.h"],
 [("insertion and union", L+"transducer.cc insertTransducer, unionWith"), ("closures", L+"transducer.cc optional, oneOrMore, zeroOrMore"), ("minimisation", L+"transducer.cc reverse, determinize, minimize")],
 ["initial state, finals and transitions read out after every operation"], claim=NOTE+"Non-negative weights; words are added one by one only to transducers that went through no other operation.")
