# One entry per claimed property: how its check is built and what its evidence says.
#   kind 'mc'  : harness under mcrt (controlled scheduler, explored exhaustively within bounds)
#   kind 'seq' : exhaustive enumeration of operation sequences / inputs / injected failures against a reference model
MC = "stateless model checking of the real code (controlled scheduler, DFS over schedules with preemption bound and happens-before state caching)"
SEQ = "bounded exhaustive exploration of operation sequences on the real code against a reference model"
INP = "bounded exhaustive enumeration of inputs on the real code against a reference model"
FLT = "exhaustive enumeration of failure points on the real code against a reference model"
P = {}
def mc(id, src, note, level="model_checking", technique=MC): P[id] = dict(kind="mc", src=src, note=note, level=level, technique=technique)
def seq(id, src, note, stds=("20",), level="model_checking", technique=INP, defs=()): P[id] = dict(kind="seq", src=src, note=note, stds=stds, level=level, technique=technique, defs=defs)

POOL = ("Every schedule of the listed 1-4 thread scenarios within the stated bounds (preemptions, spurious wake-ups, early time-outs, every choice of woken waiter) "
        "is executed on the real header and judged from the recorded history; data races, use after free, deadlock, termination and hangs are detected on every one. "
        "Longer scripts (up to 25 tasks, four threads and four workers) are explored under a delay bound (at most 3, thorough 4, deviations from the round-robin schedule, preemptions among them), and scenarios with 15 to 300 tasks or up to 20 workers under a delay bound of 1 (thorough 2), and 66100 tasks queued, scheduled, waited for and destroyed (past every 16-bit counter) under the round-robin schedule. "
        "Assumes sequentially consistent interleavings (data-race freedom is checked), libstdc++ primitives behaving as specified, and at most the stated number of threads and calls.")
for i in range(1, 9): mc("T%02d" % i, "pool", POOL)
P["T06"]["more"] = [("mc", "pool", "20", ("PLUTO_THREAD_POOL_CLOCK_TYPE=std::chrono::steady_clock",))]
LOGT = ("Every schedule of the listed scenarios (logging threads, the background flusher and a controlling thread) within the stated bounds is executed on the real header; time is virtual, so timed flushes are a scheduling choice. "
        "Longer scripts (up to 17 logs from three threads) are explored under a delay bound (at most 3, thorough 4, deviations from the round-robin schedule), and up to 1000 logs in up to 257 files with flush sizes and limits up to 2000 under the round-robin schedule (thorough: every single deviation), 66100 logs in one buffer and 66099 discards under the round-robin schedule alone. "
        "Assumes sequentially consistent interleavings (data-race freedom is checked), working standard library streams, and at most the stated number of threads and calls.")
for i in (1, 2, 3, 4, 5, 9): mc("L%02d" % i, "logger", LOGT)
mc("L11", "logcfg", LOGT + " All sequences of three of 24 setter calls; scripts of up to four calls compared between a new logger and one set to what its getters say; sixteen builds: C++14, 17 and 20 with the documented defaults, every initial macro set, each one alone set, source information hidden (two standards) or given by macro.")
P["L11"]["more"] = [("mc", "logcfg", "14", ()), ("mc", "logcfg", "17", ()), ("mc", "logcfg", "20", ("INITIALS=511",)), ("mc", "logcfg", "20", ("PLUTO_LOGGER_HIDE_SOURCE_INFO=1",)), ("mc", "logcfg", "14", ("PLUTO_LOGGER_HIDE_SOURCE_INFO=1",)), ("mc", "logcfg", "20", ("SOURCE_ARGS",))] + [("mc", "logcfg", "20", ("INITIALS=%d" % (1 << i),)) for i in range(9)]
LOGF = ("The file system calls of the real logger are interposed at libc level on a private scratch directory; every call is a crash point (with every torn prefix of the write in flight) or a failure point within the fault budget. "
        "Crash model: completed system calls are durable and ordered; a write in flight leaves any prefix. ")
mc("L06", "logfs", LOGF + "Rotation sequences enumerated up to the stated depth.")
mc("L07", "logfs", LOGF, level="model_checking")
mc("L08", "logfs", LOGF + "Failures are transient: at most the stated number of failing calls per run.")
for i in ("L06", "L08"): P[i]["more"] = [("mc", "logfs", "14", ("FS_LITE",))]
mc("C04", "slru", "Two and three threads with one or two calls each, every combination of calls and initial contents, every interleaving within the preemption bound; each history must be linearizable against a sequential LRU model. Scripts of 4+4 and 5+5+5 calls under a delay bound. Same assumptions as for the pool checks.")
P["C04"]["more"] = [("mc", "slru", "14", ())]
mc("P01", "shared", "Function-local statics are constructed and destroyed once per execution under the controlled scheduler, as at the start and normal end of a program; 1-3 threads make the first use. Same assumptions as for the pool and logger checks; the number of hardware threads is an input.")
mc("P02", "reent", "Every pair of 42 operations in two threads, and each of them in three, on arguments of their own or shared constant ones; first uses race because function-local statics are made anew in every execution. C library functions with hidden static state are modelled as writes to it. Accesses inside libstdc++.so are not seen.")
SEQN = "One process under AddressSanitizer and UBSan; every case within the stated sizes is executed on the real header, nothing is sampled. Nothing is claimed beyond those sizes, alphabets and types. "
seq("C01", "lru", SEQN + "Sequences of up to 5 (thorough 7) calls over 3 keys and capacities 0..3 with distinct values, plus every call from every reachable model state. Patterned sequences with up to some thousand entries and extreme capacities.", technique=SEQ, defs=("LRU_FAULTS",))
seq("C02", "lru", SEQN + "A failure is injected at every copy, comparison and allocation of one call of every sequence of up to 3 calls (thorough 4).", level="fault_enumeration", technique=FLT, defs=("LRU_FAULTS",))
P["C02"]["rule"] = "one evaluation is a sequence of calls with one failing step; non-trivial when the injected failure really fired; distinct by state before, call and step"
seq("C03", "lru", SEQN + "All sequences of up to 4 (thorough 5) calls before and after seven ways of copying and moving.", technique=SEQ, defs=("LRU_FAULTS",))
seq("G01", "misc", SEQN + "Programs of up to 3 nested-adding tasks (thorough 4) and 5 flat ones. Guards with many tasks.", stds=("20", "14"), technique=SEQ)
seq("G02", "misc", SEQN + "All programs of up to 9 (thorough 11) nodes of scopes, throws, rethrows, catches and destructors.", stds=("20", "14", "17", "23"), technique=SEQ)
seq("W01", "misc", SEQN + "All sequences of up to 6 (thorough 7) calls and clock advances, with a controlled clock of three resolutions. Many laps.", technique=SEQ)
P["W01"]["more"] = [("seq", "misc", "20", ("SW_PERIOD=std::micro",)), ("seq", "misc", "14", ("SW_PERIOD=std::milli",)), ("seq", "misc", "20", ("SW_DEFAULT",))]
seq("R01", "misc", SEQN + "All pairs and triples of ranges over domains of 4 to 7 elements of nine types.", stds=("20", "14"))
seq("V01", "misc", SEQN + "All pairs of narrow characters, all pairs of 412 wide ones, five locales, six lifetimes.", stds=("20", "14"))
P["V01"]["more"] = [("seq", "misc", "20", ("PLUTO_LOCALE_NO_STATIC=1",))]
seq("V02", "misc", SEQN + "All 8- and 16-bit values, boundary values of wider types, all pairs of small domains.", stds=("20", "14"))
seq("V03", "misc", SEQN + "All strings of up to 8 characters over an alphabet shrinking from 9 to 4, all pairs of bytes. Long paths.", stds=("20", "14"))
seq("V04", "fmt", SEQN + "Every day of eight centuries (thorough: fourteen) at six times of day, every second of four days, every hour of 44 (134) years and the seconds around every transition in seven POSIX zones, all pairs of calls in two zones, all programs of up to 4 (5) questions for ids in threads and child processes.", stds=("20", "14"))
seq("L10", "fmt", SEQN + "All combinations of boundary times and fractions in seven zones, every seventh (thorough: every) microsecond, all thread ids and lines around powers of ten, all 256 level values, all file and function names of up to 44 characters behind nine directories, all messages of up to 5 over nine characters, all orders of up to 5 (6) writers on one stream. Times before the epoch are outside.", stds=("20", "14"))
P["L10"]["more"] = [("seq", "fmt", "20", ("PLUTO_LOGGER_HIDE_SOURCE_INFO=1",)), ("seq", "fmt", "20", ("COARSE_CLOCK",))]
seq("U01", "uni", SEQN + "All 1,112,064 scalar values alone and in neighbourhoods, all sequences of up to 3 (thorough 4) boundary values. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=("20", "14"))
seq("U02", "uni", SEQN + "All byte strings of up to 3 bytes, all of up to 6 (thorough 7) over byte classes, all 16-bit units and surrogate pairs, sequences of up to 4 (thorough 5) boundary units; thorough also every 32-bit value. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=("20", "14"))
seq("U03", "uni", SEQN + "All sequences of up to 4 (thorough 5) boundary units for every ordered pair of string types and both call forms. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=("20", "14"))
ALLSTD = ("20", "14", "17", "23")
seq("S01", "strings", SEQN + "All texts of up to 10 (thorough 14) characters over two letters and 6 (8) over three with every separator of up to 3; all texts of up to 6 (7) over six kinds of space and letters in four locales; all lists of up to 4 (5) of five pieces, with six kinds of container. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=ALLSTD)
P["S01"]["more"] = [("seq", "strings", "20", ("PLUTO_STRING_OVERLOAD_FOR_UNICODE=1",)), ("seq", "strings", "20", ("PLUTO_LOCALE_NO_STATIC=1",))]
seq("S02", "strings", SEQN + "All texts of up to 7 (thorough 9) characters over two letters with every search and replacement text of up to 3, and with zero characters up to 4 and 2; five string types. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=ALLSTD)
P["S02"]["more"] = [("seq", "strings", "20", ("PLUTO_STRING_OVERLOAD_FOR_UNICODE=1",))]
seq("S03", "strings", SEQN + "All texts of up to 6 (thorough 7) characters over six kinds of space and letters, of up to 11 (14) over two, and every single character, in four locales. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=("20", "14"))
P["S03"]["more"] = [("seq", "strings", "20", ("PLUTO_LOCALE_NO_STATIC=1",))]
seq("S04", "strings", SEQN + "Every narrow and 12,288 (thorough 131,072) wide characters; all texts of up to 5 (6) over mixed-case alphabets; all pairs of up to 4 by 3 (4 by 4) over five and 6 by 3 (7 by 3) over three letters, including letters whose upper and lower case are not inverse; four locales. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=ALLSTD)
P["S04"]["more"] = [("seq", "strings", "20", ("PLUTO_LOCALE_NO_STATIC=1",))]
seq("S05", "strings", SEQN + "All values of 8 and 16 bits; for wider types all patterns of up to two runs of ones (32 bits, thorough: three; 128 bits: one), every digit at every place and 210,000 small, negated and shifted numbers.", stds=("20", "14"))
seq("S06", "strings", SEQN + "All texts of up to 5 (thorough 6) over digits, signs, blank, point and a letter plus 50 boundary texts for ten types, with three different stack contents; all 16-bit values and boundary values of wider ones. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=("20", "14"))
seq("K01", "cont", SEQN + "All pairs of sequences of up to 5 by 4 over three values and 7 (thorough 9) by 4 over two, nine relations, 19 pairs of container and iterator kinds, C arrays, std::array and strings; iterators that check every access. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=ALLSTD, defs=("ONLY=1",))
seq("K02", "cont", SEQN + "Ten container kinds of 0 to 7 elements, all pairs of bounds out of -9..9 and 17 extreme integers. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=ALLSTD, defs=("ONLY=2",))
seq("K03", "cont", SEQN + "All sequences of up to 7 (thorough 8) over three values with identity tags, all eight predicates, three kinds of container and C arrays. Beyond that, patterned inputs at lengths around powers of two and ten (up to some ten thousand) are executed for fixed buffers, narrow counters and block-wise processing.", stds=ALLSTD, defs=("ONLY=3",))
