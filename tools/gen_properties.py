#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

TP = "include/pluto/thread_pool.hpp"; LG = "include/pluto/logger.hpp"
LR = "include/pluto/lru_cache.hpp"; SL = "include/pluto/safe_lru_cache.hpp"
SC = "include/pluto/scope.hpp"; SW = "include/pluto/stopwatch.hpp"; UN = "include/pluto/unicode.hpp"
ST = "include/pluto/string.hpp"; CO = "include/pluto/container.hpp"; IT = "include/pluto/iterator.hpp"
RA = "include/pluto/range.hpp"; CM = "include/pluto/compare.hpp"; VA = "include/pluto/value.hpp"; PF = "include/pluto/platform.hpp"
LO = "include/pluto/locale.hpp"

# ---------------------------------------------------------------- thread pool
prop("T01", "Every asynchronous task runs exactly once",
 "Every task handed to a live thread pool that has (or later gets) at least one worker is executed exactly once: it is never lost, never executed twice, and never left waiting while a worker sleeps. This holds no matter which threads submit, from inside or outside a task, and how the submissions interleave with workers going to sleep, waking, starting and leaving.",
 ["schedules", "histories"], "all interleavings of submitters, workers and resizes (bounded preemptions, spurious wake-ups, every choice of woken waiter)",
 "Tests submit from one thread, and only count results under whatever schedule the OS happens to produce; a lost wake-up or a task executed twice needs a specific interleaving.",
 [TP], [("hand-over of a task to a worker under the pool lock", "thread_pool::run_async / thread_pool::start_working"), ("wake-up of one worker per submission", "thread_pool::run_async")],
 [("m_waitingTasks", "tasks not yet started", TP), ("m_workers", "live workers", TP)], ["task bodies", "quiescent state of the pool"])
prop("T02", "Tasks start in priority order, FIFO within a priority",
 "Whenever a worker takes a task, it takes one with the highest priority among those waiting, and among equal priorities the one that was submitted first. This includes synchronous tasks, tasks that came due from the schedule, custom numeric priorities and the extreme values.",
 ["inputs", "schedules"], "all submission orders of up to 5 tasks over a priority alphabet, all interleavings",
 "Only one test looks at priorities, with one pair of values and 128 equal tasks; order within a priority is not tested at all.",
 [TP], [("ordered queue of waiting tasks", "thread_pool::waiting_task_map"), ("front of the queue is taken", "thread_pool::start_working")], [], ["order of task starts"])
prop("T03", "A synchronous run returns exactly when its own task has completed",
 "A synchronous run on a pool with a free or eventually free worker always returns, and never before its own task has completed; everything the task wrote is visible to the caller afterwards. Concurrent synchronous runs from several threads do not disturb each other, and returning never leaves the pool using storage of the caller.",
 ["schedules"], "all interleavings of up to 3 callers with the workers",
 "The test runs one caller at a time and cannot see a return that races with completion, a lost completion signal, or a late touch of the caller's storage.",
 [TP], [("completion signal set after the task body", "thread_pool::run_sync")], [], ["return of the synchronous run", "accesses to the caller's stack and heap"])
prop("T04", "Waiting for the pool returns exactly when the condition holds",
 "Waiting until no task waits returns only when no task was waiting, and waiting until all tasks are complete returns only when no task was waiting or running. Both return once their condition holds and nobody adds work, for any number of concurrent waiters and also when workers are removed, up to the last one, while tasks finish.",
 ["schedules", "histories"], "all interleavings of waiters, submitters, workers and resizes",
 "Tests wait once from one thread after the submissions, on an unchanging worker count; missed notifications need a narrow window or a shrinking pool.",
 [TP], [("notification when the queue drains", "thread_pool::start_working"), ("notification when the last active task ends", "thread_pool::start_working")],
 [("m_activeWorkersSize", "tasks being executed", TP)], ["return of the wait functions"])
prop("T05", "Destroying a pool always terminates and honours the stop action",
 "Destroying a pool always returns, without waiting for tasks that are only scheduled for later, with every task it started having finished and no task running or starting afterwards. With the action to complete tasks, every task that was waiting at destruction, and every task those tasks submit, has been executed before destruction returns (given at least one worker is alive), even if the pool is being shrunk at that moment; with the action to join, tasks not yet started are dropped without being executed.",
 ["schedules", "histories"], "all interleavings of destruction with workers, scheduler and pending resizes",
 "Tests destroy a pool once per action, from one thread, with no resize pending and no scheduler running.",
 [TP], [("stop flag under the pool lock plus broadcast", "thread_pool::~thread_pool"), ("worker loop condition", "thread_pool::start_working")],
 [("m_isStopping / m_onStop", "shutdown requested and how", TP)], ["return of the destructor", "task bodies"])
prop("T06", "Scheduled tasks run exactly once and never early",
 "A task scheduled for a time (absolute or relative, however far in the past or future) is never started before that time, and once the time has passed it is executed exactly once, whatever other tasks are scheduled earlier or later, before or after it, and from however many threads concurrently. This also holds when the scheduler has gone idle and must be started again, at any point of its shutting down; tasks due in different order than submitted come due in time order, and those due together in the order submitted; once due they wait like any other task of their priority.",
 ["schedules", "histories"], "all interleavings of up to 3 scheduling threads with the scheduler and workers, and all points at which time may pass",
 "Tests schedule one task at a time from one thread and sleep; two threads that schedule first concurrently, or a wake-up at the instant of expiry, are out of reach.",
 [TP], [("scheduler thread start", "thread_pool::run_at"), ("timed wait on the earliest task", "thread_pool::start_scheduling"), ("detach on idle", "thread_pool::start_scheduling")],
 [("m_scheduledTasks", "tasks not yet due", TP), ("m_scheduler", "scheduler thread", TP)], ["task bodies and the clock they read"])
prop("T07", "Worker count converges to the target and the counters stay consistent",
 "After any sequence of target changes, from any threads and with any tasks running, the number of workers becomes the last target once the pool is idle, and tasks never run on more threads than workers were asked for. In every state the reported counts agree with each other: active plus waiting workers is all workers, active plus waiting tasks is all tasks, and they match the tasks actually waiting or running.",
 ["schedules", "histories"], "all interleavings of up to 3 resizes (0..3 workers) with submissions and workers",
 "Only a single 0 to 1 resize is tested; shrinking and concurrent resizes are not tested at all.",
 [TP], [("spawn up to the target under the lock", "thread_pool::target_workers_size"), ("surplus workers leave", "thread_pool::start_working")],
 [("m_workers / m_targetWorkersSize", "present and wanted workers", TP)], ["the size getters", "number of concurrently running task bodies"])
prop("T08", "All thread-pool operations may be called concurrently",
 "Any two public operations of a live pool, called from any threads including its own tasks (and destructors of what tasks capture), are free of data races, use-after-free, deadlock and abnormal termination, and each has the effect it has alone.",
 ["schedules"], "all pairs of public operations in all interleavings, with workers and scheduler live",
 "No test calls two pool operations concurrently.",
 [TP], [("single pool mutex around all state", TP)], [], ["happens-before race monitor", "process termination"])

# ---------------------------------------------------------------- caches
prop("C01", "LRU cache behaves as a bounded map with exact recency order",
 "After any sequence of operations the cache holds exactly the entries a capacity-bounded map with least-recently-used eviction would hold, with the last value assigned to each key, and every call returns what that model returns. Only a successful get or an assignment to a present key refreshes recency (a plain insert of a present key and contains do not); an insert into a full cache evicts exactly the least recent entry, shrinking evicts the least recent first, and capacity zero stores nothing while reporting success for absent keys.",
 ["histories"], "every operation sequence up to a depth over 3 keys, 2 values, capacities 0..3, plus every reachable model state",
 "Tests walk a handful of hand-written sequences of at most a few operations each.",
 [LR], [("recency list plus map of list positions", "lru_cache::insert / get / move_to_front / evict_lru")],
 [("m_list / m_map", "recency order and contents", LR)], ["return values", "drain of the cache through its public interface"])
prop("C02", "A throwing key, value or allocation leaves the LRU cache consistent",
 "If copying a key or value, comparing keys, or an allocation throws during any cache operation, the exception reaches the caller and the cache remains a consistent LRU cache: it holds a subset of the entries it would otherwise hold, in the same recency order (apart from the entry being touched), and every later operation behaves as the model says from there. No entry becomes unreachable, resurrected or duplicated.",
 ["fault_sequences", "histories"], "every operation sequence up to a depth, with a failure injected at every single fallible step",
 "No test ever makes a copy or allocation throw.",
 [LR], [("order of list and map updates", "lru_cache::insert / move_to_front")], [], ["behaviour of the cache after the exception"])
prop("C03", "Copies and moves of an LRU cache are independent and equivalent",
 "A cache copied or moved from another one (by construction or assignment) holds the same capacity, entries, values and recency order, and afterwards operations on either object never affect, corrupt or depend on the other, including after the other is destroyed.",
 ["histories"], "every operation sequence up to a depth before and after the copy or move, on both objects",
 "No test copies or moves a cache.",
 [LR], [("copy and move of list and map", "lru_cache special members")], [], ["behaviour of both objects", "memory errors"])
prop("C04", "The thread-safe LRU cache is linearizable and race-free",
 "Every concurrent history of operations on the thread-safe cache is equivalent to some sequential order of the same calls on a plain LRU cache that respects real-time order, including the recency effects seen by later evictions. No interleaving deadlocks, races on memory, or exposes a half-done operation.",
 ["schedules", "histories"], "all interleavings of 2-3 threads with 1-2 operations each over colliding keys, all operation combinations",
 "The tests for this class are single-threaded copies of the unsynchronised cache's tests.",
 [SL, LR], [("exclusive lock for mutators (including get), shared lock for observers", SL)], [("m_mutex", "reader/writer lock", SL)], ["call/return history", "happens-before race monitor"])

# ---------------------------------------------------------------- logger
prop("L01", "Every accepted log is written exactly once, in order, to its own file",
 "Every log that passes the level and is not discarded ends up exactly once, complete and uninterleaved, in the file it was addressed to, after the logger has caught up or been destroyed. Logs made by one thread to one file appear in the order made, and a log that was made after another one returned never precedes it in the same file.",
 ["schedules", "histories"], "all interleavings of up to 3 logging threads and the writer thread, 1-2 files",
 "Tests log from a single thread to a single file and only count lines.",
 [LG], [("per-file buffer filled at the front and drained from the back", "logger::add_log_to_buffer / start_logging"), ("erase of exactly the written tail after relocking", "logger::start_logging")],
 [("m_logFiles", "buffers by file", LG)], ["contents of the log files"])
prop("L02", "Buffered logs are written as soon as the flush size is reached",
 "Whenever a file's buffered logs number at least the flush size (sizes 0 and 1 meaning every log), they are written without any further call being made, whether the size was reached by a new log or by lowering the flush size, and however this interleaves with the writer thread going to sleep. Below the flush size nothing needs to be written before destruction, and nothing is lost.",
 ["schedules", "configurations"], "all interleavings of logging, flush-size changes and the writer thread, flush sizes 0..3",
 "Tests use flush size 1 with a 50 ms sleep, and never change it; a missed wake-up is repaired by the next log.",
 [LG], [("wake-up when the flush size is reached", "logger::add_log_to_buffer"), ("wake-up when the flush size changes", "logger::buffer_flush_size")], [], ["contents of the log files in quiescent states"])
prop("L03", "Destroying a logger always terminates and writes everything still buffered",
 "Destroying a logger returns in every interleaving with its writer thread, and when it has returned every accepted log is in its file, whatever the flush size and however much was buffered. No thread of the logger touches it afterwards.",
 ["schedules"], "all interleavings of destruction with the writer thread in every phase",
 "The tests only use the static instance, which is destroyed after the last test.",
 [LG], [("stop flag plus notification", "logger::~logger"), ("final drain after join", "logger::~logger")], [("m_isLogging", "writer should go on", LG)], ["return of the destructor", "file contents"])
prop("L04", "Exactly the logs at or above the level are recorded, faithfully",
 "A log is recorded if and only if its level is at or above the logger's level at that moment, for every way of logging (plain, printf-style, format-style, stream and their macros), and then exactly once with the caller's thread, level, source and exactly the message those arguments denote, including empty and very long ones. When the level filters a log out, the macros do not evaluate the message arguments.",
 ["inputs", "configurations"], "all pairs of logger level and log level, all entry points, a message alphabet including empty, long and format-significant ones",
 "Tests log at the lowest logger level only, so nothing is ever filtered, and they use two fixed messages.",
 [LG], [("level check", "logger::should_log and the logging macros"), ("message creation", "logger::writef / format / streamer")], [], ["entries seen by a log writer", "side effects of macro arguments"])
prop("L05", "The buffer limit is respected and discards are counted exactly",
 "With a buffer limit set, a file never has more than that many logs waiting to be written; a log is discarded if and only if its file's buffer is full at that moment, each discard adds exactly one to the discard count, and everything not discarded is written. Without a limit nothing is ever discarded, and the limits of different files are independent.",
 ["schedules", "configurations"], "all interleavings of 2 logging threads and the writer with limits 0..3 and flush sizes 1..3",
 "No test sets a buffer limit.",
 [LG], [("size check before insertion", "logger::add_log_to_buffer")], [("m_numDiscardedLogs", "discard count", LG)], ["discard count", "file contents"])
prop("L06", "Rotation bounds file size and keeps exactly the newest files",
 "With rotation on, no log is appended to a file that has reached the rotation size; instead files are renumbered, so that reading from the highest number down to the current file gives the logs in order, with no gap and no duplicate, and exactly the configured number of older files is kept, only the oldest being dropped. Every file that was started empty with headers on begins with the header exactly once, and no other file gets one; with rotation off the file only grows. Once written to, a relative file name goes on meaning the same file when the program changes its working directory.",
 ["histories", "configurations"], "all sequences of log sizes up to a depth, for rotation sizes, limits 0..3, limit changes, header on/off, file names with and without extension, pre-existing files",
 "Rotation is not tested at all.",
 [LG], [("size check before each log", "logger::write_buffer_to_file"), ("renumbering from the highest index down", "logger::rotate_file")], [], ["directory contents"])
prop("L07", "A crash at any point of rotation or writing loses no retained log",
 "If the process dies at any point, including in the middle of a rotation or of a write, the files on disk hold the written logs in order, where only logs beyond the rotation limit may be missing and only the very last line may be incomplete. A logger started afterwards on the same files goes on from there without damaging, reordering or dropping retained logs.",
 ["crash_points", "histories"], "a crash before and inside every file-system operation of every log history up to a depth, followed by recovery",
 "No test kills the process or inspects intermediate directory states.",
 [LG], [("order of removals and renames", "logger::rotate_file"), ("append mode", "logger::open_file_stream")], [], ["directory contents at every file-system call"])
prop("L08", "Transient file-system failures do not lose or duplicate logs",
 "If opening a log file, creating its directory, or a step of a rotation fails a finite number of times while the logger is running, every accepted log is still written exactly once and in order as soon as the failure has passed, and the logger neither terminates the program nor stops serving other files. A write that fails makes no file be rotated, dropped or changed in what it held, and what is logged after the failure is written.",
 ["fault_sequences"], "every placement of up to 2 failures over the file-system calls of every history up to a depth",
 "Nothing in the tests makes a file operation fail.",
 [LG], [("exception stops the batch and keeps what is unwritten", "logger::write_buffer_to_file")], [], ["directory contents after the failures"])
prop("L09", "Logging and configuring a logger may be done concurrently",
 "Any two public operations of a live logger (logging in any form, reading or changing any setting, replacing the writers), called from any threads and from within the writers, are free of data races, deadlock and abnormal termination, and each log is written by one of the writers in force while it was pending.",
 ["schedules"], "all pairs of public operations in all interleavings with the writer thread active",
 "No test changes a setting, and none uses two threads.",
 [LG], [("atomics for settings, a mutex for the writers, a mutex for the buffers", LG)], [], ["happens-before race monitor", "file contents"])

# ---------------------------------------------------------------- scope guards
prop("G01", "Scope guards run each task once, last added first, and swallow exceptions",
 "When a guard whose condition is met is destroyed, every task added to it (at construction, later, or by one of its own tasks while they run) is executed exactly once, each time the most recently added one first; empty tasks are skipped, and a task that throws neither stops the remaining tasks nor lets the exception escape. A guard whose condition is not met executes none of its tasks.",
 ["programs"], "all guard programs up to a size over task kinds (normal, throwing, empty, adding another task) and the three guard kinds",
 "Tests use one task per guard, none of which throws, adds or is empty.",
 [SC], [("stack of tasks drained in the destructor", "on_scope_exit / on_scope_success / on_scope_fail destructors")], [], ["order of task effects"])
prop("G02", "Success and failure guards judge their own scope only",
 "A success guard runs its tasks exactly when its own scope is left without an exception passing through it, and a failure guard exactly when one does. This also holds when the scope as a whole runs while an unrelated exception is in flight or being handled, for instance inside a destructor called during unwinding or inside a catch block.",
 ["programs"], "all nestings up to a depth of scopes, throws, catches and destructors that contain scopes, for every language standard supported (in C++14, which only tells whether any exception is in flight, except scopes entered during unwinding and left by another exception)",
 "Tests only leave a single top-level scope, normally or by one exception.",
 [SC], [("comparison of in-flight exception counts", "on_scope_success / on_scope_fail")], [], ["order of task effects"])

# ---------------------------------------------------------------- stopwatch
prop("W01", "The stopwatch measures exactly the time it was running",
 "After any sequence of operations, the reported time is the sum of the intervals during which the stopwatch was running since the last reset or restart, running or not as the operations dictate, and no query changes it. Redundant starts and stops have no effect, and every unit and part accessor is the corresponding truncation of that time.",
 ["histories"], "every operation sequence up to a depth over a controlled clock with an alphabet of advances",
 "Tests sleep on the real clock and can only assert coarse inequalities on single sequences.",
 [SW], [("accumulated time plus start point", "stopwatch")], [], ["accessors under a controlled clock"])

# ---------------------------------------------------------------- unicode
prop("U01", "Valid Unicode converts losslessly between UTF-8, UTF-16 and UTF-32",
 "For every Unicode scalar value and every sequence of them, each of the six conversions produces exactly the encoding defined by the Unicode standard, appended to what the output already held, so that converting back gives the original. This holds for all string types of an encoding, alone and in any neighbourhood, at any position and for embedded zero characters.",
 ["inputs"], "all 1,112,064 scalar values in all directions, and all sequences up to length 3 over boundary values",
 "The only exhaustive tests need a data file that is not in the repository, so nothing of this is tested here, and they only cover single characters.",
 [UN], [("six transcoders", UN)], [], ["output strings"])
prop("U02", "Ill-formed Unicode becomes U+FFFD and never hides its neighbours",
 "Whatever the input, conversion terminates without reading outside it, its output is well-formed, every well-formed character of the input appears in the output, in order, and each code unit that does not belong to a well-formed character becomes exactly one U+FFFD. Overlong forms, surrogates, values above U+10FFFF, truncated and misplaced units are all ill-formed.",
 ["inputs"], "all byte strings up to length 3, all longer ones over every byte class and boundary up to length 5-6, likewise for 16- and 32-bit units",
 "A few fixed invalid strings at most; the neighbourhoods of an invalid unit are combinatorial.",
 [UN], [("validation branches and fall-through to the replacement character", UN)], [], ["output strings", "memory accesses"])
prop("U03", "All string conversions agree with the transcoders",
 "For each of the five string types, converting to each of the others gives the same result by string, by pointer and size, and by the underlying transcoding, for valid and invalid text; conversion within one encoding copies units unchanged, and conversion to the same type is the identity.",
 ["inputs", "configurations"], "all short unit sequences over boundary alphabets, for all ordered pairs of string types and both call forms",
 "The tests for this need the missing data file.",
 [UN, ST], [("str / wstr / u8str / u16str / u32str overloads", UN)], [], ["output strings"])

# ---------------------------------------------------------------- strings
prop("S01", "Splitting and joining are exact inverses with the documented cases",
 "Splitting by a non-empty separator yields the pieces between its successive non-overlapping occurrences from the left, so that joining them with it restores the input; an empty separator yields the single characters. Splitting at white space or at any of a set of characters yields exactly the maximal non-empty runs of other characters, in order. Joining, with or without a mapping, yields the items in order with the separator between neighbours only.",
 ["inputs"], "all strings and separators up to a length over a small alphabet, narrow and wide",
 "A handful of fixed strings; overlaps, repeats and separators at the ends are combinatorial.",
 [ST], [("search loops", "split / split_any_of / join / map_join")], [], ["returned pieces"])
prop("S02", "Replacement rewrites exactly the non-overlapping matches",
 "Replacing a string rewrites exactly its successive non-overlapping occurrences from the left, never rescanning inserted text, and always terminates; an empty search string inserts at the start, between all characters and at the end. Replacing any of a set of characters rewrites exactly those characters of the input, and an empty set changes nothing.",
 ["inputs"], "all subject, search and replacement strings up to a length over a small alphabet, narrow and wide",
 "A handful of fixed strings; self-overlapping searches and replacements that contain the search string are combinatorial.",
 [ST], [("cursor advance after insertion", "replace / replace_any_of")], [], ["resulting strings"])
prop("S03", "Stripping removes exactly the leading and trailing white space",
 "Stripping on the left, right or both sides removes the longest run of white space at that side and nothing else, for empty, all-space and space-free strings alike, and is idempotent.",
 ["inputs"], "all strings up to a length over all white-space kinds, ordinary and zero characters, narrow and wide",
 "A few fixed strings.",
 [ST], [("index scans", "lstrip / rstrip / strip")], [], ["resulting strings"])
prop("S04", "Case conversion and case-insensitive text operations agree",
 "Converting case maps every character by the locale and nothing else, by character, array and string alike, and the case tests hold exactly when no character of the other case is present. Each case-insensitive operation (equality, prefix, suffix, forward and backward search, containment) gives on any two texts the result that the case-sensitive one gives on their upper-cased forms.",
 ["inputs"], "all single characters, and all pairs of strings up to a length over a mixed-case alphabet, narrow and wide",
 "Tests compare a few fixed words.",
 [ST, CM, LO], [("upper-casing comparator", "is_iequal and the i-functions")], [], ["return values"])
prop("S05", "Binary, octal and hexadecimal text denotes the exact bit pattern",
 "For every integer of every built-in width, signed or unsigned, the binary, octal and hexadecimal texts are the prefix 0b, 0o or 0x followed by the digits of its two's-complement bit pattern of exactly that width in that base, without leading zeros (zero being a single 0).",
 ["inputs"], "all 8- and 16-bit values, and all wider values over a boundary set (all patterns of up to 2 runs of ones, every digit at every place)",
 "A few values per function; sign, width and the odd octal top digit interact.",
 [ST], [("digit loops and top-digit masks", "bin / oct / hex")], [], ["returned text"])
prop("S06", "Value-to-text and text-to-value conversion is deterministic and round-trips",
 "Converting a value to text gives exactly what streaming it would, and converting that text back gives the value for every integer type, boolean and word. Converting any text to a number gives the same determinate result every time, by string and by pointer and size alike: the streamed value if there is one, and zero if the text holds none (including empty and blank text).",
 ["inputs"], "all short texts over an alphabet of digits, signs, blanks and letters, and boundary values of every integer type, narrow and wide",
 "Tests convert a few well-formed numbers.",
 [ST], [("string streams", "str / wstr / str_to / wstr_to")], [], ["return values", "use of uninitialised memory"])

# ---------------------------------------------------------------- containers / iterators
prop("K01", "Comparison and search give the same, first-principles answer everywhere",
 "Equality, prefix, suffix, first and last occurrence of an element or sequence, and containment give for every pair of sequences the answer their definition gives, with left elements always passed to the predicate first. The answer does not depend on the kind of container or iterator, on the call form (iterators, containers, arrays, strings) or on the language standard, and empty sequences are handled as documented.",
 ["inputs", "configurations"], "all pairs of sequences up to a length over a small alphabet, symmetric and asymmetric predicates, random-access, bidirectional and forward containers, C++14 to C++23",
 "Tests use one or two fixed vectors and the default predicate; the shortcut for random-access iterators is only compared with itself.",
 [IT, CO, ST], [("random-access shortcut", "starts_with / ends_with"), ("reverse iterator arithmetic", "rfind / rfind_if / rfind_if_not")], [], ["return values"])
prop("K02", "Slicing follows Python semantics for every pair of bounds",
 "Slicing returns exactly the elements whose index lies between the normalised bounds, where a negative bound counts from the end and any bound outside is clamped, for every container kind and every pair of bounds including the extreme integers; the source is unchanged.",
 ["inputs"], "all containers up to size 5 and all bounds in -8..8 plus extreme integers",
 "A few fixed bounds.",
 [CO], [("bound normalisation", "slice")], [], ["returned container"])
prop("K03", "Filter, map, counting, quantifiers and extrema match their definitions",
 "Filtering keeps exactly the elements the predicate accepts, in order; mapping yields the images in order after what the destination held; sorting and reversing yield the ordered and mirrored permutation; any, all, counts and sums match their definitions also on empty input; and minimum and maximum return the first extremal element itself.",
 ["inputs"], "all sequences up to a length over a small alphabet, all predicates over that alphabet, several container kinds",
 "One or two fixed containers per function.",
 [CO, IT], [("single-pass loops", "container algorithms")], [], ["return values, element identity"])

# ---------------------------------------------------------------- range / compare / value / platform
prop("R01", "Ranges have a total order and an overlap relation that partition pairs",
 "For all ranges, equality and the six operators form one total order by begin, then end, and overlap is symmetric and holds exactly when the begins coincide or each begins before the other ends. For any two well-formed ranges exactly one holds: they overlap, the first lies wholly before the second, or the second wholly before the first.",
 ["inputs"], "all pairs and triples of ranges over a small integer domain including empty and inverted ranges, all element types",
 "A few fixed pairs.",
 [RA], [("comparison members", "range")], [], ["return values"])
prop("V01", "Case-insensitive comparators are consistent orders usable for their lifetime",
 "The case-insensitive less, greater, less-or-equal, greater-or-equal, equal and not-equal comparators are mutually consistent for every pair of characters: one strict weak order on upper-cased characters, its converse, their complements, and its equivalence. A comparator gives these answers for as long as it exists, whatever happens to the locale object it was made from, in both locale configurations.",
 ["inputs", "configurations"], "all pairs (and triples over a subset) of narrow and wide characters, several locales, both locale configurations, comparator outliving its locale object",
 "A few fixed letters with the default locale, which never dies.",
 [CM, LO], [("facet held by the comparator", "is_iequal and friends")], [], ["return values", "memory errors"])
prop("V02", "Minimum, maximum and absolute value obey their definitions",
 "The minimum and maximum of two values return a reference to one of the arguments, the left one whenever neither orders before the other, by operator or by predicate; the absolute value is the non-negative value of the same magnitude for every representable case of every signed width, and truth tests agree with conversion to boolean.",
 ["inputs"], "all pairs over small domains and all 8- and 16-bit values, boundary values of wider types",
 "A few fixed values.",
 [VA, CM], [("comparison order", "min / max / abs")], [], ["return values and identity"])
prop("V03", "The file name is what follows the last path separator",
 "The file name of a path is the part after its last slash or backslash, as a pointer into that same string: the whole string without any separator, and the empty string after a trailing one.",
 ["inputs"], "all strings up to length 8 over separators, dots, letters and non-ASCII bytes",
 "Three fixed paths.",
 [PF], [("scan for separators", "file_name")], [], ["returned pointer"])

prop("L10", "Default log lines and headers have exactly their documented columns",
 "A line written by the default log writer consists of the local date and time with exactly six digits of microseconds, the thread id, the level's title, the file name without its directories, the line, the function and the unaltered message, separated by bars; short values are padded on their documented side, file and function names are cut to their column and no other value is ever cut or merged with its neighbour. The default header has the same columns in the same places. Neither depends on what other writers left in the stream's alignment or fill. Hidden source information leaves out its three columns. Every level has its own names, and unknown levels are named as such.",
 ["inputs", "histories"], "boundary times in seven time zones with all fractions at digit boundaries, all level values, name lengths, numbers around powers of ten, short messages over special characters, all orders of writers on one stream",
 "Tests replace the default writers or look only at the number of lines; a fraction below 100 ms, a long name, a negative line or a stream left right-aligned is never tried.",
 [LG, PF], [("column layout", "logger::default_log_writer / logger::default_header_writer"), ("names of levels", "log_level_to_*")], [], ["text written to the stream"])
prop("L11", "A logger is configured by its macros and setters, and its getters tell how",
 "A new logger has the configuration its macros give, which without macros is the documented default; every setter changes exactly its own setting, at once, and returns the logger; every getter returns what was set last; and what the getters say is how the logger behaves: a logger that is set to what the getters of a new one say writes, rotates, buffers and discards exactly like it. The logging macros pass on the place of the call, what the source macro says, or nothing at all when source information is hidden. This holds in every supported language standard.",
 ["histories", "configurations"], "all sequences of three of 24 setter calls and all scripts of up to four calls, in seven builds with different macros and language standards",
 "Tests are built with one configuration and set each option once; a macro that is ignored or a setter that writes to a neighbour changes nothing there.",
 [LG], [("initial values from macros", "logger data members"), ("setters and getters", "logger"), ("source passed by macros", "PLUTO_LOGGER_SOURCE_INFO_ARGS")], [], ["values of all getters", "files written by two loggers", "entry received by the writer"])
prop("V04", "Times are broken down as the calendar and time zone say; ids name the asker",
 "gm_time gives the Gregorian calendar date, time, weekday and day of the year of every second counted from 1970 in UTC; local_time gives those of the time zone in force at the call, including its offset and daylight saving time on both sides of every transition; both leave their argument and each other's results alone. The process and thread ids are always those of the process and thread that asks, also in a child process or a new thread.",
 ["inputs", "histories"], "every day of eight centuries, every hour and transition of decades in seven time zones, all pairs of calls under two zones, all programs of up to four questions in threads and child processes",
 "Tests compare one current time with the same C function they are built on, in the time zone of the machine.",
 [PF], [("calendar conversion", "local_time / gm_time"), ("system ids", "process_id / thread_id")], [], ["fields of the returned structure", "returned ids"])

# ---------------------------------------------------------------- whole-program
prop("P01", "The shared pool and logger are single objects that finish at exit",
 "All threads of a program that use the shared thread pool or the shared logger, directly or through the logging macros, are given one and the same fully constructed object, even when their first uses race. The shared pool has one worker per hardware thread, and at normal termination of the program it ends like any destroyed pool, honouring its stop action; the shared logger has then written every accepted log exactly once. Termination never hangs.",
 ["schedules", "histories"], "all interleavings of 1 to 3 first users with each other, the workers, the log writer and program exit",
 "Tests use the shared instances from one thread at a time, long after their construction, and cannot look at what happens when the program ends.",
 [TP, LG], [("function-local static instance", "thread_pool::instance / logger::instance"), ("macros going through the shared instance", "PLUTO_LOG_WRITE and friends")], [], ["address of the instances", "files and task effects after program exit"])

prop("P02", "Free functions and distinct objects may be used from any threads",
 "The functions and objects that are not meant for synchronisation have no hidden shared state: any two calls of free functions (strings and numbers, Unicode, containers, comparison, locales, times, file names) made from different threads, on their own or on shared constant arguments, and any use of distinct objects or of constant operations on a shared one, are free of data races and give what each gives alone, also when they are the first use in the program. Times are broken down into a caller's own structure, the global locale is not changed, and live threads have distinct, stable ids.",
 ["schedules", "inputs"], "all pairs of 42 operations in two threads, all interleavings of their visible steps, and races on every one",
 "Every test of these functions runs in one thread; a buffer, table or C library function with hidden static state gives the right answer there and wrong answers or undefined behaviour when two threads meet in it.",
 [ST, UN, CO, CM, LO, PF, VA, RA, LR, SW, SC], [("re-entrant calendar functions", "local_time / gm_time"), ("function-local static locales", "c_locale / system_locale / default_locale"), ("id of the calling thread", "thread_id")], [], ["results of both calls", "memory accesses of both threads"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
