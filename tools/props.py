"""Texts of the properties; tools/gen.py turns them into properties.jsonl and MANIFEST.json."""

AI = "path-sensitive abstract interpretation of the LLVM IR (custom engine, sa/)"
NOTE = ("Every path of every exported function, callback and thread body of the current source is covered by a sound-by-construction abstract "
        "interpreter up to the assumptions listed in the evidence (no aliasing of distinct pointer parameters, library models, one call at a time). ")

PROPS = [
dict(id="P01", title="Whatever an operation acquires it releases, on success and on failure",
 statement="When any library operation returns, every heap block, file stream and directory handle it acquired has been released, or is handed to the caller, or is owned by an object the caller can still dispose of. This holds on every path, including those on which an allocation, an open, a write or another internal step fails, and disposing of an object releases everything that object owns.",
 over=["inputs", "fault_sequences"], quant="all arguments of all exported functions, callbacks and thread bodies, and every combination of failing allocations and library calls",
 why="Tests run with memory and files available; the leaking paths are the ones behind a failed allocation, a failed open, a duplicate key, an early return.",
 files=["src/data/*.c", "src/file/*.c", "src/log/*.c", "src/mem/*.c", "src/ring/*.c", "src/thread/*.c", "src/time/*.c", "src/net/*.c"],
 mech=[("constructor clean-up paths", "src/data/hashmap.c hashmap_create, src/ring/msg_queue_handler.c msg_queue_handler_create, src/thread/thpool.c thpool_init, src/file/ini_parser.c ini_parser_parse_file"),
       ("destructors", "*_destroy, *_free, *_deinit functions of each module"),
       ("temporary buffers and streams", "src/file/file_util.c, src/file/ini_parser.c ini_parser_save/dump, src/mem/str_params.c")],
 tech=AI + ": ownership of heap, FILE and DIR resources at every return",
 note=NOTE + "A resource is 'kept' when memory visible to the caller still reaches it."),
dict(id="P02", title="Released objects are never touched, released again or left reachable",
 statement="No library operation reads, writes, passes on or releases again an object it has already released, and none releases anything but the start of a heap object. When an operation returns, neither its result nor any memory the caller can see still points to an object released during the call or to a local of the operation.",
 over=["inputs", "histories"], quant="all arguments, all shapes of the data structures reachable from them, all failure outcomes",
 why="A use after release mostly reads the old bytes and passes; tests see it only with particular removal orders and allocators.",
 files=["src/data/hashmap.c", "src/data/list.c", "src/file/ini_parser.c", "src/mem/*.c", "src/ring/*.c", "src/log/*.c", "src/thread/thpool.c"],
 mech=[("removal and clear loops fetch the successor before releasing", "hashmap_clear_unsafe, list_free, list_remove, str_params_destroy"),
       ("pointers are reset after release", "ini_parser_delete_section, file_logger_deinit, xlog deinit")],
 tech=AI + ": object life-cycle typestate", note=NOTE),
dict(id="P03", title="Memory is released through the allocator it came from, in every build",
 statement="In the plain build and in the memory-tracking build alike, each block the library allocates is released through the same allocator family it was obtained from, whichever module or callback releases it. Memory handed over to the caller comes from the family that the caller's own release call uses in that build.",
 over=["configurations", "inputs"], quant="both build variants, all paths of all exported functions and release callbacks",
 why="The default build maps both families to the same functions, so a mix-up shows only in the tracking build and only for the block concerned.",
 files=["inc/mem/mem_debug.h", "src/mem/strings.c", "src/mem/str_params.c", "src/mem/allocator.c", "src/mem/allocation_tracker.c", "src/data/hashmap.c", "src/ring/*.c"],
 mech=[("allocation macros", "inc/mem/mem_debug.h"), ("tracking allocator", "src/mem/allocator.c"), ("release callbacks of maps and lists", "src/mem/str_params.c, src/data/hashmap.c")],
 tech=AI + ": allocator family of each block tracked to its release; per-file family census of the resolved calls", note=NOTE + "The raw allocator modules themselves are exempt by name."),
dict(id="P04", title="No operation reads or writes outside the object it works on",
 statement="Given arguments the documentation allows, no library operation reads or writes a byte outside the object its pointer leads into: not before or after a local array, a structure, a global table, a heap block, the caller's buffer of the stated size, or a text and its terminator. This holds for every text length, buffer size, number, level and table index, also when a result does not fit, when a size computation would wrap around, and for the sizes handed to the C library. String constants are never written.",
 over=["inputs", "configurations"], quant="all arguments within the documented contract (lengths, sizes, indexes, texts), all states of the objects the operations work on, both build variants",
 why="An access one byte too far only shows for one length at the edge of one buffer, and mostly hits padding; tests use a few short texts.",
 files=["src/**/*.c", "inc/**/*.h"],
 mech=[("fixed buffers of the loggers and of the time texts", "src/log/xlog.c, src/log/file_logger.c, src/time/time_util.c"), ("bounded copies", "src/mem/strings.c, src/file/ini_reader.c, src/file/file_util.c"),
       ("sizes of heap blocks", "src/mem/allocator.c, src/mem/stringbuilder.c, src/ring/*.c, src/data/*.c"), ("base64, url and hex conversion", "src/data/base64.c, src/net/url_encoder_decoder.c, src/mem/strings.c")],
 tech=AI + ": relational bounds of every access, with the lengths of texts tracked through copies and loops", note=NOTE + "The content of an mplite pool is not modelled (its block sizes are unconstrained)."),
dict(id="P05", title="A NULL result or argument is handled before it is dereferenced",
 statement="Whenever an allocation, open, lookup or nested operation can deliver NULL, or an operation accepts NULL for an argument, no path goes on to dereference that NULL: the operation reports failure or does without it. This holds at each allocation and library call separately, failed alone or in combination.",
 over=["inputs", "fault_sequences"], quant="every failing allocation / open / lookup on every path of every exported function, callback and thread body",
 why="Tests run with memory available; no test makes the k-th allocation fail.",
 files=["src/data/*.c", "src/file/*.c", "src/log/*.c", "src/mem/*.c", "src/ring/*.c", "src/thread/*.c"],
 mech=[("allocation checks in constructors", "hashmap_create, msg_queue_create, thpool_init, ini_parser_create, stringbuilder_create"), ("NULL-tolerant destructors", "list_free, ini_parser_destroy, msg_queue_destroy")],
 tech=AI + ": nullness of every dereferenced pointer with all failures forked", note=NOTE + "Arguments the code never tests for NULL are taken as non-NULL by contract."),
dict(id="P06", title="Locks are paired on every path",
 statement="Every mutex, read-write lock and user-supplied lock callback that an operation acquires is released exactly once before the operation returns, on every path including early returns and failures. No operation acquires a lock it already holds, releases one it does not hold, waits on a condition without holding its mutex, or destroys a lock while holding it.",
 over=["schedules", "inputs", "fault_sequences"], quant="all paths of all exported functions, callbacks and thread bodies, with and without configured lock callbacks",
 why="An unbalanced lock on a rare path blocks only the next caller; single-threaded tests that never take that path (or never configure a lock) see nothing.",
 files=["src/data/hashmap.c", "src/mem/mplite.c", "src/mem/allocation_tracker.c", "src/ring/autocover_buffer.c", "src/thread/thpool.c", "src/log/xlog.c", "src/time/time_util.c"],
 mech=[("lock callbacks", "hashmap_lock/unlock helpers, autocover lock function, mplite acquire/release"), ("thread pool mutexes", "src/thread/thpool.c"), ("time cache read-write lock", "src/time/time_util.c")],
 tech=AI + ": lock-state typestate along every path", note=NOTE + "The portable lock wrappers are the primitives and exempt."),
dict(id="P07", title="Shared state is touched only while its lock is held",
 statement="While several threads use one object, every access to the state they share happens with the lock that guards it held (for writing, where there is a read lock), and an operation that reads state and acts on it does both in one critical section. In particular: the queue of a thread pool (front, rear, length) under the queue's mutex, its counters of running and busy workers are changed under the pool's mutex, the value of its binary semaphore under the semaphore's mutex; buckets, entries and size of a hashmap between the acquire and release callbacks it was given (hashmap_size only reads one word), the free lists and statistics of an mplite pool (except when printed) and the ring of an auto-cover buffer likewise; the time caches under their own read-write lock; the configuration of xlog is changed, and its redirected stream, tag, callback, formats and the console and callback output are used, under xlog's mutex; the message cache and queue of a file logger between its lock callbacks. Where no lock is configured, or the library's global initialisation has not run, there is one thread only.",
 over=["schedules"], quant="all paths of all exported functions, callbacks and thread bodies of these modules, with and without configured locks",
 why="A single access outside the lock is a race that shows only under an unlucky interleaving; the tests hardly use these objects from several threads.",
 files=["src/thread/thpool.c", "src/data/hashmap.c", "src/mem/mplite.c", "src/ring/autocover_buffer.c", "src/time/time_util.c", "src/log/xlog.c", "src/log/file_logger.c"],
 mech=[("job queue and counters", "src/thread/thpool.c jobqueue_push, jobqueue_pull, thread_do"), ("lock callbacks", "src/data/hashmap.c, src/mem/mplite.c, src/ring/autocover_buffer.c, src/log/file_logger.c"), ("read-write lock", "src/time/time_util.c get_time_str"), ("global mutex", "src/log/xlog.c")],
 tech=AI + ": lockset at every access to a guarded member, attributed through the address computation; table of guarded members in sa/p_lock.py", note=NOTE + "Constructors and destructors are exempt, and thpool_wait's look at the queue length, the unlocked level test of xlog and its getters. The lock-free queues are the subject of P10."),
dict(id="P18", title="Locks nest in one order and nobody waits while holding one",
 statement="Over all operations of the library, if a lock of one kind is taken while one of another kind is held, then nowhere a lock of the first kind is taken, directly or through other modules, while one of the second kind is held; no lock is taken while another of the same kind is held. No thread joins another, waits for a semaphore, or waits for a condition of another lock while it holds a lock. So the library's own locks cannot deadlock.",
 over=["schedules"], quant="all paths of all exported functions, callbacks and thread bodies",
 why="A lock-order inversion blocks only when two threads meet at exactly the wrong points; tests never do.",
 files=["src/thread/thpool.c", "src/log/xlog.c", "src/time/time_util.c", "src/data/hashmap.c", "src/mem/mplite.c", "src/ring/*.c", "src/thread/portable_thread_posix.c"],
 mech=[("queue mutex, then semaphore mutex", "src/thread/thpool.c jobqueue_push, jobqueue_pull"), ("log mutex, then time cache", "src/log/xlog.c __xlog_internal_print, src/time/time_util.c")],
 tech=AI + ": lock-order graph over kinds of locks must be acyclic; no blocking call with a non-empty lockset", note=NOTE + "Locks that a user's callbacks take are not known to the library."),
dict(id="P16", title="No local variable is read before it is written",
 statement="On every path, including those on which an input is malformed, a read is short or a callee fails, no operation uses the value of a local variable, local buffer or out-parameter that has not been written on that path.",
 over=["inputs", "fault_sequences"], quant="all paths of all exported functions, callbacks and thread bodies",
 why="Stack garbage is often zero in tests; the unset path needs a failing callee or unusual input.",
 files=["src/**/*.c"], mech=[("initialisation of locals and out-parameters", "all modules; e.g. src/file/ini_reader.c, src/log/xlog.c, src/time/time_util.c")],
 tech=AI + ": initialisation of every byte of every local", note=NOTE),
dict(id="P08", title="Accepted messages and jobs run exactly once; workers never sleep on work",
 statement="msg_queue_handler_push and fixed_msg_queue_handler_push queue the caller's message and then, exactly when it was queued, post the worker's semaphore once; a refused message is reported and wakes nobody, and a handler whose worker has ended refuses. The worker of a handler hands each message it takes from the queue to the user's callback exactly once, with the user's data, before it does anything else with the queue; it goes to sleep only when the message it was woken for has been taken (an incomplete message is tried again, a too small buffer is replaced by one at least as large as the message); messages pushed before fixed_msg_queue_handler_clear are discarded, messages pushed after it are delivered. It ends only when told to (or its callback or an allocation failed), reports being ready first and its end last, each once, and refuses further messages from then on. thpool_add_work puts the job behind the others and wakes a worker; it refuses only a NULL function or for lack of memory, leaving the queue as it was. A pool worker runs each job once, in the order added, with its argument, releases it, and sleeps exactly when the queue is empty; taking a job while others remain wakes another worker; the last worker that becomes idle wakes everyone who waits for that. thpool_wait returns only after having seen, under the lock, no queued job and no busy worker.",
 over=["inputs", "schedules", "histories"], quant="all message sizes below 2^31, all outcomes of the queue operations and of the callback, all failing allocations; pool queues of 0 to 3 jobs",
 why="A lost wake-up or a job run twice needs a particular outcome sequence (too small buffer, incomplete message, shutdown while asleep) that timing-based tests hit only by luck.",
 files=["src/ring/msg_queue_handler.c", "src/ring/fixed_msg_queue_handler.c", "src/thread/thpool.c"],
 mech=[("post after push", "src/ring/msg_queue_handler.c msg_queue_handler_push; src/ring/fixed_msg_queue_handler.c fixed_msg_queue_handler_push"), ("retry without sleeping", "src/ring/msg_queue_handler.c thread_worker_handle_msg"),
       ("tokens", "src/ring/fixed_msg_queue_handler.c token_counter, min_valid_token"), ("binary semaphore re-posted while jobs remain", "src/thread/thpool.c jobqueue_push, jobqueue_pull, bsem_post"), ("idle broadcast", "src/thread/thpool.c thread_do, thpool_wait")],
 tech="abstract interpretation with a typestate of the wake-up protocol (custom engine, sa/p_work.py)",
 note="Each thread's code is analysed as a sequence against all states other threads may leave; interleavings inside the queue itself are the subject of P10."),
dict(id="P09", title="Workers start in a complete object and are gone before it is released",
 statement="When msg_queue_handler_create, fixed_msg_queue_handler_create or thpool_init start a thread, everything it uses is in place: the queue, the semaphore (at zero), the caller's callbacks and user data, the exit flag cleared; the pool's locks, conditions, empty job queue, counters at zero and keep-alive flag. Creation either succeeds completely (one worker; the pool exactly the requested number of distinct workers, all of which have started when thpool_init returns) or returns NULL with no worker left running; it fails only for missing arguments or failing resources. The destroy functions of the handlers tell the worker to end, then wake it, then join it, and only then release its semaphore, queue and handler, and reset the caller's handle. thpool_destroy tells the workers to end, keeps waking them until none is running, and releases jobs, locks, worker data and pool only after having seen that none is running and having passed the lock under which the last one was counted out. A pool worker is counted out exactly once, under the lock, and does not touch the pool afterwards.",
 over=["schedules", "fault_sequences", "histories"], quant="all failing allocations, semaphores and thread creations; pools of 0 to 3 workers and 0 to 2 waiting jobs; any number of running workers seen at each look",
 why="A worker that starts too early or is released too early fails only under unlucky scheduling or failing resources, which tests do not produce.",
 files=["src/ring/msg_queue_handler.c", "src/ring/fixed_msg_queue_handler.c", "src/thread/thpool.c", "src/thread/portable_thread_posix.c"],
 mech=[("set flag, post, join, release", "src/ring/msg_queue_handler.c msg_queue_handler_destroy; src/ring/fixed_msg_queue_handler.c fixed_msg_queue_handler_destroy"), ("thread created last", "msg_queue_handler_create, fixed_msg_queue_handler_create"),
       ("keep-alive flag, count of running workers", "src/thread/thpool.c thpool_init, thpool_destroy, thread_do")],
 tech="abstract interpretation with a typestate of start-up and shutdown (custom engine, sa/p_work.py)",
 note="Destroying a handler from inside its own callback is outside the property (the worker cannot join itself)."),
dict(id="P10", title="Rings and queues stay intact with one producer and one consumer thread",
 statement="With one thread writing or pushing and one thread reading, peeking, discarding or popping, at any interleaving: a producer operation never changes the read position or bytes not yet read, a consumer operation never changes the write position or the stored bytes; each ring operation publishes its own position in a single step, after the bytes have been copied, advanced by exactly the bytes moved; a consumer never uses bytes beyond what the producer has published (a queue's pop never delivers a message whose payload is not complete), a producer never uses space the consumer has not released; an operation that could be carried out given the state at its start is not refused; and no operation aborts the process.",
 over=["schedules", "inputs", "histories"], quant="every interleaving of one producer and one consumer under sequential consistency, all ring sizes, positions and lengths",
 why="The window between copying and publishing is a few instructions; stress tests almost never hit it, and positions that wrap at 2^32 or at the end of the memory are rare.",
 files=["src/ring/ringbuffer.c", "src/ring/ring_buf.c", "src/ring/msg_queue.c", "src/ring/fixed_msg_queue.c"],
 mech=[("copy first, publish index last", "src/ring/ringbuffer.c RingBuffer_write, RingBuffer_read_internal; src/ring/ring_buf.c ring_buf_write, internal_ring_buf_read"),
       ("header and payload availability test", "src/ring/msg_queue.c msg_queue_pop (MSG_Q_CODE_AGAIN)")],
 tech="abstract interpretation of each operation under modelled interference of the other thread (rely/guarantee), custom engine (sa/p_spsc.py)",
 note="All interleavings at the granularity of index reads, sequential consistency; weak memory ordering is not modelled."),
dict(id="P11", title="Ring buffers deliver exactly the bytes written, in order, without loss",
 statement="For every size and every history of operations, including positions that have passed 2^32: RingBuffer_write stores min(length, free) bytes, RingBuffer_read and RingBuffer_peek deliver and RingBuffer_discard skips min(length, readable) bytes and return that number; ring_buf_write/read/peek/discard move all bytes or none (and return 0); bytes go to and come from consecutive ring positions, so that what is read is what was written in the same order; peek and queries change nothing; available_read/available_write/is_empty/is_full report exactly the bytes held and the space left; creation yields an empty ring that fits its memory (RingBuffer: a power of two at least the requested size, or at most the given memory). The auto-cover buffer accepts every write up to its capacity by dropping just the oldest bytes needed, reports for a position the bytes from there to the newest, delivers from exactly that position and consumes up to its end, refuses (negative result, nothing changed) positions or amounts that are not held and writes longer than its capacity. None of these operations aborts the process.",
 over=["inputs", "histories"], quant="all ring sizes (RingBuffer up to 2^31, auto-cover up to 2^30, ring_buf up to 2^62), all positions, all lengths",
 why="Tests use a few sizes and short histories; wrap-around of positions at 2^32 or lengths near the limits are never reached by running.",
 files=["src/ring/ringbuffer.c", "src/ring/ring_buf.c", "src/ring/autocover_buffer.c", "inc/ring/ringbuffer.h", "inc/ring/ring_buf.h", "inc/ring/autocover_buffer.h"],
 mech=[("free-running positions masked by size-1", "src/ring/ringbuffer.c RingBuffer_write, RingBuffer_read_internal"), ("offsets modulo size, one byte kept free", "src/ring/ring_buf.c"),
       ("discard before overwrite, position lookup", "src/ring/autocover_buffer.c auto_cover_buf_write, auto_cover_buf_internal_read"), ("rounding to a power of two", "src/ring/ringbuffer.c pri_roundup_pow_of_two")],
 state=[("__ring_buffer_t.in/out/size", "write position, read position (mod 2^32), power-of-two capacity", "src/ring/ringbuffer.c")],
 tech="abstract interpretation of each operation against its specification from every state satisfying the invariant (custom engine, sa/p_ring.py, sa/p_queue.py)",
 note="Inductive over histories: the invariant is assumed on entry and shown on exit. Contents are tracked as placement of block copies."),
dict(id="P12", title="Message queues accept and deliver whole messages or leave things unchanged",
 statement="msg_queue_push accepts a message exactly when its arguments are valid, its size is not 0 and 4+size bytes are free, and then stores the size followed by the payload at consecutive positions; otherwise it returns an error and changes nothing. msg_queue_pop delivers exactly the oldest message and its true size through *msg_size_p when it is complete and fits the caller's memory; when the caller's memory is too small it returns MSG_Q_CODE_BUF_NOT_ENOUGH with the size needed, otherwise an error, and the queue is unchanged. msg_queue_next_msg_size returns the size of the oldest message, 0 without one, and changes nothing; the available_* queries return the bytes held and free. fixed_msg_queue_push/pop move exactly one message or return false and change nothing, exactly when there is no room or no message; amounts, is_empty and is_full agree with that. clear empties; create yields an empty queue inside its memory; destroy resets the caller's handle. No operation aborts the process.",
 over=["inputs", "histories"], quant="all queue sizes, all positions including wrapped ones, all message sizes and buffer sizes",
 why="Loss, truncation or a torn header happens only for particular fill levels and wrap positions which tests sample a few of.",
 files=["src/ring/msg_queue.c", "src/ring/fixed_msg_queue.c", "inc/ring/msg_queue.h", "inc/ring/fixed_msg_queue.h"],
 mech=[("room test before two writes", "src/ring/msg_queue.c msg_queue_push"), ("peek, test, discard, read", "src/ring/msg_queue.c msg_queue_pop"), ("whole-message tests", "src/ring/fixed_msg_queue.c")],
 tech="abstract interpretation of each operation against its specification from every state satisfying the invariant (custom engine, sa/p_queue.py)",
 note="Inductive over histories; the queue invariant (only whole messages inside) follows from push and pop being all or nothing."),
dict(id="P13", title="Lists, maps and arrays hold exactly what was put into them",
 statement="A list is the sequence its operations describe: append, prepend and insert-after place a non-NULL element where they say, remove takes out the first equal element, clear and free drop all; length, front, back, contains and is-empty agree with that sequence. A map holds one value per key (keys equal by hash and equality callback): put adds or replaces and returns the replaced value, get returns the stored value or NULL, remove takes out exactly that entry and returns its value, and size is the number of entries, also across growth of the bucket array. An array returns at index i the i-th appended element, also after it has grown. The release callbacks configured for a container are called exactly once for each element (key, value) it drops and for nothing it keeps. An operation that fails for lack of memory says so (false, or ENOMEM for a map) and leaves the container unchanged.",
 over=["inputs", "histories", "fault_sequences"], quant="all contents, all answers of the hash and equality callbacks, every failing allocation; list lengths 0-3, map shapes up to 4 buckets and chains of 3, any array length",
 why="Collisions, growth while chained, equal hashes of different keys, removal of the last element and failed allocations are rare in tests and corrupt the structure silently.",
 files=["src/data/list.c", "src/data/hashmap.c", "src/data/array.c"],
 mech=[("node unlinking and tail upkeep", "src/data/list.c list_remove, list_free_node"), ("rehash and chain walk", "src/data/hashmap.c expandIfNecessary, hashmap_put, hashmap_remove"), ("storage growth", "src/data/array.c grow")],
 tech="abstract interpretation of each operation from every entry shape, against a specification of the resulting shape (sa/p_cont.py)",
 note="Lists longer than 3 and chains longer than 3 are covered only insofar as the operations treat them alike; the secondary hash is evaluated by constant propagation for representative callback results."),
dict(id="P14", title="Iteration visits everything once and stops when told to",
 statement="Iterating a list, a map or a directory hands every element (for a directory: every entry except . and ..) to the callback exactly once, with the caller's context and, for lists, in order. As soon as the callback asks to stop, it is not called again. list_foreach returns the node at which it stopped, or NULL after a complete iteration. Iterating a directory returns non-zero exactly when it could not visit all entries although the handler did not ask to stop.",
 over=["inputs", "fault_sequences"], quant="all contents, all callback answers, all failing stat and opendir calls; list and map shapes as for P13, directories of any length",
 why="Tests iterate to the end; a callback stopping in the middle of a bucket, unusual names and entries that cannot be examined are not tried.",
 files=["src/data/list.c", "src/data/hashmap.c", "src/file/file_iterator.c"],
 mech=[("foreach loops", "src/data/list.c list_foreach, src/data/hashmap.c hashmap_foreach"), ("directory walk", "src/file/file_iterator.c file_iterator_foreach")],
 tech="abstract interpretation with a typestate of the iteration (sa/p_cont.py, sa/p_iter.py)",
 note=NOTE),
dict(id="P24", title="The ini parser is an ordered map of sections and keys",
 statement="After any sequence of operations an ini_parser holds exactly the sections and keys that were put (or read from text) and not deleted, each in the order of its first appearance, names compared without regard to case, with the value put last. put_string replaces the value of an existing key and otherwise appends the key to its section (the section, if new, behind the others); a failed put leaves every existing entry as it was. get_string hands out the complete value with its terminator, NO_ENOUGH_MEMORY if the buffer is too small for that, NOT_FOUND_SECTION_KEY if there is no such entry; has_section and has_section_key answer accordingly. Deleting a key or section removes and releases exactly that, and nothing released is used later. foreach hands every entry to the handler in order with the caller's data until the handler returns non-zero. dump, dump_to_mem and save produce every section as '[name]', then 'key = value' for each key, lines ended by CRLF and an empty line after each section, and report success only if the text is complete (and, for save, was written completely). The typed getters succeed exactly for values that are entirely a number (decimal, 0x, 0) that fits, or for get_bool also true/false/yes/no, and otherwise leave the caller's variable alone. A NULL handle, section or key is refused. Names up to 63 and values up to 255 characters.",
 over=["inputs", "histories", "fault_sequences"], quant="all names, values and buffer sizes; trees of 0-2 sections with 0-2 keys, any remembered section, any matching entry; every failing allocation, append and write",
 why="The remembered section, equal keys in different sections, exact buffer sizes and failures in the middle of a dump are combinations the tests do not try.",
 files=["src/file/ini_parser.c", "src/data/list.c"],
 mech=[("look-up with a remembered section", "src/file/ini_parser.c search_target_section"), ("two-level lists", "src/file/ini_parser.c ini_parser_put_string, ini_parser_delete_section"), ("dump through the string builder", "src/file/ini_parser.c pri_dump_ini")],
 tech="abstract interpretation of each operation from every entry shape, string copies and appended text as events (sa/p_ini.py)",
 note="How text is split into lines, names and values (ini_reader) is not covered, only that each entry read is stored. Larger trees are covered insofar as the operations treat further entries alike. Numbers beyond long long saturate in strtoll and are not considered."),
dict(id="P15", title="String helpers and the string builder produce exactly the promised text",
 statement="strlcpy and strlcat write only inside the size they are given, put as much of the source in place as fits in front of the terminator, always terminate (if there is room for at least the terminator and, for strlcat, the old text ends inside the buffer) and return the length of the text they tried to create. strreplace returns a new string in which every occurrence of a non-empty pattern, from left to right without overlap, is replaced, large enough for its text and terminator, and a copy if the pattern is empty. strtrim removes all leading and trailing characters of the set, nothing else, and stays inside the text. strsplit records the tokens one after the other, at most as many as there is room for, all of them if there is room, and reports their number. str_char2hex writes the next byte as three characters each time, inside its capacity, every byte if the capacity allows, and returns the length of the terminated text. A string builder holds, terminated and inside its buffer, exactly the text appended since it was created or cleared: an append that succeeds adds exactly the character, text, first len characters of the text or formatted text at the end; one that fails leaves the text as it was; nothing fails unless an allocation or the formatting failed or there was nothing to append; stringbuilder_appendnstr reads no more than len characters.",
 over=["inputs", "histories", "fault_sequences"], quant="all texts and sizes (below 2^40), any builder state, 0 to 3 occurrences of a pattern, any set and any number of tokens, every failing allocation and formatting",
 why="Exact-fit and one-short buffers, sources longer than the buffer, growth at the last byte and failures in the middle of an append are boundaries that samples miss.",
 files=["src/mem/strings.c", "src/mem/stringbuilder.c"],
 mech=[("bounded copies", "src/mem/strings.c strlcpy, strlcat"), ("two-pass replacement", "src/mem/strings.c strreplace"), ("growth in powers of two", "src/mem/stringbuilder.c sb_ensure_space")],
 tech="abstract interpretation with a ghost counter of the bytes in place and the string ends (sa/p_str.py)",
 note="Which characters strstr, strchr and strtok_r find is the C library's business; the counting of UTF-8 code points is not covered."),
dict(id="P26", title="Parameter strings are a map from keys to texts",
 statement="str_params_create_str splits its text at the delimiter of the object (the first character given, or a semicolon) and puts, for every token that does not start with '=', the part in front of its first '=' (the whole token if there is none) as key and everything behind that '=' as value, later tokens replacing earlier ones; it returns NULL, with everything it obtained released, only if memory ran out, and never an object that lacks a pair. str_params_add_str returns 0 exactly if the map now holds a copy of key and value, and otherwise a negative error with the map as it was; what the map took is not released, what it did not take is. str_params_add_int, _long, _double and _float store the complete decimal text of the number (%ld, %.10f), never a shortened one. str_params_get_str hands out the complete value with its terminator, -ENOMEM if the buffer is too small for that, -ENOENT if there is no such key, and writes only inside the buffer. The number getters succeed exactly if the whole, non-empty value is a number (and, for get_int, fits an int), and otherwise return a negative error (-ENOENT for a missing key) and leave the caller's variable alone. has_key answers accordingly; del removes exactly that key. str_params_to_str returns a new text 'key=value' of all entries joined by the delimiter, the empty text for an empty map, or NULL only if memory ran out or formatting failed. destroy releases the map and the object.",
 over=["inputs", "histories", "fault_sequences"], quant="all texts, keys, values, buffer sizes and numbers; any number of tokens; every failing allocation, formatting and put",
 why="Failing allocations in the middle of a put or join, values exactly as long as the buffer, numbers at the limits and tokens with several or misplaced equals signs are not tried by the tests.",
 files=["src/mem/str_params.c", "src/data/hashmap.c"],
 mech=[("ownership handed to the map", "src/mem/str_params.c str_params_add_str, str_params_create_str"), ("numbers through text", "src/mem/str_params.c str_params_add_double, str_params_get_int"), ("joining", "src/mem/str_params.c combine_strings")],
 tech="abstract interpretation with the map by contract and an origin trace of every character (sa/p_par.py)",
 note="Numbers beyond the range of long or double saturate in strtol and strtod and are not considered; str_params_dump only logs."),
dict(id="P17", title="File helpers and the file logger report what they really did",
 statement="file_util_read and file_util_write go on from where the last transfer stopped until everything was moved, the end or an error is met, never ask for more than what is left, and return exactly the number of bytes moved. file_util_mkdirs makes sure, in order, that every beginning of the path that ends in '/' or '\\' exists; it returns 0 exactly if none of them had to be given up and stops at the first it cannot make. file_util_get_size_by_path returns the file's size or a negative error; file_util_get_size_by_fs too, and leaves the file at its beginning. file_util_read_all returns 0 exactly if it hands over a block of its own holding the whole file with a terminator behind it, and its length; otherwise it hands over NULL and an error; it refuses a non-empty file of up to INT_MAX bytes only if something failed. file_util_read_txt hands every line that is not blank to the handler exactly once, unchanged at its front, with the number of the line (from 0) and the user's data, stops at the first answer other than 0 and returns it, else 0 at the end of the file; -1 if the file cannot be opened; files are closed again. file_logger_log gives the queue exactly the bytes and length of the message, not again once it was taken and only once unless the logger is told to try its best, and returns the queue's last answer; a message that must be kept and was refused is appended to the lost file. The worker writes every non-empty message as one line to the current file, opening a new one only if there is none, counts what was written to that file, and closes it exactly when a limit is set and reached. file_logger_init returns a logger with a running queue of the size asked for that is handed that logger, or NULL with no queue left running; the message cache always has the room noted down. file_logger_deinit stops the queue before anything the worker uses is released, releases all of it, closes the file and clears the handle.",
 over=["inputs", "fault_sequences", "histories"], quant="all lengths and partial transfers, all failing system calls and allocations, all answers of the queue, all paths, lines and messages",
 why="Short reads and writes, failing seeks and opens, refused messages and files that reach their limit do not happen in a test run.",
 files=["src/file/file_util.c", "src/log/file_logger.c"],
 mech=[("transfer loop", "src/file/file_util.c pri_internal_rw_file"), ("prefix walk", "src/file/file_util.c file_util_mkdirs"), ("whole file", "src/file/file_util.c file_util_read_all"), ("message cache and retry", "src/log/file_logger.c file_logger_log"), ("rotation", "src/log/file_logger.c handle_log_queue_msg")],
 tech="abstract interpretation with files, directories and the queue by contract; ghost counters follow transfers and copied path characters (sa/p_io.py)",
 note="Transfers of up to INT_MAX bytes. Which of the characters at the end of a line are cut off, the names of log files and the normalisation of the folder path are not decided."),
dict(id="P21", title="xlog passes on exactly the messages it is set to, complete",
 statement="A message is passed on exactly if a target is set, the least level is not OFF and the message's level is at least the least level (and not above ERROR): once to the console (stdout) if the console is a target, and once to the user's callback if that is a target and a callback is set, otherwise not at all. If an automatic level is set and the message's is lower, it is passed on with the automatic one. The callback gets that level, the text, its size including the terminator, and the user's data. The text is a header and behind it the whole message, as the caller's format and arguments print it, however long, and its terminator. Without any format flag and without a place in the source there is no header; with the time flag it begins with the time of the time zone set; with the level flag alone with a blank, the letter of the level and '/'; with the thread flag (without the level flag) the thread in parentheses comes next; these headers end in ': '. In the flush mode for every message, stdout is flushed after each that was printed. The setters of least level, target, format and time zone take over every valid value, which then is in force for the next message, and no invalid one (level outside OFF to ERROR, negative target or format, zone outside -12 to 12); the getters return the value in use.",
 over=["inputs", "configurations", "fault_sequences"], quant="all levels, targets, triggers and callbacks, messages, tags and time zones, formats without and with each part, failing allocations",
 why="Tests look at some log output by eye; they cannot cover every message length around the buffer's size in every configuration.",
 files=["src/log/xlog.c", "inc/log/xlog.h"],
 mech=[("filter and targets", "src/log/xlog.c __xlog_internal_print, XLOG_IS_LEVEL_LOGABLE"), ("header", "src/log/xlog.c print_level_tag, print_tid, print_func_line"), ("long messages", "src/log/xlog.c __xlog_internal_print (second buffer)"), ("settings", "src/log/xlog.c xlog_set_*, xlog_get_*")],
 tech="abstract interpretation of the printing path under every configuration, with symbolic message, tag and time (sa/p_log.py)",
 note="What stands behind a tag in front of other header parts, and the function name and line, are not decided (their place depends on a tag of unknown length copied character by character). Messages are dropped, or their format's failure reported, if memory ran out or vsnprintf fails."),
dict(id="P23", title="The tracking allocator knows each block in use and notices misuse",
 statement="lcu_malloc, lcu_calloc, lcu_strdup and lcu_strndup (and their _trace forms) return NULL only if memory ran out or the size cannot be represented, and else a block of its own with at least the bytes asked for: zeroed by calloc, holding the text (of strndup at most len characters) with its terminator by strdup and strndup. While the tracker is on, each such block has the marker text directly before its first and behind its last byte, and there is exactly one record of it under its address, with its size, allocator, caller's line and 'in use'; the tracker aborts if a block is announced that is still in use. lcu_free releases the block from its very beginning, once, and removes its record; NULL is ignored; lcu_free_and_reset also sets the pointer to NULL. While the tracker is on, releasing a block without a record, of another allocator, marked as released or with any byte of either marker overwritten aborts the process, and correct use never does. lcu_realloc of size 0 releases the block and returns NULL, of NULL allocates; otherwise the block returned has at least the size asked for and the old contents up to the smaller size, and the old block is released exactly if another one is returned; if that fails it returns NULL and leaves the old block in use - with the tracker on or off. allocation_tracker_ptr_size returns the size asked for (0 if the tracker is off). allocation_tracker_expect_no_allocations returns the sum of the sizes of the blocks in use and calls the report function exactly once for each of them, with address, size, file, function, line and the user's data. While the tracker is off its functions hand sizes and addresses through unchanged and record nothing; starting it again keeps the records, stopping releases them.",
 over=["inputs", "histories", "fault_sequences", "configurations"], quant="all sizes and texts, tracker on and off, every state of the record asked for, every byte of both markers overwritten, leak lists of 0 to 2 records, failing allocations",
 why="Tests release what they allocate, correctly, with the tracker on; misuse aborts, which a unit test cannot survive, and a lost record or marker shows only later.",
 files=["src/mem/allocator.c", "src/mem/allocation_tracker.c", "inc/mem/allocator.h", "inc/mem/allocation_tracker.h"],
 mech=[("markers and records", "src/mem/allocation_tracker.c allocation_tracker_notify_alloc, allocation_tracker_notify_free"), ("leak report", "src/mem/allocation_tracker.c allocation_tracker_expect_no_allocations, allocation_entry_freed_checker"), ("allocation functions", "src/mem/allocator.c lcu_malloc_trace, lcu_calloc_trace, lcu_strdup_trace, lcu_realloc_trace, lcu_free")],
 tech="abstract interpretation of each operation with the record map by contract and every marker byte overwritten in turn (sa/p_trk.py)",
 note="Longer leak lists are covered insofar as the callback treats records alike. File and function names are copied, cut to the record's fields; their text is not decided. The record map itself is P13's subject."),
dict(id="P25", title="Portable threads, locks and semaphores are the POSIX ones",
 statement="On POSIX systems portable_mutex_init, portable_rwlock_init, portable_sem_init and portable_thread_create return -1 without a place for the handle (a thread also without a routine), -2 with a NULL handle if memory ran out, and otherwise create exactly one POSIX object of their kind, in memory of its own, with exactly the attributes, initial value, routine and argument given; they return what POSIX answered, the handle leads to the object exactly if that was 0, else it is NULL and the memory is released. A created thread is given the name in its attributes exactly if that is not empty. lock, unlock, rdlock, wrlock, wait, post and getvalue call the one POSIX function of that meaning exactly once, on the object of the handle, and return its answer; the handle stays as it is. join waits for exactly the thread of the handle, passes its result on, returns the answer of POSIX, and releases the handle's memory if it succeeded. destroy destroys the object, releases its memory, sets the handle to NULL and returns the answer of POSIX. Given a NULL handle (never created, or destroyed) each of them returns -1 and calls nothing.",
 over=["inputs", "fault_sequences", "histories"], quant="all handles (absent, empty, live), arguments and answers of POSIX, and failing allocations",
 why="Tests never see a failing pthread or semaphore call, nor use a handle before it exists or after it is gone.",
 files=["src/thread/portable_thread_posix.c", "inc/thread/portable_thread.h"],
 mech=[("creation", "src/thread/portable_thread_posix.c portable_thread_create, portable_*_init"), ("forwarding", "src/thread/portable_thread_posix.c portable_*_lock, portable_sem_*"), ("release", "src/thread/portable_thread_posix.c portable_*_destroy, portable_thread_join")],
 tech="abstract interpretation with a log of the system calls of every path (sa/p_posix.py)",
 note="What POSIX does with the objects is its own business; a join that fails is only required to report it."),
dict(id="P19", title="Base64 and URL texts are exact and decode to what was encoded",
 statement="lcu_base64_encode turns any bytes (two or more; one byte or none may be refused with a negative result) into the standard base64 text without line breaks: four characters of A-Z a-z 0-9 + / for every three bytes, a last group of one or two bytes padded with '=', then a terminator, and returns the size with the terminator. lcu_base64_decode reads up to the first character outside that alphabet, writes exactly the whole bytes that the characters before it stand for (three for four characters, one for two and two for three left over, none for one), a terminator behind them, and returns how many bytes it decoded. lcu_base64_encode_buf_size and lcu_base64_decode_buf_size return the size of whole groups (4 for each started 3; 3 for each started 4) and a terminator. lcu_url_encode keeps letters, digits and . - * _, turns a space into '+' and every other byte into '%' and two upper-case hexadecimal digits, terminates the text and returns its length; it is negative only if there is nothing to encode or the text with its terminator does not fit. lcu_url_decode undoes this (either case of digits) up to the end of the text, a full buffer or an incomplete escape at the end, terminates the bytes, returns their number and, if asked, reports where in the text it stopped; it is negative only if there is nothing to decode, no room for a byte and the terminator, or the next character may not occur or is an escape with bad digits.",
 over=["inputs"], quant="all bytes, all lengths up to 2^30, all buffer sizes",
 why="Tests encode and decode a few short texts and mostly compare lengths; single byte values in single positions of a group, exactly fitting buffers and broken escapes are not tried.",
 files=["src/data/base64.c", "src/net/url_encoder_decoder.c"],
 mech=[("bits of a group", "src/data/base64.c lcu_base64_encode, lcu_base64_decode"), ("alphabet table", "src/data/base64.c basis_64, pr2six"), ("escapes", "src/net/url_encoder_decoder.c lcu_url_encode, lcu_url_decode")],
 tech="abstract interpretation with a bit-exact comparison of each stored character's term over the source bytes it was computed from (sa/p_codec.py)",
 note="Output and source do not overlap. Bytes of a term are at most three; the comparison folds the finite function of those bytes, tables taken from the source, over the values the path leaves open."),
dict(id="P20", title="Calendar fields of a time are the right ones",
 statement="The date, time and zone texts and fields computed for a time and a zone offset are those of the proleptic Gregorian calendar, also across leap years, negative offsets and the cached minute.",
 over=["inputs", "histories"], quant="all times and zone offsets, in any order",
 why="Tests print a time or two and do not compare them with a calendar.",
 files=["src/time/time_util.c"],
 mech=[("date arithmetic", "src/time/time_util.c time_util_fast_second2date"), ("text", "src/time/time_util.c time_util_get_time_str")],
 tech="", note="",
 na="Correctness is an identity between nested integer divisions over 64-bit values; it has no finite abstraction that is not a re-implementation of the calendar, and comparing two implementations over all inputs is a solver's or a test's work. Buffers (P04), the cache's lock (P07) and initialisation (P16) of this code are decided."),
dict(id="P22", title="An INI text is read as it is written",
 statement="Parsing any INI text reports exactly its sections, names and values with comments, quotes, continuation lines and blanks treated as documented, and reports the number of the first bad line.",
 over=["inputs"], quant="all texts",
 why="Tests parse one or two small files.",
 files=["src/ini/ini_reader.c", "src/ini/ini_parser.c"],
 mech=[("line scanner", "src/ini/ini_reader.c ini_parse_stream")],
 tech="", note="",
 na="It equates the scanner's behaviour on unbounded texts with a grammar; a static argument would need the language accepted by pointer-moving code (with in-place edits of the line), which no domain in reach expresses. What is decided: the scanner's memory safety (P04, P16) and that what is reported to the tree is stored and found again (P24)."),
dict(id="P27", title="Pool allocations are disjoint and freed blocks merge",
 statement="Blocks handed out by the memory pool at the same time never overlap, lie inside the pool, are aligned, and after all are freed the whole pool is available again.",
 over=["inputs", "histories"], quant="all pool sizes and sequences of allocations, reallocations and releases",
 why="Tests run a few short sequences.",
 files=["src/mem/mplite.c"],
 mech=[("buddy allocator", "src/mem/mplite.c mplite_malloc_unsafe, mplite_free_unsafe")],
 tech="", note="",
 na="The invariant is a recursive partition of an array of unbounded size, with buddies found by bit operations on indexes and free lists threaded through the blocks themselves; shape and bit-level arithmetic together are beyond the domain, and bounded enumeration by execution would not be static. The pool's locking is decided by P06 and P07."),
dict(id="P28", title="Lock-free rings order their accesses on any processor",
 statement="With one reading and one writing thread the bytes of a ring become visible no later than the position that announces them, and are not overwritten before the reader's position says so, also on processors that reorder memory accesses.",
 over=["schedules"], quant="all interleavings and all reorderings the processor and the compiler allow",
 why="Tests run on one processor model, which orders stores.",
 files=["src/ring/ringbuffer.c", "src/ring/ring_buf.c", "inc/ring/ring_buf.h"],
 mech=[("barriers", "src/ring/ringbuffer.c RingBuffer_Write, RingBuffer_Read"), ("positions", "src/ring/ring_buf.c ring_buf_write")],
 tech="", note="",
 na="The positions are plain (not atomic) integers by design, so under the C11 memory model every concurrent use is a data race and the property is false as a statement about C; what remains true depends on the compiler and the processor, not on this source. The program order that sequential consistency needs is decided by P10."),
]
