# ---------------------------------------------------------------- limiters
VCLK = "the virtual clock of testing/synctest stands for the system clock (monotonic, no backward steps)"
prop("C01", "Fixed-window limiter admits exactly its quota per window",
     """A window opens when the limiter is built and again at the first attempt made strictly more than one window length after
     the open window began. Inside one window exactly the first `limit` attempts succeed and all later ones are refused;
     refused attempts consume nothing, and no quota carries over between windows or between limiters.""",
     ["histories", "inputs"], "every limit >= 0, every window > 0, every history of attempt times, down to the nanosecond at the window's edge",
     "The one test makes two back-to-back bursts with one limit on the real clock: no boundary instant, no idle gap, no refused-then-admitted mix, no second limiter.",
     ["common/limiter/fixed_window/fixed_window.go"], [("window reset and counter under one lock", "TryAcquire")],
     ["result of TryAcquire at each virtual instant"],
     "online reference-model monitor over seeded attempt histories on a virtual clock",
     "Held on the histories run (millions of attempts, boundaries targeted to the nanosecond); not exhaustive. Trusts testing/synctest's clock and the ten-line model.",
     state=[("window start", "when the open window began", "NewFixedWindowLimiter, TryAcquire"), ("count", "admissions in the open window", "TryAcquire")],
     assumptions=[VCLK])
prop("C02", "Leaky-bucket limiter drains at its configured rate",
     """An attempt succeeds exactly when the level is below the peak, and a success raises the level by one. The level falls by the
     velocity at each whole second elapsed since construction, never below zero, however irregularly the limiter is polled (a
     fraction of a second left over counts towards the next second). Refused attempts change nothing.""",
     ["histories", "inputs"], "every peak and velocity >= 0, every history of attempt times",
     "The one test polls every 100 ms with one configuration; no irregular or sparse polling, so lost fractions, over-draining and boundary errors stay invisible.",
     ["common/limiter/leaky_bucket/leaky_bucket_limiter.go"], [("whole-second drain with carried remainder", "TryAcquire")],
     ["result of TryAcquire at each virtual instant"],
     "online reference-model monitor over seeded attempt histories on a virtual clock",
     "Held on the histories run; not exhaustive. Trusts testing/synctest's clock and the model.",
     state=[("level", "water in the bucket", "TryAcquire"), ("last drain", "whole-second mark of the last drain", "TryAcquire")], assumptions=[VCLK])
prop("C03", "Token-bucket limiter never spends tokens it was not issued",
     """The bucket starts empty and receives `rate` tokens at each whole second elapsed since construction, up to its capacity,
     however irregularly it is polled (a fraction of a second left over counts towards the next second). An attempt succeeds
     exactly when a token is there, and takes it; refused attempts change nothing.""",
     ["histories", "inputs"], "every capacity and rate >= 0, every history of attempt times",
     "No test exists for this package.",
     ["common/limiter/token_bucket/token_bucket.go"], [("whole-second issue with carried remainder, cap", "TryAcquire")],
     ["result of TryAcquire at each virtual instant"],
     "online reference-model monitor over seeded attempt histories on a virtual clock",
     "Held on the histories run; not exhaustive. Trusts testing/synctest's clock and the model.",
     state=[("tokens", "tokens available", "TryAcquire"), ("last issue", "whole-second mark of the last issue", "TryAcquire")], assumptions=[VCLK])
prop("C04", "Sliding-window limiter bounds the sum over the sliding window",
     """Time is cut into slots aligned on multiples of the slot length since the Unix epoch; an attempt succeeds exactly when fewer
     than `limit` attempts were admitted in the current slot and the (window/slot - 1) slots before it. Refused attempts are not counted. The constructor
     fails exactly when the window is not a multiple of the slot.""",
     ["histories", "inputs"], "every limit >= 0, every slot > 0 and window > 0, every history of attempt times, in particular around slot edges and after idle gaps",
     "No test exists for this package.",
     ["common/limiter/sliding_window/sliding_window.go"], [("per-slot counters, expiry of old slots, limit comparison", "TryAcquire"), ("divisibility check", "NewSlidingWindowLimiter")],
     ["result of TryAcquire at each virtual instant", "error of the constructor"],
     "online reference-model monitor over seeded attempt histories on a virtual clock",
     "Held on the histories run; not exhaustive. Trusts testing/synctest's clock and the model.",
     state=[("slot counters", "admissions per slot", "TryAcquire")], assumptions=[VCLK])
prop("C05", "Sliding-log limiter honours every strategy and names the one it hit",
     """With slots as for the sliding window, an attempt succeeds exactly when every strategy still has room in its own window;
     otherwise the error carries limit and window of the widest exhausted strategy (the larger limit first among equal windows), and nothing is counted. Limiters never
     influence each other, even when built from the same strategy objects. Construction fails exactly when there is no strategy, a window is not a
     multiple of the slot, or limits do not strictly decrease as strategies are ordered by decreasing window (and limit).""",
     ["histories", "inputs", "configurations"], "every set of strategies in any order, every slot > 0, every history of attempt times",
     "No test exists for this package.",
     ["common/limiter/sliding_log/sliding_log.go"], [("per-strategy counts over shared slot counters", "TryAcquire"), ("ordering, validation and private copies of the strategies", "NewSlidingLogLimiter")],
     ["error of TryAcquire at each virtual instant", "error of the constructor"],
     "online reference-model monitor over seeded attempt histories on a virtual clock",
     "Held on the histories run; not exhaustive. Trusts testing/synctest's clock and the model.",
     state=[("slot counters", "admissions per slot", "TryAcquire")], assumptions=[VCLK])
prop("C06", "Limiters are atomic under concurrent callers",
     """For each of the five limiters, attempts made concurrently by any number of goroutines are admitted and refused in exactly the numbers some
     one-after-another order of the same attempts would give: no over-admission, no lost quota. No data race occurs and every attempt returns.""",
     ["schedules", "histories"], "every number of goroutines, every interleaving of their attempts, every limiter kind and configuration",
     "No test calls a limiter from two goroutines, and none runs under the race detector.",
     ["common/limiter/fixed_window/fixed_window.go", "common/limiter/leaky_bucket/leaky_bucket_limiter.go", "common/limiter/token_bucket/token_bucket.go",
      "common/limiter/sliding_window/sliding_window.go", "common/limiter/sliding_log/sliding_log.go"],
     [("one mutex around the whole attempt", "TryAcquire of each limiter")], ["multiset of results per virtual instant", "race detector reports"],
     "race detector plus conservation monitor over concurrent attempts on a virtual clock",
     "Held on the interleavings the scheduler produced (goroutines running in parallel at frozen virtual instants); races are only seen on executed paths.",
     race=True, assumptions=[VCLK])
# ---------------------------------------------------------------- containers
SEQ = "online reference-model monitor over seeded operation histories"
HELD = "Held on the histories run (sizes and values biased to edges); not exhaustive. Trusts the model."
prop("C07", "Binary heap and priority queue yield every element once, in order",
     """Peek and Pop give an element to which no other one inside is strictly preferred by the order, and every element put in (at construction or pushed)
     comes out exactly once. Remove(i) takes out one element, Fix(i) after changing element i restores the order, and neither loses or duplicates
     anything. Length and emptiness always agree with what is inside.""",
     ["histories", "inputs"], "every strict weak order with any ties, every initial slice, every sequence of operations with indexes inside the heap",
     "No test exists for these packages.",
     ["common/container/heap/heap.go", "common/container/pqueue/pqueue.go"], [("sift up, sift down and heapify", "up, down, init, Remove, Fix of Heap")],
     ["results of Pop, Peek, Remove, Len, Empty"], SEQ + " (multiset model, drained at the end)", HELD,
     state=[("h", "the elements in heap order", "Heap, PriorityQueue")], assumptions=["the order given by the caller is a strict weak order"])
prop("C08", "N-ary heap yields every element once, in order, for every arity",
     """For every arity from 2 up to 2^31, Peek and Pop give an element to which no other one inside is strictly preferred by the order, every pushed element comes out
     exactly once, and Remove(i) and Fix(i) neither lose nor duplicate anything. Length and emptiness agree with what is inside; an arity below 2 is refused with a panic.""",
     ["histories", "inputs", "configurations"], "every arity in 2..2^31, every strict weak order, every sequence of operations with indexes inside the heap",
     "No test exists for this package.",
     ["common/container/heap/heapn.go"], [("sift down over all n children, sift up to the n-ary parent", "up, down of HeapN")],
     ["results of Pop, Peek, Remove, Len, Empty"], SEQ + " (multiset model, drained at the end)", HELD,
     state=[("h", "the elements in heap order", "HeapN")], assumptions=["the order given by the caller is a strict weak order"])
prop("C09", "Keyed heap behaves as a map with a minimum, in logarithmic time",
     """At every moment the keyed heap holds for each key the value pushed last since that key was last popped or removed: Get, Contains and Len answer accordingly,
     removing a missing key changes nothing, and pushing a present key updates it in place. Peek and Pop give an entry to which no other inside is strictly preferred.
     Push, Remove and Pop need only a number of comparisons logarithmic in the number of entries.""",
     ["histories", "inputs"], "every comparable key type, every strict weak order with any ties, every sequence of operations",
     "No test exists for this package.",
     ["common/container/meap/maep.go"], [("index map kept in step with the heap on every swap", "Push, Remove, Pop, swap, up, down")],
     ["results of Push, Pop, Peek, Remove, Get, Contains, Len", "number of comparisons"], SEQ + " (map model) with a comparison counter", HELD + " The comparison bound checked is 8*log2(n+2)+8.",
     state=[("h, index", "entries in heap order and the position of each key", "Meap")], assumptions=["the order given by the caller is a strict weak order"])
prop("C10", "Handle heap: a handle always refers to its own element",
     """Each Push returns a handle that stays tied to that one element through all reorderings: Value gives its value, Remove takes out that element and SetValue changes that
     element, each returning true exactly while it is in the heap; on popped or removed handles both return false and change nothing. Peek and Pop give an element to which no
     other inside is strictly preferred, and every element leaves exactly once. Push, Remove, SetValue and Pop need only a logarithmic number of comparisons.""",
     ["histories", "inputs"], "every strict weak order with any ties, every sequence of operations on live and dead handles",
     "No test exists for this package.",
     ["common/container/reap/reap.go"], [("index stored in the entry, updated on every swap, -1 once out", "Push, Pop, Remove, SetValue, swap")],
     ["results of Push, Pop, Peek, Remove, SetValue, Value, Len", "number of comparisons"], SEQ + " (multiset model) with a comparison counter", HELD,
     state=[("index of an entry", "where the element is now, or out", "Entry")], assumptions=["the order given by the caller is a strict weak order", "a handle is used only with the heap that issued it"])
prop("C11", "Linked list keeps exactly the sequence its operations describe",
     """After any operations the list holds exactly the sequence they describe, walked forward and backward alike, with Len, Front, Back and element values in agreement and elements keeping
     their identity through moves. Operations naming an element or mark that is not in the list (removed, cleared away, or of another list) leave it unchanged; copying a list
     into another or itself appends copies and leaves the source as it was. The zero value is an empty list ready for every operation.""",
     ["histories", "inputs"], "every sequence of the 18 operations over any number of lists and elements, including elements of other lists, removed ones and ones cleared away",
     "No test exists for this package.",
     ["common/container/list/list.go"], [("link surgery in insert, remove, move", "insert, remove, move"), ("membership guard by owner", "Remove, Insert*, Move*")],
     ["both walks, Len, Front, Back, results of each operation"], SEQ + " (slice models, both walks compared after every step)", HELD,
     state=[("root ring", "elements linked in a ring through a sentinel", "List")])
prop("C12", "Deque, stack and set keep their elements and their order",
     """A deque gives back at either end exactly what a double-ended sequence would, a stack gives back the newest element first, and a set contains exactly the elements added and not removed since.
     Len and Empty always agree with that, through emptying and refilling, and structures never influence each other. Popping or peeking an empty deque or stack panics and leaves it usable.""",
     ["histories", "inputs"], "every sequence of operations, every element type",
     "No test exists for these packages.",
     ["common/container/deque/deque.go", "common/container/stack/stack.go", "common/container/set/set.go"], [("ends of the linked list", "PushFront, PushBack, PopFront, PopBack"), ("map membership", "Add, Remove, Contains")],
     ["results of every operation"], SEQ + " (slice and map models)", HELD)
prop("C13", "Bounded rings are exact FIFO queues of their capacity",
     """A bounded ring is a FIFO queue: elements come out exactly once in insertion order, single pushes on a full ring and pops or peeks on an empty one panic without effect, a batch push takes the longest prefix that fits
     and drops the rest, and a batch pop delivers up to what was asked. Len, Avail, Empty, Full and Cap agree at every step, batches are copied and never alias the ring, and Reset empties it. The capacity is the size
     asked for (rounded up to a power of two in the rounding variant), and a size of zero or beyond the maximum is refused with a panic.""",
     ["histories", "inputs", "configurations"], "every capacity, every sequence of single and batch operations, wrapping any number of times",
     "No test exists for these packages.",
     ["common/container/ringbuffer/fix/fix.go", "common/container/ringbuffer/round/roud.go"], [("index arithmetic with wrap-around", "Push, Pop, MPush, MPop, MPopCopy"), ("size check and rounding", "New")],
     ["results of every operation, contents of batches"], SEQ + " (slice model)", HELD,
     state=[("read and write index", "positions in the ring", "Ring")])
prop("C14", "Bounded rings are safe between one producer and one consumer",
     """With one goroutine pushing and another popping, singly or in batches and without any locking, the consumer receives exactly the elements the producer pushed, in order and whole, with no data race.
     Each side's view is safe: space the producer was promised stays until it pushes, elements the consumer was promised stay until it pops, and the sizes both see stay within the capacity.""",
     ["schedules", "histories"], "every interleaving of one producer and one consumer, every capacity, every mix of single and batch operations",
     "No test exists for these packages, and none runs under the race detector.",
     ["common/container/ringbuffer/fix/fix.go", "common/container/ringbuffer/round/roud.go"], [("atomic publication of the indexes, data first", "Push, Pop, MPush, MPop, MPopCopy, Len, Avail")],
     ["checksummed, numbered elements at the consumer", "sizes seen by each side", "race detector reports"],
     "race detector plus FIFO/integrity monitor over one producer and one consumer in parallel",
     "Held on the interleavings the scheduler produced with seeded yields on 8 cores; races are only seen on executed paths.",
     race=True, state=[("read and write index", "published positions", "Ring")], assumptions=["one producer and one consumer at a time"])
prop("C15", "Growing ring is an unbounded FIFO queue that never loses elements",
     """The unbounded ring is a FIFO queue that never refuses an element: elements come out exactly once, in order, through any number of growths at any wrap position, and batches are taken whole and copied.
     Capacity never shrinks and never falls below the length, Grow(n) makes it at least n and keeps the contents, and Len, Avail, Empty and Full agree at every step.
     Pops and peeks on an empty ring panic without effect; a size beyond the maximum is refused with a panic.""",
     ["histories", "inputs"], "every initial capacity including zero, every sequence of single and batch operations and growths",
     "No test exists for this package.",
     ["common/container/ringbuffer/unbounded/unbounded.go"], [("re-layout on growth", "Grow, Push, MPush"), ("index arithmetic with wrap-around", "Pop, MPop, MPopCopy")],
     ["results of every operation, contents of batches"], SEQ + " (slice model)", HELD,
     state=[("read and write index, buffer", "positions in the ring", "Ring")])
# ---------------------------------------------------------------- bloom filter
prop("C16", "Bloom filter has no false negatives, and Clear forgets everything",
     """Everything added since the last Clear is reported as contained, however far beyond its capacity the filter is filled and whatever is added later. Bytes and the string of the same
     bytes are the same element. A new filter and a filter just cleared contain nothing, filters never influence each other, and a query changes nothing.""",
     ["histories", "inputs"], "every capacity >= 1 and rate in (0,1), every history of adds, queries and clears",
     "No test exists for this package.",
     ["common/filter/bloom/bloom.go"], [("same bit positions on Add and Contains", "Add, Contains"), ("all words cleared", "Clear")],
     ["results of Contains, ContainsBytes, ContainsString", "race detector reports"], SEQ + " (set model), race detector", HELD,
     state=[("bits", "bit array", "Filter")], race=True)
prop("C17", "Bloom filter honours its configured false-positive rate",
     """A filter filled to its configured capacity with distinct elements reports at most about the configured fraction (1.5 times it, over many filters and questions) of elements never added as contained,
     for random and for structured elements (sequential, strided, strings) alike.""",
     ["inputs", "configurations"], "every capacity and rate, every pattern of elements",
     "No test exists for this package.",
     ["common/filter/bloom/bloom.go"], [("number of bits and of hash functions", "New"), ("mixing of hash and seed", "Add, Contains")],
     ["share of false positives over many filters"], "statistical monitor: false positives counted over many full filters per configuration and element pattern",
     "Observed on 72 configurations and 6 patterns, at least 1500 expected false positives each (5 sigma below the bound); seeds of the filters are random, the margin (1.15 observed against 1.5) makes a chance alarm negligible.",
     state=[("bits, seeds", "bit array and hash seeds", "Filter")])
# ---------------------------------------------------------------- timers
prop("C18", "Delay queue delivers each element once, in due order, never early",
     """Every element pushed is delivered exactly once: never before it is due, at once when it is due and somebody waits, and always an element with the earliest due time among those inside.
     Pop takes an element exactly when one is due, Peek shows the earliest without taking it, and Take waits until the earliest element is due or its context is done.
     Nothing else makes an element disappear: elements nobody took are still inside.""",
     ["histories", "schedules"], "every history of pushes (any delay, also negative), pops, peeks and takes with or without deadline, by any number of goroutines",
     "No test exists for this package.",
     ["common/timer/delayqueue/delayqueue.go"], [("heap by due time under a lock", "Push, Pop, Peek, Take"), ("waiting for the head's due time or a newer head", "Take")],
     ["element and virtual instant of every delivery", "results of Pop, Peek, Empty"],
     "exact model (sequential) and offline history checker (concurrent: exactly-once, not early, prompt, order) on a virtual clock, race detector on",
     "Held on the histories run; the virtual clock makes the timing oracle exact. Trusts testing/synctest.",
     race=True, state=[("heap", "elements by due time", "DelayQueue")], assumptions=[VCLK])
prop("C19", "Delay queue takers never sleep through a due element; Push never blocks",
     """With any number of takers waiting, leaving and giving up at any moment, an element that is due is delivered as long as a taker is waiting: no wake-up is lost to a taker that has left.
     Push never blocks. A Take returns as soon as its context is done, without an element unless it also got one.""",
     ["schedules", "histories"], "every number of producers and takers, every interleaving of pushes, takes, deadlines and cancellations, including at the same instant",
     "No test exists for this package.",
     ["common/timer/delayqueue/delayqueue.go"], [("wake-up of waiting takers on a push", "Push, Take"), ("leaving on cancellation", "Take")],
     ["virtual instants of every wait, delivery and push"], "offline liveness checker over recorded waits on a virtual clock (an idle taker next to a due element refutes), race detector on",
     "Held on the interleavings the scheduler produced, with many events at the same virtual instant. Trusts testing/synctest.",
     race=True, assumptions=[VCLK])
prop("C20", "Delay queue channels deliver each element once and close when cancelled",
     """A channel opened on a delay queue delivers due elements, each to exactly one receiver of all channels and takers, never early and as soon as there is room; it has the requested buffer size.
     It closes once its context is done, promptly if it is being drained, and no element is lost: each was delivered (also from the buffer of a closed channel) or is still in the queue.""",
     ["histories", "schedules"], "every buffer size >= 0, every number of channels on one queue, every instant of cancellation, readers that drain until the channel closes",
     "No test exists for this package.",
     ["common/timer/delayqueue/delayqueue.go"], [("forwarding goroutine, close on cancellation", "Channel")],
     ["element and virtual instant of every receive, instant of the close"], "offline history checker (exactly-once, conservation, promptness, closing) on a virtual clock, race detector on",
     "Held on the interleavings run. Trusts testing/synctest.", race=True, assumptions=[VCLK, "a reader drains its channel until it closes"])
WHEEL = [VCLK, "tick >= 1 ms, wheel size >= 2, delays below 292 years, one Run per wheel, tasks that return"]
prop("C21", "Timing wheel runs each task exactly once, in the tick it is due in",
     """A task added with a delay to a wheel that runs, or runs later, is run exactly once: not before the start of the tick holding its due time nor before it was added, and at most one millisecond after its due
     time (or after the wheel started, if that was later). This holds for delays of any length (through any number of overflow wheels, zero and negative too) and
     for tasks added before the start, concurrently, by other tasks, or after idle gaps; adding never blocks.""",
     ["histories", "schedules", "inputs", "configurations"], "every tick and wheel size, every set of delays, every history of additions by any number of goroutines",
     "No test exists for this package.",
     ["common/timer/timingwheel/timing_wheel.go", "common/timer/timingwheel/bucket.go", "common/timer/timingwheel/delayqueue.go"],
     [("slot choice and overflow wheels", "add, addOrRun"), ("clock advance and redistribution of expired buckets", "Run, advanceClock, bucket flush"), ("due buckets by time", "delay queue of buckets")],
     ["virtual instant of every run of every task"], "offline history checker (exactly once, inside its window) on a virtual clock, plus exactly-once under real-clock stress; race detector on",
     "Held on the histories run; the virtual clock makes windows exact. The real-clock group judges counts only.",
     race=True, state=[("wheels and current time", "hierarchy of buckets", "TimingWheel")], assumptions=WHEEL)
prop("C22", "Stopping a timer tells the truth",
     """Stop returns true to at most one caller per task, and then the task never runs; it returns false only if the task has run, is being run, was stopped before, or can no longer be taken back because its wheel has been stopped.
     So every task of a running wheel either runs once or was stopped once, also when stopped at its due instant, while it moves between wheels, from several goroutines, or
     from a task.""",
     ["schedules", "histories"], "every interleaving of stops with additions, redistribution and expiry, any number of stoppers",
     "No test exists for this package.",
     ["common/timer/timingwheel/timing_wheel.go", "common/timer/timingwheel/bucket.go"], [("removal from whichever bucket holds the timer now", "Timer.Stop, bucket remove, bucket flush")],
     ["result and instant of every Stop", "instants of runs"], "offline history checker over stops and runs on a virtual clock, race detector on",
     "Held on the interleavings the scheduler produced, with stops aimed at due and redistribution instants.",
     race=True, state=[("bucket of a timer", "where the timer is now", "Timer")], assumptions=WHEEL)
prop("C23", "Scheduled tasks run once per instant of their schedule until it ends",
     """A task scheduled on a wheel runs once for each instant its scheduler names, in order, each inside the window of that instant, and the scheduler is asked for the next instant once per run,
     from the instant just served (the first time from now). It ends when the scheduler names none (at once: no timer is returned) or when the timer is
     stopped with true, after which it never runs again.""",
     ["histories", "inputs", "schedules"], "every scheduler, periodic, irregular, lagging behind, ending at once or never, every wheel, every instant of Stop",
     "No test exists for this package.",
     ["common/timer/timingwheel/timing_wheel.go"], [("re-arming of the timer before the task runs", "ScheduleFunc")],
     ["virtual instants of runs", "questions put to the scheduler"], "offline schedule checker on a virtual clock, race detector on",
     "Held on the schedules run.", race=True, assumptions=WHEEL)
prop("C24", "A stopped timing wheel stops cleanly at any moment",
     """Run returns as soon as its context is done, at whatever moment that happens, leaving no goroutine behind and nothing blocked; no task is started after that, and none ran twice.
     A stopped wheel stays safe to use: adding to it and stopping its timers neither blocks nor panics.""",
     ["schedules", "histories"], "every instant of cancellation relative to expiry, redistribution, additions and stops",
     "No test exists for this package.",
     ["common/timer/timingwheel/timing_wheel.go", "common/timer/timingwheel/delayqueue.go"], [("shutdown of the run loop", "Run"), ("waiting for the next bucket with cancellation", "delay queue of buckets")],
     ["instant Run returns, runs afterwards, leftover goroutines, panics"], "lifecycle monitor on a virtual clock (the bubble must end with no goroutine left), race detector on",
     "Held on the interleavings run.", race=True, assumptions=WHEEL)
prop("C25", "Concurrent map is linearizable",
     """Operations on the concurrent map, made by any number of goroutines, take effect as if each happened at one instant between its call and its return on an ordinary map, with no data race: among concurrent test-and-set calls on a missing key exactly one wins.
     Length and iteration show the entries of the map at one instant. A call that panics (a key that cannot be one, a visiting function that panics) leaves the entries as they are and the map usable.""",
     ["schedules", "histories"], "every number of goroutines, every interleaving of all exported operations on shared keys",
     "No test exists for this type, and none runs under the race detector.",
     ["help/utils/maps.go"], [("one lock around each operation", "every method of Map")],
     ["call, return and result of every operation", "race detector reports"], "linearizability checker (porcupine) over recorded concurrent histories plus race detector; exact model for sequential histories",
     "Held on the histories recorded; histories are short (tens of operations) so that the checker is complete on each.",
     race=True, state=[("map", "entries under a lock", "Map")], assumptions=[])
# ---------------------------------------------------------------- gorm helpers
SQL = ["SQLite (the system library, behind a recording database/sql driver and a minimal gorm dialector) stands for the user's database"]
ENGINE = "Real SQL runs on SQLite; trusts gorm and SQLite. Held on the batches run."
prop("C26", "Batch inserts store every record completely",
     """Inserting a batch of records (at least one field each) stores one row per record: every field of every record in its column, and NULL or the column's default where a record lacks a field others have, in the
     given order, however many records there are, all at once or split into chunks of any size. Nothing else in the table or elsewhere changes, the caller's records are left as they were,
     and an empty batch changes nothing. With a record that cannot be encoded among them the insert fails and nothing is written.""",
     ["inputs", "configurations"], "every batch of maps with equal or differing fields, values of any SQL type, every chunk size, up to the engine's placeholder limit",
     "No test touches the database helpers.",
     ["gorm_tools/gorm.go"], [("column list and value rows of the INSERT", "BatchInsert, batch SQL builder"), ("chunking", "SplitBatchInsert")],
     ["table contents before and after", "every SQL statement executed"], "whole-database model monitor behind a recording SQL driver on a real SQL engine",
     ENGINE, assumptions=SQL)
prop("C27", "Batch updates change exactly the rows and fields named",
     """A batch update sets, for each record, exactly the fields it names in the row its key names and leaves every other row, field and table alone, whether sent at once or split; the caller's records
     are left as they were. Records with unequal fields are refused by the batch form with nothing changed; the split form either errs or has updated every listed row in full.""",
     ["inputs", "configurations"], "every set of rows, keys present or not, repeated values, values of any SQL type, every chunk size, up to the engine's placeholder limit",
     "No test touches the database helpers.",
     ["gorm_tools/update.go", "gorm_tools/gorm.go"], [("CASE expression per field", "batch update builder"), ("chunking within the placeholder limit", "SplitBatchUpdate")],
     ["table contents before and after", "every SQL statement executed and its number of placeholders"], "whole-database model monitor behind a recording SQL driver on a real SQL engine",
     ENGINE, assumptions=SQL)
prop("C28", "Keyed writes touch only the rows they select",
     """Creating, updating and deleting one row or the rows of a list of ids or a where map changes exactly the rows selected and in them exactly the fields given plus the timestamp the helper maintains, which lies inside the
     call. An update or delete without a condition is refused with nothing changed; an empty id list selects nothing.""",
     ["inputs"], "every set of rows, ids present, absent and repeated, where maps of any size, values that look like SQL",
     "No test touches the database helpers.",
     ["gorm_tools/gorm.go", "gorm_tools/update.go"], [("conditions built from the arguments", "the update and delete helpers")],
     ["table contents before and after", "every SQL statement executed"], "whole-database model monitor behind a recording SQL driver on a real SQL engine",
     ENGINE, assumptions=SQL)
prop("C29", "A failing database write is reported and never half-continues",
     """When the database refuses a statement, the helper returns an error that holds the cause, and sends no further statement; a duplicate key in a batch or split insert gives exactly "duplicate record exists", and
     a single write that reaches no row where one is needed is an error. A handle whose context is done or whose transaction is over gives an error and writes nothing.
     Run in the caller's transaction, whatever was done before the failure disappears with the rollback.""",
     ["fault_sequences", "inputs"], "every helper, every statement at which the database can fail, every kind of failure",
     "No test touches the database helpers, let alone with faults.",
     ["gorm_tools/gorm.go", "gorm_tools/update.go"], [("error checks after each statement", "every helper")],
     ["returned error", "statements after the fault", "table contents after rollback"], "fault injection at every statement through a recording SQL driver, with whole-database comparison",
     ENGINE + " Every statement of each generated call is failed in turn.", level="fault_enumeration", assumptions=SQL)
# ---------------------------------------------------------------- files
FS = ["a POSIX file system; the checks run as an unprivileged user inside a scratch directory"]
prop("C30", "A file uploaded in chunks is put together byte for byte",
     """Chunks of a file uploaded in any order, repeatedly, in several sessions and interleaved with those of other files are put together into exactly the original file, and only chunks whose digest is right are accepted.
     Finishing an upload while a chunk before the last one sent is missing is refused and leaves no partial or wrong file; finishing twice gives the same file.
     Removing the chunks of one upload removes nothing else.""",
     ["histories", "inputs"], "every file size and chunk size, every order, repetition and interleaving of uploads, same contents under several names",
     "No test exists for this code.",
     ["help/utils/breakpoint_continue.go"], [("chunk naming and storage", "BreakPointContinue"), ("joining in numeric order", "MakeFile"), ("removal", "RemoveChunk")],
     ["every file below the working directory after every call"], "file-tree model monitor over seeded upload histories",
     "Held on the histories run.", assumptions=FS)
prop("C31", "Zip archives round-trip",
     """Zipping files and unzipping the archive gives back every file with its contents and permission bits (within the umask), under the names asked for, in order and whatever was in the way before, and reports the paths written; an
     archive larger than the descriptor limit works too. A damaged or truncated archive, or a missing input, gives an error.""",
     ["inputs", "configurations"], "every set of files, contents, modes and name replacements, archives written by other tools, damage at any byte of the structure",
     "No test exists for this code.",
     ["help/utils/zip.go"], [("writing entries", "ZipFiles"), ("extracting entries", "Unzip")],
     ["extracted tree", "archive read by an independent reader", "open descriptors"], "round-trip and file-tree model monitor, with an independent zip reader and writer, under a lowered descriptor limit",
     "Held on the archives run.", assumptions=FS)
prop("C32", "Unzip never writes outside its destination",
     """Whatever the entry names in an archive are (parent steps, absolute, links), extraction creates, changes or removes nothing outside the destination; an archive with an entry that leads outside
     is refused with an error. Entries with odd but harmless names are still extracted.""",
     ["inputs"], "every archive, in particular hostile ones, and destinations given relative, absolute or unclean",
     "No test exists for this code, and only hostile archives show the fault.",
     ["help/utils/zip.go"], [("containment check on the joined path", "Unzip")],
     ["the whole scratch tree around the destination before and after"], "containment monitor: whole-tree comparison around the destination, as an unprivileged user in a scratch directory",
     "Held on the archives run.", assumptions=FS)
prop("C33", "A file helper that reports success has written everything",
     """When writing fails at any byte (device full, size limit, read-only place), the copy, archive, CSV, chunk and assembly helpers return an error; a success means that the complete result is in the file. Failures leave no descriptor open,
     and a failed assembly leaves no partial file.""",
     ["fault_sequences", "configurations"], "every helper that writes, every byte at which the device may be full",
     "No test exists for this code; ordinary runs never fill the device.",
     ["help/utils/zip.go", "help/utils/csv.go", "help/utils/files.go", "help/utils/breakpoint_continue.go"], [("errors of writes, flushes and closes", "ZipFiles, Unzip, WriteCsv, CopyFile, MakeFile, BreakPointContinue")],
     ["returned error against the bytes in the file", "open descriptors"], "fault injection by file-size limits (RLIMIT_FSIZE) swept over the output, and full devices, with content comparison",
     "The limit is swept over the output of each generated call.", level="fault_enumeration", assumptions=FS)
prop("C34", "AES encryption round-trips and refuses what it did not write",
     """For every message and every key of 16, 24 or 32 bytes, decrypting the encrypted message gives it back, and the ciphertext is AES-CBC of the PKCS#7-padded message with the key's first 16 bytes as the vector. Arguments and the arrays they lie in are never
     changed, also when used concurrently. Bad keys, and anything that is not such a ciphertext, give an error, never a panic.""",
     ["inputs", "schedules"], "every message, key length and slice capacity, every ciphertext, cut, damaged or hostile",
     "No test exists for this code.",
     ["help/utils/md5.go"], [("padding in a fresh array", "pkcs7Padding"), ("length and padding checks", "AesDecrypt, pkcs7UnPadding")],
     ["results and errors", "the arrays around every argument", "race detector reports"], "differential monitor against an independent AES-CBC/PKCS#7, with watched argument memory and the race detector",
     "Held on the messages run. Trusts the standard library's AES.", race=True)
prop("C35", "File copies, moves, listings and queries tell and do the truth",
     """A copy makes the destination equal to the source whatever it held before, and returns its length; a move carries a file or tree to a path, making parents as needed; deletion, directory creation and recursive listing do exactly that.
     An operation that cannot be done returns an error and destroys nothing else; the predicates on existence and kind agree with the file system.""",
     ["histories", "inputs"], "every tree, every path relative, absolute or unclean, names with spaces, dots, wildcards and wide characters, links, unreadable places",
     "No test exists for this code.",
     ["help/utils/files.go"], [("truncating copy", "CopyFile"), ("rename with parents", "FileMove"), ("recursive listing", "ScanDir"), ("predicates", "IsDir, IsFile, FileExist, FileIsExisted, PathExists")],
     ["the whole tree after every call", "results of the predicates"], "file-tree model monitor over seeded histories, as an unprivileged user in a scratch directory",
     "Held on the histories run.", assumptions=FS)
prop("C36", "All digest helpers agree with MD5",
     """Every digest helper gives the lower-case hexadecimal MD5 of exactly the given bytes, whether they come as string, slice, file or reader (in any pieces); a given prefix appears in hexadecimal before it, and its array is not written.
     The check of a chunk accepts exactly the right digest, and a file that cannot be read gives an error.""",
     ["inputs", "schedules"], "every content, every reader, every near-miss digest, concurrent use",
     "No test exists for this code.",
     ["help/utils/md5.go", "help/utils/files.go", "help/utils/breakpoint_continue.go"], [("hashing", "Md5, Md5Crypt, MD5V, FileMd5, ComputeFileMD5"), ("comparison", "CheckMd5")],
     ["results", "race detector reports"], "differential monitor against the standard library's MD5, race detector on",
     "Held on the contents run. Trusts crypto/md5.", race=True, assumptions=FS)
prop("C37", "Masking hides what it promises to hide",
     """Masks count characters, not bytes: an address shows at most the first three characters of its local part (none if it has fewer) before its domain, an 11-digit mobile number starting with 1 loses its middle four, any other text shows only the ends its length allows (one character or
     none up to four, else two). The number masks replace exactly the asked count of characters (of a bank card over 16 long also that excess) from their fixed offset when more than that are there, and change nothing otherwise. Masking valid text never panics.""",
     ["inputs"], "every valid UTF-8 text, every count >= 0",
     "No test exists for this code; only wide characters and the exact limits show the faults.",
     ["help/utils/strings.go"], [("rules by kind and length", "HideStar, MaskCustomerName"), ("offset and count", "MaskMobile, MaskIDCard, MaskBackCard")],
     ["returned texts"], "reference-rule monitor over seeded texts around every limit",
     "Held on the texts run. Bytes that are no UTF-8 are run for panics only.")
prop("C38", "Integer and bit arithmetic is exact over whole types",
     """Maximum, minimum, absolute value, base-2 logarithm (rounded down for integers >= 1), power-of-two test, rounding up and down to powers of two (where the result fits and n >= 1) and highest set bit are exact for every value of every type they accept. Splitting n
     into at most m >= 1 parts gives parts of size ceil(n/m) and a last one between 1 and that size which together make n (0 and 0 for n = 0).""",
     ["inputs"], "every value of every integer type, named ones too, floats without NaN, every n and m >= 1",
     "No test exists for this package.",
     ["common/math/math.go"], [("the functions themselves", "common/math")],
     ["results"], "differential monitor against big-integer arithmetic, exhaustive on the 8 and 16 bit types",
     "Exhaustive for 8 and 16 bit values; sampled around powers of two above.")
prop("C39", "A hash instance is a function of the content alone",
     """One instance gives the same 64-bit sum for the same content at any time, whatever it summed before, as bytes or as string, without changing its argument; contents that differ get sums that differ as 64-bit
     hashes do. Instances do not influence each other, also when used at once by one goroutine each.""",
     ["histories", "inputs"], "every history of contents over any number of instances",
     "The tests print sums and compare nothing.",
     ["common/hash/hash.go"], [("reset before each sum", "Sum64")],
     ["sums", "arguments after the call"], "history monitor against each instance's first answers, race detector on",
     "Held on the histories run.", race=True)
prop("C40", "Base64, CSV and JSON helpers round-trip",
     """Whatever bytes are base64-encoded decode to the same bytes. Rows appended to a CSV file one call at a time read back as exactly those rows after what was there before, whatever quotes, separators and line feeds are in the fields.
     JSON written from a map or value reads back as that value; malformed CSV or a missing file reads as nil, and values without JSON as the empty text.""",
     ["inputs", "histories"], "every byte string; rows of equal length, not a single empty field, without carriage returns; every JSON value",
     "No test exists for this code.",
     ["help/utils/base64.go", "help/utils/csv.go", "help/utils/maps.go", "help/utils/files.go"], [("encoders and decoders", "Base64*, ImageFileToBase64"), ("append and read", "WriteCsv, ReadCsv"), ("JSON", "MapToJsonString, Map2JsonString, MapIntToJsonString, JsonStringToMap")],
     ["results", "file contents after every row"], "round-trip monitor with independent encoders over seeded values",
     "Held on the values run.", assumptions=FS)
prop("C41", "Rounding and size display stay within half a unit",
     """Rounding a number to n decimal places (n down to -3) gives a multiple of that unit at most half a unit away (up to floating error, numbers below 10^12 units), opposite for the opposite number, unchanged when rounded again; to the integer, halves go away from zero.
     A size of >= 0 bytes is shown in a binary unit in which it is at least one and at most 1024 (or in the largest), within half of the last digit shown.""",
     ["inputs"], "every number of either sign, every n in -3..6, every size from 0 to the maximum",
     "No test exists for this code.",
     ["help/utils/math.go", "help/utils/files.go"], [("rounding", "Round"), ("unit choice", "FormatByte, FileSize")],
     ["results"], "error-bound monitor on what is shown, over seeded values around every limit",
     "Held on the values run.")
prop("C42", "Random strings have the asked length and alphabet and do not repeat",
     """A random string has exactly the asked length and only characters of its kind: digits (0), lower case (1), upper case (2), any of these otherwise, all of which occur.
     Long strings never repeat: not at one reading of the clock, not for concurrent callers, not from process to process; concurrent use is free of data races.""",
     ["inputs", "schedules", "configurations"], "every length >= 0 and kind, any number of concurrent callers, clocks of any resolution",
     "No test exists for this code; repetition needs coinciding clock readings.",
     ["help/utils/rand.go"], [("seeding once per process", "init"), ("choice of characters", "RandStr")],
     ["returned strings", "race detector reports"], "uniqueness and alphabet monitor on a virtual clock that stands still, under concurrent callers with the race detector, and over restarted processes",
     "Held on the strings drawn; math/rand is predictable by design, and unpredictability is not claimed.", race=True,
     assumptions=["GODEBUG=randseednop=0, the setting of the repository's go directive (1.18), is in force"])
prop("C43", "Shell commands return their output or their error",
     """A script that ends with status 0 gives exactly the bytes it printed, of any number; one that ends otherwise (a status, a signal, a syntax error) gives an error holding what it printed as errors. It runs in the caller's directory and environment and has finished
     when the call returns; calls do not influence each other, also at once, and leave no descriptor open.""",
     ["inputs", "schedules"], "every script that reads no input",
     "No test exists for this code.",
     ["help/utils/cmd.go"], [("pipes around the shell", "ShellExec")],
     ["returned buffer and error", "effects in the scratch directory"], "model monitor over generated scripts with known output and status, run in a scratch directory, race detector on",
     "Held on the scripts run. Needs sh and coreutils.", race=True, assumptions=FS)
prop("C44", "Chunked uploads stay inside the upload directories",
     """No file name or digest given to the chunked-upload helpers makes them create, read, change or remove anything outside their two directories, or another upload's files: empty names, ".", ".." and names with a separator are refused
     with an error and nothing changes. All other names work.""",
     ["inputs"], "every file name and digest, in particular hostile ones",
     "No test exists for this code, and only hostile names show the fault.",
     ["help/utils/breakpoint_continue.go"], [("name check before any path is built", "BreakPointContinue, MakeFile, RemoveChunk")],
     ["the whole scratch tree around the upload directories before and after"], "containment monitor: whole-tree comparison, as an unprivileged user in a scratch directory",
     "Held on the names run.", assumptions=FS)
prop("C45", "URL and path helpers judge and build correctly",
     """A URL path called same-site never takes a browser to another host or scheme, and every path of a slash and a plain character is called so; a path not called malicious stays below any directory it is joined to, and only absolute paths and ones with ".." are called so.
     A built link is the prefix and the key/value pairs in order, joined by single slashes, without pairs that have an empty key or value 0 and without an odd last argument. File names are judged by their last suffix, in any case.""",
     ["inputs"], "every text; link parts that are non-empty and hold no slash",
     "No test exists for this code.",
     ["help/utils/files.go", "help/utils/url.go", "help/utils/runtime.go"], [("first characters", "IsSameSiteURLPath"), ("parent steps", "IsMaliciousPath"), ("joining", "BuildUrl"), ("suffixes", "GetSuffixName, IsImage"), ("program directory", "GetCurrentDir")],
     ["results"], "semantic oracle (where a browser goes, where the joined path lies) over seeded hostile texts",
     "Held on the texts run. The browser is modelled by dropping tabs and line breaks and reading backslashes as slashes.")
prop("C46", "Conversions lose nothing and never surprise",
     """A decimal numeral converts to its value, to 0 when malformed and to the nearest limit when out of range, and integers survive being written and read. Cutting a text takes exactly the characters from start to end, and capitalising changes its first character only. A switch is on unless set off, contents are recognised by their signature, as exactly one kind; the directory of the day is that of the local calendar.""",
     ["inputs", "histories"], "every text; cuts within the text; every instant and time zone",
     "No test exists for this code.",
     ["help/utils/strings.go", "help/utils/ints.go", "help/utils/maps.go", "help/utils/files.go", "help/utils/times.go"], [("parsing", "StringToInt, StringToInt64"), ("characters", "Substr2, UpperFirst"), ("options", "GetSwitchFromOptions, SetSwitchFromOptions"), ("signatures", "IsTextFile, IsImageFile, IsPDFFile, IsVideoFile"), ("calendar", "GetTimeDir")],
     ["results"], "differential monitor against big-integer parsing, rune slices, a signature table and a calendar counted day by day on a virtual clock",
     "Held on the values run.", assumptions=[VCLK])
# ---------------------------------------------------------------- the whole
prop("C47", "What is held depends on the content, not on the history",
     """However long a component is used, the memory and goroutines it holds are bounded by its contents (at most by the most it ever held), not by the number of operations: limiters drop counters of slots gone by, timers stopped, tasks run, schedules ended, takers
     that gave up, channels and wheels shut down, removed elements and keys leave nothing behind, a growing ring's capacity stays within twice the most it held (or its initial size), and file, shell, text and database helpers hold nothing after they return.""",
     ["histories"], "every component and helper, every endless history on contents of bounded size",
     "Tests make a few calls; a leak of some bytes per call shows only after a hundred thousand.",
     ["common/limiter/sliding_window/sliding_window.go", "common/limiter/sliding_log/sliding_log.go", "common/container/meap/maep.go", "common/container/reap/reap.go", "common/container/list/list.go",
      "common/container/ringbuffer/unbounded/unbounded.go", "common/timer/delayqueue/delayqueue.go", "common/timer/timingwheel/bucket.go", "common/timer/timingwheel/timing_wheel.go", "help/utils/maps.go"],
     [("expiry of old slots", "TryAcquire of the sliding limiters"), ("growth only when full", "Grow"), ("removal from bucket and list", "Timer.Stop, bucket flush"), ("leaving on cancellation", "Take, Channel, Run")],
     ["reachable heap after garbage collection", "number of goroutines", "capacity of the growing ring", "child processes"],
     "heap and goroutine monitor around endless workloads (growth over a part ten times as long as the first one must vanish)",
     "Held on the workloads run: leaks of at least about eight bytes per operation show (two or more for the longest workloads); smaller ones do not.", limit=400, assumptions=[VCLK])
prop("C48", "Separate users do not disturb each other",
     """Functions of their arguments alone, file helpers on separate paths, uploads of separate files, database helpers on separate tables (of one database or several) and separate instances of every container, limiter, queue and wheel give, used by many
     goroutines at once, exactly the answers and effects they give when used alone, without data races: nothing hidden is shared.""",
     ["schedules", "inputs"], "every set of calls on separate data, every interleaving",
     "No test calls anything from two goroutines, and none runs under the race detector.",
     ["help/utils/strings.go", "help/utils/md5.go", "help/utils/files.go", "help/utils/zip.go", "help/utils/csv.go", "help/utils/maps.go", "help/utils/url.go", "help/utils/breakpoint_continue.go", "gorm_tools/gorm.go", "gorm_tools/update.go",
      "common/math/math.go", "common/container/list/list.go", "common/timer/timingwheel/timing_wheel.go", "common/timer/delayqueue/delayqueue.go"],
     [("no state beyond arguments and instance", "all packages")],
     ["every answer and effect, alone and among others", "race detector reports"],
     "differential monitor (the same seeded calls alone and among seven others) under the race detector",
     "Held on the interleavings run, 8 goroutines on 8 cores; races are only seen on executed paths.", race=True, limit=300, assumptions=[VCLK] + FS)
prop("C49", "Reload hangs up the parent process and nobody else",
     """Each call of Reload that succeeds sends the process that is the caller's parent at that moment exactly one hang-up signal (SIGHUP), and no other signal to it nor any signal to another process; a call that cannot do so returns an error and sends nothing.""",
     ["configurations", "histories"], "every parent, the original one or one that adopted the caller, any number of calls, with or without programs in the path",
     "No test exists for this code: a test would hang up the test runner.",
     ["help/utils/sys.go"], [("signal to the parent", "Reload")],
     ["signals counted by the parent, its parent, a sibling and the caller"], "signal-counting monitor over families of processes started for it, as an unprivileged user",
     "Held on the families run.", assumptions=["a POSIX system with a kill program"])
