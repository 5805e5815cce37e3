#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand after editing; the output is committed)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":["stingraykit/"+f for f in files],"mechanism":[{"name":n,"where":"stingraykit/"+w} for n,w in mech],"hook_needed":None}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":"stingraykit/"+w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Every emission reaches every connected handler once, in order",
  "An emission of a signal invokes every handler that stays connected for its whole duration exactly once, with the arguments as emitted, in connection order, also while other threads connect, disconnect and emit; a handler never sees two emissions of one emitter in the wrong order. A handler that throws does not prevent the remaining handlers from being invoked, and with an exception handler installed the exception reaches it exactly once. Handlers run without the signal's own internal lock, so connecting and disconnecting (also themselves) from inside a handler or from a thread the handler waits for, and emitting from inside a handler while no other thread emits, never deadlocks, and a connection or a connector may outlive the signal.",
  ["schedules","histories","fault_sequences"],"all interleavings of emitting, connecting and disconnecting threads, nested emissions, and handler exceptions at any invocation",
  "Unit tests run single fixed sequences; the copy of the handler list, the re-check under the lock and the iteration race only under interleavings no test selects.",
  ["signal/signals.h","signal/signal_policies.h","FunctionToken.h","Token.h"],
  [("handler list copied/iterated under the threading policy lock","signal/signals.h"),("per-handler task life token tester","thread/TaskLifeToken.h")],["handler invocations","emit call/return events"])
p("C02","A destroyed connection is a barrier: its handler never runs afterwards",
  "When resetting or destroying the token of a connection of a (thread-safe) signal returns in a thread that is not inside that handler, the handler is not running in any other thread and never starts again, and neither the handler nor anything it captured is used later (other than being destroyed). The same holds for handlers connected through an executor (queued but not yet started invocations are dropped) and when the signal itself is being destroyed, or emitting, at the same time. A handler may reset its own token while it runs without deadlock, and is not invoked after that run.",
  ["schedules","histories"],"every interleaving of one or more emitting threads, an executor thread, and one or more disconnecting threads, including self-disconnection and destruction of the signal",
  "Whether a disconnect can slip between the liveness check and the call depends on where the scheduler preempts; tests never control that and a sleep-based test samples one order.",
  ["signal/signals.h","FunctionToken.h","Token.h","thread/TaskLifeToken.h","thread/TaskLifeToken.cpp"],
  [("FutureExecutionTester / LocalExecutionGuard rw-like life token","thread/TaskLifeToken.cpp"),("Token destruction releases the life token","FunctionToken.h")])
p("C03","Late subscribers and observers see a state plus every later change",
  "Connecting a handler (with sending of the current state) to a signal with a populator or to an observable value delivers the state at one instant and afterwards every later change exactly once and in order, with no change lost or repeated between the two, so that an observer that applies what it receives always equals the observed state once it is quiet. The value read back by the writer's thread and by any reader is the last one set, and a set of an equal value notifies nobody.",
  ["schedules","histories"],"all interleavings of setters, readers and threads that connect and disconnect observers",
  "The gap between reading the current state and registering the handler is a schedule-dependent window; existing tests connect before changing anything, in one thread.",
  ["ObservableValue.h","signal/signals.h","signal/signal_policies.h","collection/ObservableDictionaryKeyValue.h"],
  [("connect under the external mutex with SendCurrentState","signal/signals.h"),("Set: compare, store and emit under signal_locker","ObservableValue.h")])
p("C04","A task executor runs each accepted task exactly once, serially, in order",
  "Every task added to a thread task executor is run exactly once in the executor's thread, never concurrently with another task of it, tasks added by one thread run in the order they were added, and what the adding thread wrote before is visible to the task. A task that throws does not disturb later tasks, and its exception reaches the exception handler exactly once; a task whose life token was released before it starts is never run. Destroying the executor runs what was queued before and returns only when no task is running or will run.",
  ["schedules","histories","fault_sequences"],"all interleavings of adding threads, the worker, token releases and destruction at any moment, with tasks that throw or add tasks",
  "Loss, reordering or double run happens only at particular interleavings of the queue swap, wake-up and shutdown.",
  ["thread/ThreadTaskExecutor.h","thread/ThreadTaskExecutor.cpp","thread/ITaskExecutor.h","thread/TaskLifeToken.cpp"],
  [("queue, mutex, condition variable, worker loop and drain on stop","thread/ThreadTaskExecutor.cpp")])
p("C05","A threadless executor runs accepted tasks exactly once when polled",
  "Tasks added from any thread to a threadless task executor are run only inside ExecuteTasks, exactly once, one at a time and in the order added (per adding thread), even when several threads add and several poll; ExecuteTasks leaves no task that was added before it was called un-run once it and all concurrent calls have returned, unless its token was cancelled or the tasks were cleared. A throwing task does not stop the others and tasks with a released life token are not run. ClearTasks drops only tasks that have not started.",
  ["schedules","histories","fault_sequences"],"all interleavings of adders, pollers, clearers and life-token releases, with throwing tasks and cancellation at any point",
  "Concurrent pollers and re-entrancy need chosen interleavings; tests use a single thread.",
  ["thread/ThreadlessTaskExecutor.h","thread/ThreadlessTaskExecutor.cpp"],
  [("task queue swap and single active executor","thread/ThreadlessTaskExecutor.cpp")])
p("C06","A thread pool bounds concurrency and runs each accepted task exactly once",
  "A thread pool never runs more tasks at once than its maximum number of threads; a task for which queueing reported success is run exactly once before the pool's destruction completes or is dropped only by that destruction, and a task whose queueing failed or threw is never run. Waiting to queue succeeds once a worker becomes free and reports cancellation or timeout otherwise; a task that throws leaves the pool usable with its full capacity. Tasks run without the pool's own locks, so queueing while holding a lock the tasks take never deadlocks. No task runs after the pool is destroyed.",
  ["schedules","histories","fault_sequences"],"all interleavings of queueing threads, workers, cancellations, throwing tasks and destruction",
  "The free-worker search, the hand-over of a task to a worker and capacity recovery race; tests start a few tasks and sleep.",
  ["thread/ThreadPool.h","thread/ThreadPool.cpp"],
  [("worker wrappers with a task slot, idle flag and condition variable","thread/ThreadPool.cpp")])
p("C07","Timers fire exactly once, never early, in deadline order, and can be cancelled",
  "A one-shot timer task runs exactly once and never before its delay has elapsed, tasks with well separated deadlines run in deadline order and tasks added with AddTask run in the order added, a periodic task keeps running about once per interval and never concurrently with any other task of that timer. Once resetting a task's token returns in another thread the task is not running and never runs again, a task that throws does not stop the timer, and tasks run without the timer's own locks, so a timer may be set while holding a lock the tasks take. Every task due is run within a bounded time however the clock of the day jumps, and destruction of the timer completes and leaves nothing running.",
  ["schedules","histories","fault_sequences"],"all interleavings of scheduling, cancelling and the timer thread, arbitrary delays including zero and far future, stalled threads, wall clock jumps, spurious wake-ups and throwing callbacks",
  "Needs control of time and of the instants at which wake-up, insertion of an earlier deadline and cancellation meet; tests sleep for real and cover a handful of orders.",
  ["timer/Timer.h","timer/Timer.cpp","thread/TaskLifeToken.cpp","time/ElapsedTime.cpp"],
  [("callback queue ordered by timeout, wait with timeout, wake on earlier insert","timer/Timer.cpp")])
p("C08","A deferred execution happens once, after its delay, unless superseded",
  "A deferred function runs exactly once and not earlier than its delay after the last Defer call; each Defer call supersedes the previous pending one, and after Cancel (while no other Cancel is under way) or destruction of the deferrer returns in another thread the function is not running and does not run until deferred again. The function runs without the locks deferring takes, so deferring while holding a lock the function takes never deadlocks.",
  ["schedules","histories"],"all interleavings of Defer and Cancel from several threads, the timer thread, and delays around the deadlines",
  "The window between the deadline firing and a concurrent Defer or Cancel is schedule and clock dependent.",
  ["timer/Timer.h","timer/Timer.cpp"],
  [("ExecutionDeferrer re-arms and cancels the timer connection under its mutex","timer/Timer.cpp")])
p("C09","Cancellation always wakes a cancellable wait, and only the truth is reported",
  "Cancelling a token (directly, by a deadline, or through a token that joins others) makes every cancellable blocking wait that uses it return within bounded time, whatever moment it happens at, and a wait reports cancelled only if its token was cancelled (or had already expired), timed out only if its time has passed, and signalled otherwise. A registered cancellation handler is called exactly once per cancellation unless it was unregistered first; once unregistering reported success the handler is never called, and otherwise waiting for it returns only after the call finished. A sleep on a token lasts its full time unless cancelled, and a token that is not cancelled never reads as cancelled.",
  ["schedules","histories","fault_sequences"],"all interleavings of Cancel, Reset, handler registration and waiting threads, spurious wake-ups, deadlines, and joined or timed tokens already cancelled at the start",
  "Lost cancellations are windows of a few instructions between registering the handler and starting to wait.",
  ["thread/CancellationToken.h","thread/CancellationToken.cpp","thread/JoiningCancellationToken.h","thread/JoiningCancellationToken.cpp","thread/TimedCancellationToken.h","thread/TimedCancellationToken.cpp","thread/ConditionVariable.h","thread/posix/PosixConditionVariable.cpp"],
  [("handler registration protocol TryRegister/TryUnregister/Unregister","thread/CancellationToken.cpp"),("condition variable wait with registrator","thread/ConditionVariable.h")])
p("C10","Blocking primitives lose no wake-up and grant exactly what was released",
  "A mutex is held by at most one thread and recursively by it; a condition variable wakes every waiter on broadcast and a timed wait never returns timed out early; a semaphore lets through exactly as many waits as its initial count plus broadcasts; a barrier releases its parties only when all have arrived, all of them, and is then reusable. A synchronized value and a semaphore used as a lock obey the same exclusion, and timed variants fail only after their time. Each waiting thread proceeds within bounded time once what it waits for is granted.",
  ["schedules","histories","fault_sequences"],"all interleavings of waiting and releasing threads with spurious wake-ups, EINTR from the semaphore and sleep calls, stalls and clock jumps",
  "Spurious wake-ups, interrupted calls and particular wake-up orders do not happen on demand in tests.",
  ["thread/Thread.h","thread/Barrier.h","thread/GenericSemaphoreLock.h","thread/ConditionVariable.h","thread/SyncValue.h","thread/posix/PosixSemaphore.cpp","thread/posix/PosixThreadEngine.cpp","thread/posix/PosixConditionVariable.cpp"],
  [("wrappers over pthread mutex, condition variable and semaphore","thread/posix")])
p("C11","A promise delivers one result to every future, and breaking it is reported",
  "The value or exception set on a promise is delivered to every shared future and every waiter, in any thread, exactly as set; a second set fails and changes nothing. A promise destroyed without a result gives broken promise to the waiters, a retrieved result is fully visible, and a wait or a timed wait on a future returns ready only if the result is there, timed out only after its time and otherwise as soon as the result is set or its token is cancelled.",
  ["schedules","histories","fault_sequences"],"all interleavings of setters, breaking, moving and waiting threads, cancellations, timeouts and exceptions thrown by value copies",
  "Tests set and get in one thread or with a fixed sleep.",
  ["future.h","function/AsyncFunction.h"],
  [("shared state with mutex, condition variable and result holder","future.h")])
p("C12","Shared ownership destroys an object exactly once and never resurrects it",
  "An object owned by shared pointers copied, moved, cast, reset and promoted from weak pointers in several threads is destroyed exactly once, after the last owner is gone and not before; promoting a weak pointer gives either null or an owner of a live object, and only null once destruction has begun. Unique-release succeeds for at most one owner and only when no other owner exists, and self-counted objects obey the same rules. A destructor that looks at the pointer through whose reset it is run never finds itself there. All writes made through any owner are visible to the destructor.",
  ["schedules","histories"],"all interleavings of copying, resetting, promoting and unique-releasing threads on the same object",
  "Reference count races show only in particular interleavings of single instructions.",
  ["shared_ptr.h","ref_count.h","self_counter.h","self_counter.cpp","thread/atomic/AtomicInt.h","ObjectPool.h"],
  [("atomic strong/weak counters, try-add on promotion","ref_count.h")])
p("C13","Process-wide instances are constructed once and never seen half-made",
  "However many threads request a singleton (plain, safe or phoenix) or run a call-once action at the same time, the instance is constructed exactly once, every caller gets the same completely constructed one, and a caller never proceeds before construction has finished. If construction throws, the exception reaches the caller as documented and a later or concurrent request does not see a half-made instance or deadlock. A safe singleton is never handed out after its destruction began, and the last reference destroys it once.",
  ["schedules","fault_sequences"],"all interleavings of first use by several threads, slow and throwing constructors",
  "The first use happens once per process, so a test exercises a single interleaving of it.",
  ["Singleton.h","SafeSingleton.h","PhoenixSingleton.h","thread/call_once.h","thread/posix/PosixCallOnce.h","thread/posix/PosixCallOnce.cpp","lazy.h"],
  [("call_once guarded static storage","Singleton.h"),("mutex and life reference","SafeSingleton.h")])
p("C14","Pipes deliver the written bytes in order, once, and never hang",
  "The bytes read from a pipe are the bytes written to it, in order, with none lost, repeated or altered, for every split into reads and writes by concurrent threads; the counts returned by reads and writes are what was really transferred, a write that fails, is cancelled or times out has passed at most a beginning of its data and its memory is not used later, and writes of several threads through a synchronized pipe are not mixed. A blocked reader or writer returns within bounded time once the other side can proceed or its token is cancelled, also after failed calls of other threads. Adapters (buffered pipe, pipe reader, pipe data source) pass the same bytes over short reads, failures, cancelled reads and consumers that take a part, refuse or throw, and then the end.",
  ["schedules","inputs","fault_sequences"],"all interleavings of one reader and one writer (several where the pipe is synchronized), arbitrary chunk sizes, cancellations and timeouts in the middle of a transfer, and failing underlying pipes",
  "Tests move one or two fixed chunks between two threads.",
  ["io/BithreadPipe.h","io/SynchronizedPipe.h","io/BufferedPipe.h","io/BufferedPipe.cpp","io/PipeReader.h","io/PipeReader.cpp","io/PipeDataSource.h","io/PipeDataSource.cpp"],
  [("rendez-vous of reader and writer under a mutex and condition variables","io/BithreadPipe.h")])
p("C15","A shared byte buffer passes the stream through intact, then its end",
  "Bytes accepted by a data buffer, a shared circular buffer through its consumer and source, a circular buffer or a mediator come out in order, exactly once and unaltered, in whole packets of the requested size, also when the consumer takes only whole packets of what it is given, refuses or throws; without discarding nothing accepted is lost and a full buffer only makes the producer wait (or be refused), with it only what is reported as overflow (a circular buffer: only the oldest data) is dropped. End of data and an exception are delivered only after all data before them, data being read is not changed, and a reader or writer blocked on the buffer returns within bounded time when data or space appears, the end is set, or its token is cancelled. Reported sizes are real and never exceed the storage, and clearing drops exactly what was buffered and makes the whole storage usable.",
  ["schedules","inputs","fault_sequences"],"all interleavings of one producer, one consumer, a clearing/observing thread, cancellation at any point, arbitrary chunk, buffer, alignment and padding sizes, and consumers that take only part of what they are given or throw",
  "The wrap-around, partial consumption and end-of-data conditions meet thread switches in combinations tests do not enumerate.",
  ["io/DataBuffer.h","io/SharedCircularBuffer.h","io/BithreadCircularBuffer.h","io/CircularBufferBase.h","io/MemoryCircularBuffer.h","io/BufferedDataConsumer.h","io/BufferedDataSource.h","io/BufferedDataMediator.h"],
  [("circular buffer with separate read and write locks","io/BithreadCircularBuffer.h"),("cancellable waits for data and for space","io/SharedCircularBuffer.h")])
p("C16","Packets pass through a packet buffer whole, in order, with their metadata",
  "Every packet accepted by a packet buffer is delivered to the consumer exactly once, whole, in order and together with its own metadata, for every packet size that fits; without discard a full buffer makes the producer wait, with it packets are dropped only whole. A packet the consumer refuses (or throws on) is offered again and not lost, end of data arrives after all packets, blocked sides (several writers, one reader) return within bounded time when they can proceed or are cancelled, and clearing, which is refused while a packet is being consumed, leaves no stale packet or metadata.",
  ["schedules","inputs","fault_sequences"],"all interleavings of producer, consumer and clearing thread, packet and buffer sizes around the wrap-around point, refusing and throwing consumers, cancellation at any point",
  "Padding at the wrap-around together with a concurrent reader and refusals is reached only by chance in tests.",
  ["io/PacketBuffer.h","io/CircularBufferBase.h","io/BithreadCircularBuffer.h","io/IDataSource.h"],
  [("packet queue beside a circular byte buffer, padding at its end","io/PacketBuffer.h")])
p("C17","A paged buffer returns exactly the appended bytes at any position",
  "The bytes read from a paged buffer are exactly the bytes pushed, in order, for every page size and every sequence of pushes, reads, seeks and pops, also when threads push while another reads and another pops or seeks; popping discards exactly the requested number of bytes from the front and sizes add up. A page that fails to read or write makes that call fail (a failed push has appended nothing or a prefix) without corrupting, losing or repeating bytes already acknowledged, and blocked calls return within bounded time when there is data or they are cancelled.",
  ["schedules","inputs","fault_sequences"],"all interleavings of a pushing thread with a reading/popping thread, page sizes, seeks, and failing or short page reads and writes",
  "Tests use in-memory pages that never fail and a single thread.",
  ["io/PagedBuffer.h","io/PagedBuffer.cpp"],
  [("list of pages with head and tail offsets under a mutex","io/PagedBuffer.cpp")])
p("C18","An asynchronous byte stream stores what was accepted, in order",
  "After a successful sync (or orderly destruction) the underlying stream holds exactly the result of applying all accepted writes and seeks in order, wherever the underlying stream writes short, stalls or is slow; the number of bytes reported as accepted is what will be written and the reported position follows it. A failed underlying write is reported to the writer or to sync and never hidden, later data is not written out of place, and writes never block while syncs and destruction return within bounded time as long as the underlying stream makes progress or fails.",
  ["schedules","inputs","fault_sequences"],"all interleavings of the writing thread with the background thread, short, failing and stalled underlying writes and seeks, cancellation at any point, buffer sizes and reconfigurations",
  "Queue merging, overflow waits and failure paths depend on how far the background thread has got.",
  ["io/AsyncByteStream.h","io/AsyncByteStream.cpp","io/CircularBufferBase.h"],
  [("operation queue merged with a circular buffer, background writer thread","io/AsyncByteStream.cpp")])
p("C19","Stream adapters are transparent over short, failing and interrupted I/O",
  "Reading, seeking and writing through a buffered stream, an offset/window stream, a data source reader, packeter, aligner or copy helper gives the same bytes at the same positions as the underlying stream or source itself, for every pattern of short reads and short writes, partial consumption, cancellation and I/O errors in between. Nothing outside the underlying data is ever returned, nothing is skipped or repeated after an error or a short transfer, and the reported counts and positions are the real ones; after an operation ended by an exception the position is the one Tell() reports. Data a consumer did not take (or took before failing itself) are offered again by the next Read().",
  ["inputs","fault_sequences","histories"],"all sequences of operations with arbitrary sizes and positions (also past the end), buffer sizes and alignments, short transfers, exceptions and cancellation at any underlying call",
  "Tests use full transfers from memory streams; short transfers and errors in the middle are not sampled.",
  ["io/BufferedStream.h","io/ByteStreamWithOffset.h","io/ByteStreamWithOffsetAndSize.h","io/DataUtils.h","io/DataSourceReader.h","io/DataSourceReader.cpp","io/DataPacketer.h","io/DataAligner.h","io/IDataSource.h","io/IByteStream.h","io/MemoryByteStream.h","io/ChunkedMemoryByteStream.h","io/ByteStreamDataSource.h","io/IntermediateDataBuffer.h"],
  [("position bookkeeping of each adapter","io/BufferedStream.h")])
p("C20","Transactions on collections are isolated, atomic and announced exactly",
  "At most one transaction on a transactional list, set or dictionary is open at a time and a second one starts only after the first is gone or is cancelled while waiting; its uncommitted changes are visible only through it. A commit makes all of them visible at once, and observers are told exactly the difference between the states before and after, in commit order, and what is announced turns the old state into the new one when it is replayed with Apply; a revert, an abandoned transaction or a commit that fails changes and announces nothing. Readers and enumerators in any thread see one committed state, unaffected by later changes.",
  ["schedules","histories","fault_sequences"],"all interleavings of transactions, readers, enumerations and late subscribers in several threads, with every operation mix inside a transaction, failing allocations and cancelled waits (after an operation in a transaction failed, the transaction is reverted)",
  "Copy-on-write depends on which enumerators are alive at commit time in other threads; tests are single-threaded.",
  ["collection/TransactionalList.h","collection/TransactionalSet.h","collection/TransactionalDictionary.h","collection/TransactionHelpers.h","collection/TransactionalDictionaryKeyValue.h"],
  [("copy-on-write item holders, added/removed overlays, transaction flag and condition variable","collection/TransactionalDictionary.h")])
p("C21","Observable collections announce every change so that replicas converge",
  "A replica built only from the announced changes of an observable list, set, dictionary, multi-set or multi-dictionary equals the collection whenever the collection is locked, for subscribers joining at any time and for changes made concurrently by several threads. Every announcement describes a change that really happened and carries the right operation, key or position and value, one operation is announced without interleaving with another and amounts to what it returned (also if its predicate throws or memory runs out half way), and an enumeration or lookup at any time reflects a state that the collection really had.",
  ["schedules","histories","inputs"],"all interleavings of mutating, enumerating and (un)subscribing threads with all mutating operations, throwing predicates and failing allocations; comparers under which equivalent items are equal",
  "Unit tests are single-threaded; the window between snapshot and subscription, and enumeration during mutation, are not explored.",
  ["collection/ObservableListWrapper.h","collection/ObservableSetWrapper.h","collection/ObservableDictionaryWrapper.h","collection/SortedObservableMultiSet.h","collection/MultiMapObservableDictionary.h","collection/ObservableCollectionLocker.h","signal/signals.h"],
  [("mutate and emit under the external mutex","collection/ObservableDictionaryWrapper.h")])
p("C22","Threads run their function once, stop on request and are joined",
  "A started thread runs its function exactly once, sees what its creator wrote before, and the creator sees everything it wrote once destruction of the thread object or a join has returned. Destruction of the thread object cancels the thread's token and waits for its end (never leaving it running), a standard exception escaping the function does not take down the process, an interrupted thread unwinds at its next interruption point but never where interruptions are disabled, and per-thread data is private to each thread and released at its end.",
  ["schedules","fault_sequences"],"all interleavings of starting, interrupting, joining and finishing threads, with throwing and blocked thread functions, interruptions and failing allocations",
  "Tests start a few threads with generous sleeps.",
  ["thread/Thread.h","thread/Thread.cpp","thread/posix/PosixThreadEngine.cpp","thread/posix/PosixThreadEngine.h","thread/posix/ThreadLocal.h"],
  [("thread data shared with the new thread, exit semaphore/join, cancellation token","thread/posix/PosixThreadEngine.cpp")])
p("C23","Releasing a life token waits for the running call and forbids new ones",
  "After releasing a task life token returns in a thread that is not inside a guarded call, no call guarded by it is running in another thread and none starts again, for every number of concurrently guarded calls; before the release every guarded call is allowed. A cancellable or token-bound function, an asynchronous (executor-posted) function and an object token obey this rule: after the release nothing they captured is used, and release from inside the guarded call itself does not deadlock.",
  ["schedules","histories"],"all interleavings of several executing threads with one or more releasing threads, including release from inside the call",
  "The check-then-run window is only reachable by chosen preemption.",
  ["thread/TaskLifeToken.h","thread/TaskLifeToken.cpp","function/CancellableFunction.h","function/AsyncFunction.h","FunctionToken.h","ObjectToken.h","MultiToken.h"],
  [("life token with tester and mutual exclusion of execution and release","thread/TaskLifeToken.cpp")])
p("C24","Tokens, pools and undo actions release each resource exactly once",
  "A token, token pool, multi-token, holder, scope-exit or finalizer runs its release action exactly once, also if the action throws: when reset, when it is destroyed, or when the pool is released, and not before, also when several threads add and release concurrently and when building it fails half way; a pool or token holder shared by threads does not run the actions under its own lock. An action transaction that is not committed undoes exactly the actions that succeeded, in reverse order, also if actions or undo actions throw, and one that is committed undoes nothing.",
  ["schedules","fault_sequences","histories"],"all interleavings of adding, resetting and releasing threads, and an exception or failing allocation at any point",
  "Failing actions and concurrent release at chosen points are not sampled by tests.",
  ["Token.h","MultiToken.h","ActionTransaction.h","ActionTransaction.cpp","ScopeExit.h","Finalizer.h","Holder.h"],
  [("reverse-ordered rollback list","ActionTransaction.cpp"),("mutex-protected token container","Token.h")])
p("C25","Log messages reach every installed sink once and sinks detach safely",
  "Every message at or above the effective level is passed to each sink that stays installed, exactly once and in program order per logging thread, for any number of logging threads, and messages below the level are not. A message whose logging begins after the removal of a sink has returned is not passed to it, a sink is kept alive while it is called, a sink that throws does not affect the caller or the other sinks, and changing levels concurrently never loses, duplicates or tears a message; with hiding of duplicates every message that differs from the one before at its place is still passed. A level, backtraces or highlighting set for a logger's name hold for every logger of that name, existing or made later, until set anew, and for no other; set on a logger they hold for it alone.",
  ["schedules","fault_sequences"],"all interleavings of logging threads with installing and removing sinks, changing levels, and throwing sinks",
  "Logger tests are single-threaded.",
  ["log/Logger.h","log/Logger.cpp","log/LoggerStream.cpp","log/LoggerMessage.cpp"],
  [("sink list copied under a mutex, settings registry","log/Logger.cpp")])
p("C26","Watchdogs and reporters tell the truth and leave what they watch alone",
  "A profiling session that exceeds the asynchronous profiler's threshold is reported while it lasts, under its own name and about once per such period, and one that ended earlier is never reported; a profiler or profile session is reported exactly once at its end if it lasted longer than its threshold and not otherwise, whatever the day clock does, and the name and functions of a session are not used after it ended. A bandwidth reporter passes data, end of data and errors through unchanged, counts every byte taken exactly once, reports about once per its period also if a report was delayed, and not after its destruction. A restriction of thread operations affects exactly the thread that set it and exactly as long as the restricting object exists.",
  ["schedules","histories","fault_sequences"],"all interleavings of sessions beginning and ending in several threads with the watching thread, stalled threads, day clock jumps, short and failing transfers",
  "The reports depend on tens of seconds of real time and on the instant at which a session ends while the watcher looks at it.",
  ["diagnostics/AsyncProfiler.h","diagnostics/AsyncProfiler.cpp","diagnostics/Profiler.h","diagnostics/ProfileSession.h","BandwidthReporter.h","thread/ThreadOperation.h","thread/ThreadOperation.cpp"],
  [("intrusive list of sessions ordered by deadline under a mutex, watching thread","diagnostics/AsyncProfiler.cpp"),("transferred byte counter reported by a timer","BandwidthReporter.h")])
p("C27","Measured time follows the monotonic clock and the process time its shift",
  "Elapsed times, remaining times and checkpoint durations never go backwards, are never shorter or (apart from scheduling) longer than the time that passed, and do not follow jumps of the day clock. Setting the process time shifts the time of day of all threads at once by exactly the requested amount and leaves measurements and timed waits alone. Every checkpoint made between start and stop of a checkpoint profile, by any thread, appears in its result exactly once and in order.",
  ["schedules","histories","fault_sequences"],"all interleavings of measuring threads with threads that set the process time, jumps of the day clock in both directions and stalls at any point",
  "Tests cannot make the system clock jump between two particular reads of it.",
  ["time/ElapsedTime.h","time/ElapsedTime.cpp","time/RemainingTime.h","time/Time.h","time/Time.cpp","time/posix/TimeEngine.cpp","diagnostics/CheckpointProfiler.h","diagnostics/CheckpointProfiler.cpp"],
  [("monotonic microseconds, engine delta","time/posix/TimeEngine.cpp")])
p("C28","Atomic values are indivisible and publish what was written before",
  "Loads, stores, exchanges, compare-exchanges and arithmetic of atomic variables of every width and kind, atomic counters, atomic flags and sequence generators take effect indivisibly at one instant between their call and return, so that any concurrent history is explained by some sequential order; sequence generators never give one value twice. A spinlock admits one holder at a time, its try-lock reports the truth, and what was written before a release is visible after the acquire that sees it.",
  ["schedules","histories"],"all interleavings (at each machine-level access) of up to four threads working on one variable, with weak compare-exchange failing spuriously",
  "Lost updates need a preemption between two instructions; tests of atomics are single-threaded.",
  ["thread/atomic.h","thread/atomic/AtomicInt.h","thread/atomic/AtomicFlag.h","thread/atomic/Spinlock.h","IntegerSequenceGenerator.h"],
  [("compiler atomic builtins with explicit memory orders","thread/atomic.h")])
p("C29","A factory creates what was registered under a name, from any thread",
  "Creating an object by name gives a new object of exactly the class registered under that name in the factory context or, failing that, the nearest base context, from any number of threads and while others register; names that are not registered, or are registered a second time, are refused with an exception and change nothing. The name of a class is the first one it was registered under. A registration or creation that fails half way, because a constructor throws or memory runs out, changes nothing and can be repeated, and constructors may themselves use the factory.",
  ["schedules","histories","fault_sequences"],"all interleavings of registering, creating and querying threads over chains of contexts, with throwing constructors and failing allocations",
  "Tests register at start-up in one thread and never run out of memory.",
  ["factory/Factory.h","factory/Factory.cpp","factory/IFactoryObject.h"],
  [("creator and class name registries under one mutex","factory/Factory.cpp")])
p("C30","A cache holds the promised items and accounts for every item it evicts",
  "A FIFO, LRU or two-queue cache never holds more than its capacity after an operation, returns for a key the last value put under it and not evicted since, evicts in the promised order (oldest first; least recently used first; for the two-queue cache items used once before those used again) and only as much as is needed, and reports each evicted item exactly once. An insertion or lookup that fails half way, because copying a key or a value throws or memory runs out, leaves index, queue and accounted size in agreement: every held item is found, counted and eventually evicted, and nothing is counted that is not held.",
  ["inputs","fault_sequences","histories"],"all histories of puts, lookups, removals and resizes with copies and allocations failing at any point",
  "Tests check a few histories in which nothing fails; leaks of index or size show after a failure at one particular step.",
  ["collection/QueueCache.h","collection/TwoQueueCache.h"],
  [("map, queue and size changed in step","collection/QueueCache.h"),("two queues sharing one accounting","collection/TwoQueueCache.h")])
p("C31","Value holders stay whole through failing copies and self-assignment",
  "optional, variant, any, inplace_vector, function and shared_ptr hold exactly the value last stored. Assigning, emplacing, resizing, erasing or swapping, also from the holder itself or from its own content, gives the value asked for; if copying the value throws or memory runs out in the middle, the holder is left with its old value, empty, or (a container) with a prefix, as its interface allows, and never with a value half made. Every value constructed is destroyed exactly once, and none is used before its construction or after its destruction.",
  ["inputs","fault_sequences","histories"],"all histories of assignments, emplacements, swaps, self-assignments and destructions with any copy, construction or allocation failing",
  "Tests store and read; they do not make the n-th copy of an assignment fail.",
  ["any.h","variant.h","optional.h","collection/inplace_vector.h","function/function.h","shared_ptr.h"],
  [("construction in place after destruction of the old value","variant.h"),("inline or heap storage of a functor","function/function.h"),("object holder of any","any.h")])
p("C32","The parts of an associative container agree, also after failures",
  "Flat maps and sets, insertion-ordered maps and sets, bidirectional maps and reference-counting maps, sets, values and counters contain exactly what the history of successful operations says: index and order, both sides of a bimap, counts and items always agree, iteration, lookup and size tell the same, and values are created with the first reference and released with the last. An operation that fails because a copy, a comparison, a callback or an allocation fails leaves the old content (or a documented subset of it) and loses, duplicates or leaks no item; copies, moves, swaps and self-assignments give independent, equal containers.",
  ["inputs","fault_sequences","histories"],"all histories of insertions, removals, copies and reference operations with copies, callbacks and allocations failing at any point",
  "Tests do not make the second of two internal insertions fail.",
  ["collection/flat_map.h","collection/flat_set.h","collection/ordered_map.h","collection/ordered_set.h","collection/bimap.h","collection/RefCountingMap.h","collection/RefCountingSet.h","collection/RefCountingValue.h","collection/RefCounter.h"],
  [("list of items and index into it","collection/ordered_map.h"),("two maps pointing at each other","collection/bimap.h"),("counter next to each value","collection/RefCountingMap.h")])
p("C33","What a collection has handed out for reading stays as it was",
  "An enumerator, a reversed view or a found range obtained from a list, set, multi-set, dictionary or multi-dictionary shows exactly the content of the moment it was obtained, whatever is done to the collection afterwards, in whatever thread it is read and even after the collection is destroyed. The collection itself contains exactly what the history of operations says, and an operation that fails because a copy or an allocation fails leaves both the collection and everything handed out before as it was.",
  ["inputs","fault_sequences","histories","schedules"],"all histories of changes and reads, with readers in other threads, failing copies and failing allocations, over every kind of collection",
  "Copy-on-write shows only when a change happens while an old enumerator is alive and some step of the copy fails or another thread reads.",
  ["collection/GenericList.h","collection/GenericSet.h","collection/GenericDictionary.h","collection/MultiMapDictionary.h","collection/SortedMultiSet.h","collection/ArrayList.h","collection/SortedSet.h","collection/MapDictionary.h"],
  [("container shared with enumerators, copied on write","collection/GenericList.h"),("container shared with enumerators, copied on write","collection/GenericDictionary.h")])
p("C34","A view of a collection shows and announces what the collection does",
  "A set of the keys of a dictionary and a casting view of a list, set or dictionary always contains the image of its source, converts arguments back, and changes to it are changes of the source. It announces to its observers, under its synchronization root, every change of the source exactly once and in order, so that an observer connected at any time which applies what it receives always equals the view; the views of transactional collections announce each commit as one set of differences. A view, its connections and enumerators may be used and destroyed in any thread while the source changes.",
  ["schedules","histories"],"all interleavings of threads changing a source, reading, observing and destroying views of it",
  "Tests look at a view of a source that does not change meanwhile, in one thread.",
  ["collection/DictionaryKeysSet.h","collection/DictionaryCaster.h","collection/ListCaster.h","collection/SetCaster.h"],
  [("forwarding of OnChanged through the view's own populator","collection/DictionaryKeysSet.h"),("casting of the announced operations","collection/DictionaryCaster.h")])
p("C35","A compressed stream gives back what went into it",
  "Decompressing what a PPM dictionary compressed gives exactly the bytes that went in and then their end, once, whatever pieces the source hands over, whatever the consumers take or refuse at any moment, however often a read of the medium fails or is cancelled and repeated, and in whatever threads the two sides run with the dictionary shared; the compressed bytes depend on the text and the dictionary alone. Decompressing a stream that was cut short ends, by an error or by an end, and never goes on for ever.",
  ["inputs","fault_sequences","schedules"],"all texts, dictionaries, pieces, refusals, failing and cancelled reads, cuts and damages of a compressed stream, and interleavings of threads sharing a dictionary",
  "The repository has no test of the compression at all; its end of data fails for about half of all texts, and only some pieces and refusals reach the ends of its buffers.",
  ["compression/ArithmeticCoder.h","compression/ArithmeticDecoder.h","compression/ppm/PpmCompressor.h","compression/ppm/PpmDecompressor.h","compression/ppm/PpmModel.h","compression/ppm/PpmDictionaryBuilder.h"],
  [("ring of bits between coder and consumer","compression/ppm/PpmCompressor.h"),("ring of bits between source and decoder","compression/ppm/PpmDecompressor.h"),("underflow bits and their flush","compression/ArithmeticCoder.h")])
# not applicable to the technique: pure functions of their input
def na(id,title,st,files):
    p(id,title,st,["inputs"],"all inputs","Pure function of its input; tests sample a few inputs.",files,[("pure computation",files[0])])
na("N01","Text conversion and formatting round-trip",
   "Converting a value to text and back, formatting, number parsing, hex, UTF-8/UTF-16 transcoding and transliteration return the value they started from or report an error, for every input.",
   ["string/ToString.h","string/StringParse.h","string/lexical_cast.h","string/Unicode.cpp","locale/StringCodec.cpp","locale/Translit.cpp"])
na("N02","Serialization round-trips values",
   "Deserializing what was serialized gives back an equal value for every serializable value, and malformed input is rejected with an exception.",
   ["serialization/Serialization.h","serialization/Composite.h","serialization/SettingsValue.h"])
na("N03","Arithmetic and numeric types are exact or report overflow",
   "Big numbers, decimals, rationals, fixed point numbers and ranges compute the mathematically right result or report overflow.",
   ["BigNum.h","Decimal.h","Rational.h","fixed_point.h","math.h"])
na("N04","Calendar and time conversions agree",
   "Converting a time to a broken-down, ISO 8601, NTP or MJD form and back gives the same time for every representable time and time zone.",
   ["time/Time.cpp","time/BrokenDownTime.cpp","time/NtpTimestamp.cpp"])
na("N05","Ranges and enumerable combinators compute what they are defined to",
   "Filtering, casting, joining, merging, sorting, grouping, aggregating and comparing ranges and enumerables gives the elements its definition says, and intrusive lists link exactly the nodes inserted.",
   ["collection/EnumerableHelpers.h","collection/Range.h","collection/IntrusiveList.h","collection/iterators.h"])
na("N06","Type-erased values give back only the type that was stored",
   "Asking any, variant, a tuple or a type list for a type finds it by the rules of the type system and refuses every other type.",
   ["any.h","variant.h","Tuple.h","metaprogramming/TypeList.h"])
na("N07","Codecs and bit readers agree with their definitions",
   "Compression, Huffman coding, bit streams and bit getters decode what their encoders produce and never read outside the given data.",
   ["compression","io/BitStream.h","BitsGetter.h"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=True)+"\n")
print(len(P))
