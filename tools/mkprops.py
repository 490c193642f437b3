"""Writes /verif/properties.jsonl."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":mech,"where":", ".join(files)}]}
    if state: a["state"]=state
    if observe: a["observe_at"]=[observe]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
L="src/lib.rs";TB="src/thingbuf.rs";ST="src/static_thingbuf.rs";M="src/mpsc.rs";A="src/mpsc/async_impl.rs";B="src/mpsc/blocking.rs";E="src/mpsc/errors.rs";WC="src/wait/cell.rs";WQ="src/wait/queue.rs";R="src/recycling.rs";U="src/util.rs";SM="src/util/mutex/spin_impl.rs"
H="cfg thingbuf_mc: atomics, cells, locks, parking and the clock are routed to the checker's scheduler"
p("P01","Queue delivers every element exactly once, in FIFO order",
 "For any set of threads pushing to and popping from one heap-allocated or static queue, by value or by in-place reference, every element whose push completed is obtained by exactly one pop, unmodified, and no pop ever yields anything that was not pushed. Elements come out in the order their slots were claimed: if one push finished before another began, their pops begin in that order, and this holds for every capacity and after any number of laps around the ring.",
 ["schedules","inputs","histories"],"All interleavings (with weak-memory outcomes) of concurrent push/pop/push_ref/pop_ref mixes, every capacity incl. 1 and non-powers of two, every number of earlier laps.",
 "Loss, duplication or reordering needs two threads to collide on one slot between loading an index and claiming it, typically around a lap boundary; a test run samples a few of those schedules.",
 [L,TB,ST],"Two monotonically advancing index words carrying index, lap and a closed bit, plus a per-slot sequence number that hands each slot alternately to one pusher and one popper.","return values of the queue's push/pop operations",hook=H)
p("P02","Capacity bound, and truthful Full / Empty answers",
 "A queue or channel of capacity N never holds more than N elements (counting reservations still held), and in the absence of overlapping operations accepts exactly N of them. A push or try-send is refused as full only if at some moment during the call the ring had no free slot in turn (all N occupied or still held by an unfinished operation), a pop or try-receive reports empty only if at some moment during the call no completed element was next in line, and a refused value is handed back to the caller intact.",
 ["schedules","inputs","histories"],"All operation sequences up to a depth for each capacity, and all interleavings of racing pushes and pops at the full and empty boundaries.",
 "Off-by-one laps and stale index reads surface only at particular (capacity, lap, index) combinations or when a refusal races with the operation that frees the slot.",
 [L,TB,ST,M],"Comparison of a slot's sequence number with head/tail, followed by a re-read of the opposite index before declaring full or empty.","Full/TrySendError/TryRecvError/None results",hook=H)
p("P03","References give exclusive, race-free access to published data",
 "At any instant a slot is accessible through at most one live push or pop reference, and the receiver of an element observes all writes its producer made before releasing the reference, likewise the next producer observes the consumer's writes. No execution permitted by the language memory model contains a data race on elements, on stored wakers or on wait-list nodes, in any of the queue and channel types.",
 ["schedules"],"All interleavings and all stale-read outcomes permitted by the memory orderings the code requests, up to stated bounds.",
 "x86 test machines never exhibit the reorderings a weakened ordering allows, and overlapping references corrupt data only if both threads touch it in the same few nanoseconds.",
 [L,M,A,B,WC,WQ,SM],"Release store of the slot sequence number when a reference is dropped, acquire load before claiming it; field drop order in send/receive references; lock-protected wait list; bit-locked waker cell.","accesses to slot contents through references",hook=H)
p("P04","Every element is dropped exactly once and none is leaked",
 "Every element the library creates or accepts is dropped exactly once: by the consumer that took it, by being overwritten or recycled in place, or when the queue or channel that owns it is destroyed. Dropping a queue, or the last handle of a heap-allocated channel, with any mix of pushed, popped and never-used slots and from any thread, drops exactly the initialised elements, never touches uninitialised storage and frees the backing memory once.",
 ["schedules","histories","inputs"],"All operation histories up to a depth per capacity, ended by drop at every point; all interleavings of last-handle drops.",
 "Whether a slot is initialised depends on how many laps were made and at which index the history stopped; tests drop only from a few states, and a leak or double drop of a plain value is silent.",
 [L,TB,ST,A,B,R],"Number of initialised slots derived from the tail index and lap; by-value take replaces the slot's element; reference-counted shared state runs the slot destructor once.","drop count per element instance, live allocations at the end",hook=H)
p("P05","Pooled elements are created once, recycled before each reuse",
 "An in-place push (or send) hands out an element that is either freshly created by the policy or the slot's previous element after exactly one application of the policy's recycle step since its last use, so no data from an earlier message is visible beyond what the policy keeps. If elements are only taken by reference, each slot's element is created at most once for the queue's lifetime and its allocation is reused on every later lap; a by-value take replaces the element with a newly created one.",
 ["histories","schedules"],"All operation histories up to a depth, for every capacity, with default, capacity-limited and custom policies, and concurrent use.",
 "It depends on the slot's whole history (first lap or not, previously taken by value or by reference), and skipped recycling goes unnoticed when the test overwrites the element.",
 [L,R,TB,ST,M,A,B],"First-lap test selects creation versus recycling; by-value take is replace-with-new.","calls made to the user's Recycle policy and element identity seen by push_ref",hook=H)
p("P06","Built-in recycling policies: emptiness, bounds, equal defaults",
 "For every supported collection type and all configured minimum and maximum capacities, the capacity-based policy creates elements that are empty with at least the minimum capacity, and recycling leaves the element empty with its allocation kept if within the maximum and otherwise released down to it (as far as the collection permits). The default policy always yields an element equal to the type's default value, and sharing a policy behind a reference-counted pointer behaves like the policy itself.",
 ["inputs"],"All (collection type, minimum, maximum, prior length, prior capacity) combinations over a small domain.",
 "Every collection has its own copy of the code; tests cover one or two types at one capacity.",
 [R],"Per-type Recycle implementations calling with_capacity, clear and shrink_to.","emptiness and capacity of elements returned by new_element/recycle")
p("P07","Channels deliver every sent message once, in per-sender order",
 "In every channel flavour (async or blocking, heap or static), a message whose send succeeded is received exactly once and unaltered unless the receiver is dropped first, a send that failed or was abandoned delivers nothing, and messages from one sender arrive in the order they were sent (as do messages of different senders when one send completed before the other started). This holds whichever mix of waiting, non-waiting, timed, by-value, by-reference and iterator entry points is used.",
 ["schedules","inputs"],"All interleavings of 1-3 senders and a receiver over all entry points and flavours.",
 "Flavours and entry points are separate copies of the code and combine with every schedule of fill, wait, wake and close; tests run a few pairs once.",
 [M,A,B,L],"Queue core plus wait/notify; send entry points write through a reserved slot, receive entry points take from a claimed one.","results of send/recv operations",hook=H)
p("P08","A waiting receiver is never left asleep",
 "A receiver that is waiting (a blocked thread, or a task whose poll returned pending) is woken whenever a message is sent after it began waiting or the last sender goes away, so it never waits forever while a completed message is at the front of the channel or while no sender is left. Wakeups that race with the registration of the wait, with other senders or with spurious wakeups are not lost.",
 ["schedules"],"All interleavings of a waiting receiver with sends, reference drops, sender drops and spurious wakeups, in all flavours.",
 "A lost wakeup needs the notification to fall inside a window of a few instructions during registration; it shows up as a rare hang.",
 [M,WC,A,B],"Receiver registers in a single-slot waker cell with a small state machine (waiting, parking, notifying, closed) and re-checks the queue after registering; senders notify after releasing the slot.","a blocked or pending receive with a message available = deadlock",hook=H)
p("P09","Waiting senders are never stranded while capacity is available",
 "When the channel is full, senders wait; each time the receiver frees a slot at least one waiting sender is woken and can proceed, so no schedule ends with a sender waiting forever although slots are free and nobody else is going to use them, or although the receiver is gone. This holds for any number of waiting senders, mixed with non-waiting sends, spurious wakeups, several receive references released close together, and other senders giving up their wait.",
 ["schedules"],"All interleavings of 2-3 senders waiting on a full channel with receives, reference drops, cancellations and timeouts, all flavours and lock implementations.",
 "The hand-off between a stored notification, the waiter list and a waiter that leaves at the same moment has many rare orderings; tests exercise the uncontended ones.",
 [M,WQ,A,B,SM],"Intrusive list of waiters behind a lock with an atomic state (empty, waiting, waking, closed); each released receive reference notifies one waiter or stores one notification.","a blocked or pending send with capacity available = deadlock",hook=H)
p("P10","Sender-side disconnect: drain everything, then end, never early",
 "Once all senders are gone the receiver still obtains every successfully sent message, after which every receive operation reports the end of the stream and keeps doing so; while at least one sender exists no receive operation reports the end. The receiver's closed query is true exactly when all senders have been dropped, and handles may be cloned and dropped on any thread in any order.",
 ["schedules","histories"],"All interleavings of clone, send, drop of senders with a receiver using any receive operation, all flavours.",
 "An early or missing end-of-stream needs the last drop to race with the final receives, or a clone with a drop.",
 [M,A,B,L,WC],"Sender count; last decrement sets the closed bit in the tail index and the closed state in the waker cell.","None/Closed results and is_closed",hook=H)
p("P11","Receiver-side disconnect: all senders fail promptly, value returned",
 "Once the receiver is dropped, every send that starts afterwards fails as closed and gives the unsent value back, and every sender waiting at that moment is woken and fails as closed. No send waits forever or panics because of the disconnect, whatever the interleaving of the drop with sends, waits and cancellations, and already queued messages are destroyed with the channel.",
 ["schedules","histories"],"All interleavings of dropping the receiver with racing, waiting, timed and cancelled sends, all flavours.",
 "The drop must race with a sender between its full check and its registration; the window is tiny.",
 [M,A,B,L,WQ],"Closed bit in the tail index, then wait-list close marks and wakes every waiter.","Closed results; blocked sends after receiver drop",hook=H)
p("P12","Dropping a pending send or receive is harmless to everyone else",
 "A send or receive future may be dropped at any point (never polled, pending, already woken, or racing with its wakeup) and the channel stays fully usable: the dropped operation transfers nothing, leaves no dangling registration behind and its memory is not touched afterwards. A wakeup already granted to a dropped send is passed on so that the other waiting senders and the receiver still make progress.",
 ["schedules","histories"],"Every drop point of each future against all interleavings of notifications, closes and other waiters.",
 "It needs a drop between wakeup and next poll, or simultaneous with the notifier unlinking the node; the effect (a hang or freed-memory access) is elsewhere.",
 [A,WQ,M],"Pinned drop of the send future unlinks its intrusive list node under the lock.","hang, freed-memory access or lost message after a future is dropped",hook=H)
p("P13","Timed operations: honour the timeout and leave no trace",
 "A timed blocking send or receive returns by its deadline with a timeout error unless it could complete or the channel was closed; it never reports a timeout before the duration has elapsed, and a timed-out send hands its value back and delivers nothing. After a timeout the operation has no lasting effect: no later operation touches its stack frame, and messages, capacity and wakeups remain available to others.",
 ["schedules","fault_sequences"],"All interleavings with the timer firing at any point, including simultaneously with a wakeup, and spurious wakeups.",
 "The timer must fire in the window in which another thread is handing the waiter a wakeup; wall-clock tests cannot place it there.",
 [B,WQ,WC],"Loop around a timed park with elapsed-time check; waiter node on the caller's stack.","result and time of *_timeout operations; later operations of others",hook=H)
p("P14","Non-waiting operations finish even if other threads stall",
 "Every operation documented as not waiting (push, pop, their by-reference forms, the try-send and try-receive forms, and size queries) returns within a bounded number of its own steps even if another thread is suspended indefinitely in the middle of its own push or pop or keeps a push or pop reference alive. A try-send does not wait for a receiver suspended in the middle of a receive either. Merely holding references on the same thread never makes them hang.",
 ["schedules","histories"],"Every point at which another thread can be frozen, and every set of held references, for each capacity.",
 "A hang requires one thread to be descheduled at an exact instruction while another reaches the same slot; tests do not suspend threads.",
 [L,TB,ST,M,U],"Optimistic retry loops with back-off in push and pop; retries only after another operation made progress, otherwise full/empty is reported.","number of own steps until return",hook=H)
p("P15","Size queries are exact when quiet and always within bounds",
 "With no operation in progress, the reported length equals the number of pushes begun minus pops begun, the remaining count is capacity minus length, and emptiness agrees with length, for every capacity, position and lap. Under concurrency every reported length lies between zero and the capacity and is consistent with the operations that completed before or overlapped the query.",
 ["histories","schedules"],"All operation histories up to a depth and several laps for each capacity; all interleavings of queries with pushes and pops.",
 "Length is computed from wrapped indices with separate cases for equal indices, so single (capacity, head, tail, lap) combinations can be wrong.",
 [L,TB,ST],"Snapshot of tail and head with a tail re-check, then index arithmetic.","len/remaining/is_empty/capacity results",hook=H)
p("P16","The most recently supplied waker is the one that is woken",
 "When a pending send or receive is polled again with a different waker, the next notification wakes the task of the latest waker, even if the notification races with the replacement. Wakers are never used after their release, and every stored waker is released when the operation completes, is dropped, or the channel is destroyed.",
 ["schedules","histories"],"All interleavings of re-polling with alternating wakers against notifications and closes.",
 "Executors normally poll with the same waker, and the replacement window is tiny.",
 [WC,WQ,M,A],"Waker cell replaces the stored waker under its bit lock; wait-list node compares and replaces the waker under the list lock.","which waker is invoked; waker reference counts at the end",hook=H)
p("P17","Panics in user code or with live handles do not wedge the channel",
 "If a thread panics while holding a push or pop reference or any channel handle, unwinding releases them normally: the slot becomes available, waiting peers are woken, and dropping the last sender or the receiver during unwinding disconnects the channel as usual. A panic raised by a user-supplied recycle step, by the cloning of a waker, or by a waker woken during a receive propagates to the caller without causing memory unsafety and leaves the channel usable by its peers. (Builds without the standard library assume that nothing unwinds.)",
 ["fault_sequences","schedules"],"A panic injected at each call into user code and at each point where handles and references are live, with concurrent peers.",
 "Tests contain no panicking users; the interesting state is what the other side sees during and after unwinding.",
 [L,M,A,B,WC,R],"Drop-based release of references and handles; wait cell catches and resumes panics raised while cloning wakers.","results of peers after a panic was caught",hook=H)
p("P18","Static variants: split once, then behave like the heap variants",
 "A static channel can be split exactly once however many threads try concurrently: exactly one attempt obtains the sender and receiver pair and the others are told it is taken. The resulting handles, and static queues, give the same observable results as the heap-allocated variants for every history, starting from a constant initialiser.",
 ["schedules","histories"],"All interleavings of concurrent splits; all operation histories up to a depth compared step by step with the heap variant.",
 "The static flavours are separate copies of each method; tests cover a handful of methods of each.",
 [ST,A,B,L],"Atomic once-flag for splitting; const-initialised slots with their initial sequence numbers.","split/try_split results; results of each operation in both variants",hook=H)
p("P19","Errors say what happened and give the value back",
 "Every failed operation reports the true reason (full, empty, timed out or closed): its variant, its classification queries and its printed message agree with each other and with the state of the channel, exactly one classification is true, and the closed classification is reported if and only if the peer is gone. Errors that carry a value always carry the very value that was offered.",
 ["inputs","histories"],"Every error variant produced by every operation over all small channel histories, in all flavours.",
 "Classification helpers are separate one-line functions per error type, mostly not touched by tests.",
 [E,L,M,A,B],"Error enums with with_value/into_inner/is_full/is_closed/is_timeout/is_empty helpers.","error values returned by operations")
p("P20","Bounded memory: no operation allocates or frees after construction",
 "Creating a heap-allocated queue or channel makes all the allocations it will ever make on its own account, and a static one makes none. After that no push, pop, send, receive, wait, wakeup, handle clone or size query allocates or releases memory (apart from what elements, recycling policies and wakers do themselves), however many senders or receivers wait and whatever the schedule, until the queue or channel is destroyed.",
 ["schedules","histories","inputs"],"All interleavings and operation histories of the other properties' scenarios, every flavour.",
 "An allocation on a slow path (contention, waiting, re-registration, cancellation) is invisible to results and happens only in the schedules that reach that path.",
 [L,TB,ST,M,A,B,WC,WQ],"Slots allocated once; waiters are intrusive list nodes inside the waiting future or stack frame; one waker cell for the receiver.","calls to the global allocator during library operations",hook=H)
p("P21","Waiting senders are woken first come, first served",
 "When the receiver frees a slot while senders are waiting, the sender that is woken is the one that has been waiting longest, so no waiting sender is overtaken by one that began to wait later, whatever other waits are cancelled or time out in between. A spurious wakeup, an extra poll or a changed waker does not cost a sender its place in the line, and on a channel with a single slot the messages of waiting senders arrive in the order in which the senders began to wait.",
 ["schedules","histories"],"All sequences of waiting, polling again, cancelling, sending and receiving with up to six waiting sends, and all schedules of up to three threads that queue up one after the other.",
 "An overtaking only shows as an unusual order of wakeups after a particular history of waits and cancellations; tests with several waiting senders accept any order.",
 [WQ,M,A,B],"Doubly linked list of waiters: enqueue at the head, wake from the tail, unlink in place.","order in which the wakers or threads of waiting senders are woken",hook=H)
p("P22","Waiting operations sleep instead of spinning",
 "A send or receive that has to wait goes to sleep (blocks its thread, or returns pending and stays quiet) within a bounded number of its own steps and uses no processor time until it is woken, unless another thread is at that moment in the middle of an operation on the same queue or channel. This also holds after it was woken in vain because somebody else took the slot or the message, and while references to slots are held by other threads.",
 ["schedules","histories"],"All interleavings and histories of the waiting scenarios, with vain wakeups, timeouts, cancelled waits and held references.",
 "A waiter that spins still delivers every message and passes every functional test; that it burns a processor shows only in the schedules in which it was woken in vain or a reference is held for long.",
 [WC,WQ,M,A,B],"State machine of waiters (waiting/woken/closed) decides between parking and retrying.","steps taken by a waiting operation while nothing else happens",hook=H)
p("P23","Channels can be combined freely without disturbing each other",
 "Threads and tasks may use any number of channels of any kinds together: no operation on one channel consumes, delays for ever or falsifies a wakeup, message or disconnect of another, so pipelines, rings, request/answer pairs and tasks that wait on several channels at once make progress whenever each channel by itself has to let them. This holds too while a reference into one channel is held and another one is waited on, when a receiver has moved to another thread, and when messages carry senders: a sender inside a message keeps its channel open exactly until that message is dropped.",
 ["schedules","histories"],"All interleavings of small programs of two or three channels: ping-pong, relay, ring, credit, select, join, request/answer, follow-up tasks, handover.",
 "Tests use one channel at a time; a wakeup that is merely late within one channel becomes a deadlock of a program of several.",
 [M,A,B,WQ,WC],"Wait queues and cells are per channel; blocking waiters share their thread's park token, tasks share one waker.","results of operations, deadlock of the composed program",hook=H)
p("P24","Leaked references and futures do no harm",
 "A reference or a pending future that is leaked (mem::forget) instead of dropped never causes undefined behaviour, a double drop or an operation that never returns although it does not have to wait: its slot stays occupied for good, is never handed out again, and a message behind a leaked write reference is never delivered. Everything else that was or can be delivered still arrives in order, disconnects are still reported to waiting receivers and senders, and all other elements are dropped exactly once with the queue or channel.",
 ["histories","schedules"],"All histories of up to 7 operations with leaks of read and write references and waiting sends on every queue and channel kind, ended by either side leaving; races of a leaking thread with others.",
 "Leaking is safe Rust but never tested: code that waits for a claimed slot to be released is correct for every reference that gets dropped.",
 [L,M,A,B],"Slot state word per slot; drop_slots by tail; closing with claimed slots.","results of operations after a leak, drop counts at the end",hook=H)
p("P25","User code called by the library may use the same queue or channel",
 "The library calls user code while it operates: it creates, recycles and drops elements, and it wakes and drops wakers (with which an executor may run or drop the woken task at once). That code may itself use the same queue or channel: send, receive, poll or drop pending operations, drop handles. Such a nested operation behaves as if another thread had called it at that moment: it never deadlocks or spins for ever, it loses or duplicates no message and no wakeup, and the outer operation then completes with the result it would have had.",
 ["histories"],"All sequences of operations on every queue and channel kind with, at every call into user code, every nested operation; up to two nested calls per history.",
 "A lock or a half-made transition that is held across a call into user code shows only when that very call comes back; tests use plain elements and executors that do nothing in wake and drop.",
 [L,M,A,WC,WQ],"push_ref/pop_ref recycle and assign elements in claimed slots; WaitQueue and WaitCell wake and drop wakers outside of their locks.","results of nested and outer operations, a call that does not return",hook=H)
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
import sys
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
