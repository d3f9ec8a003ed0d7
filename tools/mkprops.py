#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ring=("ring-buffer push/pop with per-slot generation counters","src/lib.rs: Core::push_ref, Core::pop_ref")
refdrop=("reference release publishes the slot","src/lib.rs: Drop for Ref")
rx=("receiver wait cell","src/wait/cell.rs: WaitCell")
tx=("intrusive sender wait queue","src/wait/queue.rs: WaitQueue, List, Waiter")
pr=("receive loop","src/mpsc.rs: ChannelCore::poll_recv_ref")
p("C01","Every accepted message is delivered exactly once, unaltered",
"Every value whose push or send reported success is handed out by exactly one pop or receive, with exactly the contents that were written, or is still queued when the queue is destroyed. Nothing is duplicated, invented, lost or altered, and a push or send that reported failure is never delivered.",
["schedules","histories","programs","configurations"],
"for every interleaving of any number of producers and consumers (one consumer for channels), every mix of by-value, by-reference and closure operations, every capacity and number of laps around the ring, on every flavour of queue and channel",
"The tests push a few values through fixed scripts; loom tests are not runnable here and cover 2-3 operations. Loss or duplication needs particular interleavings, lap counts and API mixes.",
["src/lib.rs","src/thingbuf.rs","src/static_thingbuf.rs","src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],
[ring,refdrop,("by-value take","src/recycling.rs: take")])
p("C02","Messages come out in the order in which they went in (FIFO)",
"If one push or send had acquired its place before another one was called, then the first one's message is received first; in particular, messages of one producer are never reordered. This holds across wrap-arounds of the ring, for references completed in a different order than they were acquired, and for senders that had to wait.",
["schedules","histories","configurations"],
"for every interleaving, every capacity, every number of laps, every order in which outstanding references are released",
"Tests observe order only for single-threaded or few-element runs; order errors need wrap-around combined with out-of-order completion.",
["src/lib.rs","src/mpsc.rs"],[ring,refdrop],
[("head/tail","next slot to pop / push, with generation","src/lib.rs: Core")])
p("C03","Capacity is a hard bound and full/empty/length reports are honest",
"A queue or channel of capacity N never holds more than N elements, and accepts a push whenever fewer than N are held and no reader still holds the place that is next in the ring; a pop reports empty only when no completed element was available. Capacity, length, remaining and emptiness agree with the elements actually held whenever no operation is in progress; a length reported while operations run is one the queue had at some moment of that call and never exceeds the capacity.",
["schedules","inputs","histories","configurations"],
"for every capacity from 1 up (powers of two or not), every number of laps, every interleaving of operations and of length queries with them",
"Unit tests use a handful of capacities and a single lap; off-by-one and wrap-around errors in index arithmetic appear only for particular capacity/lap combinations.",
["src/lib.rs","src/thingbuf.rs","src/static_thingbuf.rs"],
[("index/generation arithmetic","src/lib.rs: Core::new, Core::next, Core::idx_gen"),("length computation","src/lib.rs: Core::len"),ring])
p("C04","A reference grants exclusive access, and receivers see complete writes",
"While a push or pop reference to an element is held, no other thread or handle can read, write, recycle or be handed that element. Everything the producer wrote before completing the push happens-before the consumer's access, and everything the consumer did happens-before the slot's reuse, so no access to an element is ever a data race.",
["schedules","histories","configurations"],
"for every interleaving permitted by the language memory model (not just x86), every number of simultaneously outstanding references",
"On x86 a missing release or acquire is invisible to tests; overlap of two borrowers needs a specific interleaving.",
["src/lib.rs","src/loom.rs","src/mpsc.rs"],[ring,refdrop,("drop order: slot released before notification","src/mpsc.rs: SendRefInner, RecvRefInner")],
[("slot state","which lap may read or write the slot","src/lib.rs: Slot::state")])
p("C05","Elements are created, kept and dropped exactly once",
"Every element the queue creates or is given is dropped exactly once, no earlier than its last use and no later than when the queue or channel (with all its handles) is destroyed. No slot that was never filled is read or dropped, and nothing is leaked, whatever the fill level, lap count and order in which handles are dropped.",
["histories","inputs","schedules","configurations"],
"for every fill level, lap count, mix of by-value and by-reference operations, order of dropping handles and thread that drops last, on every flavour",
"Tests mostly use types without drop glue; double drops and leaks depend on lap count and on what remains queued at destruction.",
["src/lib.rs","src/recycling.rs","src/thingbuf.rs","src/static_thingbuf.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],
[("slot destruction","src/lib.rs: Core::drop_slots"),("by-value take","src/recycling.rs: take")])
p("C06","A waiting receiver never misses a wakeup",
"Whenever a receiver is asleep waiting for a message (in a blocking call, in a timed call or as a pending future or poll), a message whose send completes wakes it: it is never left asleep while a completed message is next in the queue. The most recently registered waker or thread is the one woken, also after spurious wakeups, task migration and cancelled receives.",
["schedules","histories"],
"for every interleaving of the receiver's going to sleep with any number of completing sends, and every sequence of polls with different wakers",
"A lost wakeup needs a send to land in a window of a few instructions during registration; tests pass with the window open.",
["src/wait/cell.rs","src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],[rx,pr,("notify after release","src/mpsc.rs: NotifyRx")])
p("C07","A waiting sender never misses a wakeup while messages are received",
"As long as the receiver keeps receiving, every waiting sender eventually gets capacity or learns of closure: it is never the case that the receiver has emptied the channel and gone to sleep while a sender is still asleep. A wakeup is never lost because it was assigned to a sender that gave up, was cancelled, or found the channel full again.",
["schedules","histories"],
"for every number of waiting senders, every interleaving of waiting, receiving, non-blocking sends, cancellation and timeouts",
"Needs several waiters and a notification racing with enqueueing or cancellation; the tests have at most two senders in a fixed script.",
["src/wait/queue.rs","src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],[tx,("notify on receive","src/mpsc.rs: NotifyTx"),("send future","src/mpsc/async_impl.rs: SendRefFuture"),("blocking send loop","src/mpsc/blocking.rs: send_ref, send_ref_timeout")])
p("C08","Dropping the last sender closes the channel after a complete drain",
"Once the last sender is dropped (also while its thread is unwinding from a panic), the receiver still gets every message sent before, then every receive reports closed, and a receiver that was asleep is woken. As long as any sender exists, or a message is still undelivered, no receive reports closed; the receiver's own closed query reports true exactly when no sender exists.",
["schedules","histories","fault_sequences"],
"for every interleaving of clones and drops of senders, outstanding messages and the receiver's state at that moment, including drops during unwinding",
"The tests drop one or two senders at fixed points; closing races with registration and with undelivered messages.",
["src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs","src/wait/cell.rs","src/lib.rs"],
[("sender count","src/mpsc/*.rs: Clone and Drop for Sender/StaticSender"),("close bit","src/lib.rs: Core::close"),("closing wait cell","src/wait/cell.rs: WaitCell::close_tx"),pr])
p("C09","Dropping the receiver fails all present and future sends",
"Once the receiver is dropped, every later send of any kind and every sender that is waiting at that moment fails with a closed error, and none sleeps for ever or reports success afterwards. No send reports closed while the receiver exists.",
["schedules","histories","fault_sequences"],
"for every number and state of waiting senders (about to wait, waiting, just notified, being cancelled) at the moment the receiver is dropped",
"Tests drop the receiver with at most one waiting sender in a fixed state.",
["src/mpsc.rs","src/wait/queue.rs","src/lib.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],
[("closing from the receiver","src/mpsc.rs: ChannelCore::close_rx"),("closing the wait queue","src/wait/queue.rs: WaitQueue::close"),("close bit","src/lib.rs: Core::close")])
p("C10","Cancelled and timed-out operations leave no trace",
"Dropping a pending send or receive future at any point, or a timed operation running out of time, neither sends nor consumes a message, leaves nothing of the operation behind that the channel may later touch, and does not disturb other waiting operations or take their wakeups. Other senders and the receiver proceed as if the operation had never been started.",
["schedules","histories","fault_sequences"],
"for every point of cancellation (before, during and after being notified), every position among other waiters, and every combination of several cancellations",
"Cancellation is exercised by one test with one waiter; the dangerous cases race a cancellation with a notification or with neighbours in the wait list.",
["src/wait/queue.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],
[("unlinking a waiter","src/wait/queue.rs: Waiter::remove, List::remove"),("future drop","src/mpsc/async_impl.rs: PinnedDrop for SendRefFuture"),("timeout exit","src/mpsc/blocking.rs: send_ref_timeout")])
p("C11","Timed operations return on time, never early, and never miss success",
"A timed send or receive that reports a timeout does so no earlier than its timeout and without sleeping beyond it, however often it is woken in between. It succeeds at once when it can, it is woken when it becomes able to succeed or the channel is closed before the timeout, and then, having time left, reports that and not a timeout.",
["schedules","inputs","histories"],
"for every timeout (zero to very large), every pattern of spurious wakeups and competing operations",
"Tests use one real-time timeout in a quiet channel and tolerate large errors.",
["src/mpsc/blocking.rs"],[("timed loops","src/mpsc/blocking.rs: recv_ref_timeout, send_ref_timeout")])
p("C12","Non-blocking operations never wait for another thread",
"The non-blocking pushes, pops, sends, receives and length queries always finish in a bounded number of their own steps once other threads stop interfering, even if those threads stopped in the middle of an operation or hold references indefinitely, and even if the caller itself holds references. They never sleep and report full, empty or closed instead of waiting (the one exception is the brief internal lock taken to wake a sleeping sender).",
["schedules","histories","fault_sequences"],
"for every point at which any set of other threads is suspended for ever, and every set of outstanding or leaked references",
"Tests never suspend a thread inside an operation and never call back into the queue with references outstanding.",
["src/lib.rs","src/util.rs"],[ring,("bounded back-off","src/util.rs: Backoff")])
p("C13","Recycling policies are applied exactly, and senders get clean elements",
"A producer is always handed either a newly created element or one recycled by the configured policy since its last use, so it never sees a previous message's contents, and by-value receives leave a new element behind. Apart from those, elements are reused: once every slot was filled no more are created. The provided policies do what they document: defaults reset to the default value, reusing the element's allocation where its clone_from does; capacity policies create with at least the minimum capacity, clear on recycling, keep the allocation, and shrink it to the maximum only when it is larger, for every collection type.",
["inputs","histories","programs"],
"for every collection type, every minimum and maximum, every content and capacity of the element, every lap count and operation mix",
"Only a few doc examples exercise the policies; which slot is new and which is recycled depends on the lap count.",
["src/recycling.rs","src/lib.rs"],[("policies","src/recycling.rs: Recycle, DefaultRecycle, WithCapacity"),("initialise or recycle on push","src/lib.rs: Core::push_ref")])
p("C14","No heap allocation after construction",
"After a queue or channel is constructed, none of its operations allocates heap memory, however many senders wait, whatever fails, is cancelled or times out; memory use is bounded by the capacity. Statically allocated queues and channels do not allocate at all.",
["histories","schedules","configurations"],
"for every operation of every flavour, every number of waiters, every outcome",
"No test measures allocation; an allocation on a slow path (waiting, cancelling, closing) is invisible to them.",
["src/wait/queue.rs","src/lib.rs","src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],[tx,ring])
p("C15","A static channel is split at most once",
"Of any number of concurrent or repeated attempts to split one static channel, exactly one obtains the sender/receiver pair; all others are refused (the fallible attempt reports failure, the infallible one panics), also after the handles were dropped. An unsplit or fully dropped static channel can be destroyed normally.",
["schedules","histories"],
"for every number of threads and every interleaving of split attempts, before, during and after use of the handles",
"The tests split twice sequentially at most.",
["src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],[("split flag","src/mpsc/*.rs: StaticChannel::try_split")])
p("C16","Panics in user code never corrupt the queue's memory or lose elements",
"If an element constructor, recycling policy, user closure or (with the standard library) the cloning of a waiting task's waker panics, or a thread unwinds while holding references, handles or pending operations, no element is dropped twice, read uninitialised, leaked or handed to two users, and the queue can still be dropped. When only the user's closure, that waker or the code between acquiring and releasing a reference panics, the reference is released and the queue remains fully usable.",
["fault_sequences","histories","schedules"],
"for every point at which user code can panic, every lap count and every other operation before and after",
"No test makes user code panic.",
["src/lib.rs","src/recycling.rs","src/wait/cell.rs","src/util/panic.rs"],[ring,("slot destruction","src/lib.rs: Core::drop_slots"),("panicking wakers","src/wait/cell.rs: WaitCell::wait_with"),refdrop])
p("C17","Errors state the true cause and return the message intact",
"A failed push or send gives the very value back, unmodified, through its error. Each error's variant, its classification queries and its text agree with each other and with the real cause (full, closed, timed out, empty).",
["inputs","histories","schedules"],
"for every error-returning operation of every flavour and every cause, including causes that race with one another",
"Tests only check that some call fails, not which queries hold on the error or whether the payload is the same object.",
["src/mpsc/errors.rs","src/lib.rs","src/mpsc.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs"],[("error types","src/mpsc/errors.rs"),("queue full error","src/lib.rs: Full")])
p("C18","The no-std build upholds the same guarantees",
"Built without the standard library (with or without an allocator), queues and asynchronous channels give the same delivery, ordering, exclusivity, wakeup, closing and cancellation guarantees as the standard build. In particular the built-in lock of that build provides mutual exclusion and publishes what was written under it.",
["schedules","configurations","histories"],
"for every interleaving, in the configurations without the standard library",
"The test suite only runs with all features enabled, so the no-std code paths are merely type-checked.",
["src/util/mutex/spin_impl.rs","src/util.rs","src/util/panic.rs","src/mpsc/async_impl.rs","src/static_thingbuf.rs"],[("spin lock","src/util/mutex/spin_impl.rs"),("panic shim","src/util/panic.rs")])
p("C19","Only thread-safe element types can cross threads",
"Queues, channel handles, references and futures can be sent to or shared with another thread only when their element and recycling-policy types make that sound: sharing a queue or moving a handle requires elements that may move between threads, and sharing a reference between threads requires elements that may be shared. They can be sent and shared when the types are fully thread-safe.",
["programs","configurations"],
"for every public type with every combination of element and policy thread-safety",
"Existing tests check only that some types are thread-safe for integers; they cannot express that others must not be.",
["src/lib.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs","src/wait/queue.rs","src/wait/cell.rs","src/util/mutex/spin_impl.rs"],[("manual Send/Sync implementations","src/lib.rs: unsafe impl Send/Sync for Ref, Slot")])
p("C20","No use of the safe API causes undefined behaviour",
"Whatever sequence of safe operations a program performs, including leaking references and futures, zero or odd capacities, element types of any size, dropping handles in any order and from any thread, and polling futures spuriously or after moving between tasks, the library never accesses memory out of bounds, uninitialised, after free or by data race, and never violates aliasing rules. Unsupported requests such as a capacity of zero are refused with a panic.",
["programs","schedules","inputs","fault_sequences"],
"for every program over the safe public API",
"Tests run without sanitizers on well-behaved programs; undefined behaviour usually has no visible effect in them.",
["src/lib.rs","src/wait/queue.rs","src/wait/cell.rs","src/mpsc/async_impl.rs","src/mpsc/blocking.rs","src/thingbuf.rs","src/static_thingbuf.rs"],
[("unchecked slot indexing","src/lib.rs: Core::push_ref, Core::pop_ref"),("intrusive list of stack/future nodes","src/wait/queue.rs"),("manually initialised slots","src/lib.rs: Slot, Core::drop_slots")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
