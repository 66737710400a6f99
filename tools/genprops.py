#!/usr/bin/env python3
# Regenerates /verif/properties.jsonl (kept as source because JSON lines are hard to edit by hand).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":["src/"+f for f in files],"mechanism":[{"name":n,"where":"src/"+w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":"src/"+w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("M01","Live blocks are disjoint, aligned, in-region and untouched by the allocator",
  "Every block that SASBlockAlloc returns is aligned to its own power-of-two size, lies inside the joined region, and does not overlap the anchor or any other block that is still allocated. The contents of an allocated block change only when its owner writes them, whatever blocks are allocated or freed around it. A request that cannot be satisfied returns NULL and changes nothing.",
  ["histories"],"every sequence of block allocations and frees (all power-of-two sizes from 4 KiB to a whole segment, in both use-list modes, including segment creation and offsets past 4 GiB)",
  "a test walks one allocation order; buddy split/coalesce bugs need a particular interleaving of sizes and free orders",
  ["sassim.cpp","ultree.cpp","sassim.h","sasanchr.h"],[("buddy split/find/coalesce","sassim.cpp:p2Alloc,p2Split,p2FindCont,p2dealloc"),("segment creation","sassim.cpp:SASCreateSeg")],
  [("free and used trees","per-size unlock trees keyed by offset","ultree.cpp")],["return values and contents of allocated blocks"])
p("M02","Freed block space is conserved and coalesces back into whole segments",
  "The free, uncommitted and in-use lists reported for the region always account for every byte of every allocated segment exactly once: each byte is either in a live block or in one of the free lists, never both and never neither. Freed blocks coalesce completely, in whatever order they are freed: two free halves of a larger aligned block never remain apart, so that every piece that was ever handed out, up to a whole segment, can be handed out again, without another segment, as soon as all of it is free. The lists hold under concurrent calls.",
  ["histories"],"every sequence of allocations and frees, every order of freeing",
  "leaks and lost coalescing show only after particular free orders and are invisible to a test that checks returned pointers only",
  ["sassim.cpp","ultree.cpp"],[("free/used list maintenance","sassim.cpp:SASBlockDealloc,SASBlockAlloc"),("list insertion and coalescing","ultree.cpp")],
  [("uncommitted/free/used trees","region accounting","sasanchr.h")])
p("M03","Region contents survive detach, rejoin and process death, at the same addresses",
  "Data that a process stored in an allocated block of a store is read back unchanged, at the same address, by any process that joins the same store later or at the same time, whether the writer detached, cleaned up or died without doing either; the allocator state survives likewise, so later allocations never overlap earlier live blocks. Processes joined to different stores never see each other's data. After the store is removed, a new join starts from an empty region, and a region that was reset is as a new one. A join that fails, for a system call that failed or a store that cannot be used, says so and does no harm; a region whose creator died before it was complete is created again by the next join. A process that has left or reset the region has no current project.",
  ["histories","crash_points"],"every bounded history of join, allocate, write, read, free, sync, set up a project, lock, fork, detach, kill, reset and remove by up to three processes on up to two stores; death before every system call, and failure of every system call, of every operation in ten situations; store paths of every length around the limit",
  "tests join once per process from a fresh directory; loss across rejoin or death depends on the order of the processes' lives",
  ["sassim.cpp","sasstname.c","sasshm.c","saslock.cpp"],[("join, attach on fault, detach, remove","sassim.cpp:SASJoinRegionByName,SASAttachSegByAddr,SASCleanUp,SASRemove,SASReset"),("backing files","sasstname.c")])
p("M04","Concurrent first joins build exactly one region",
  "When several processes join the same new store at the same time, every one of them succeeds, all end up attached to the same initialised region, and blocks allocated by them afterwards never overlap. A process that joins while another is still creating the region never observes a half-initialised region, also when the creator dies on the way.",
  ["schedules"],"every interleaving, at system-call granularity and up to a preemption bound, of two and three processes that join a store that does not exist yet (or exists) and then allocate, free and lock, with and without the death of one of them at any call of its join",
  "the window is a few system calls wide and a test cannot place the second process inside it",
  ["sassim.cpp","sasstname.c","saslock.cpp"],[("create-or-attach protocol","sassim.cpp:SASJoinRegionByName"),("exclusive create","sasstname.c:SASSegStoreCreateByName"),("lock table creation","saslock.cpp:SASLockInit")])
p("M05","Simple heap allocations are disjoint, in bounds, accounted and fully recoverable",
  "Every address that a simple heap hands out is aligned and inside the heap, and its extent never overlaps another live allocation or the heap's own header. Reported free space always equals the capacity minus the rounded sizes of the live allocations, a request that does not fit returns NULL and leaves the heap unchanged, and a free of a range outside the heap is refused. When everything has been freed, in any order, the heap is empty again and its whole initial space can be allocated as one piece; the near variants behave like the direct ones applied to the enclosing heap.",
  ["histories"],"every sequence of allocations, frees, near-allocations and invalid frees up to a depth, from empty and from fragmented heaps, locking and non-locking calls",
  "coalescing and exact-fit bugs need particular size and order combinations",
  ["sassimpleheap.cpp","freenode.c","sasalloc.cpp"],[("first-fit alloc and coalescing free","freenode.c"),("heap entry points","sassimpleheap.cpp")])
p("M06","Compound heaps hand out disjoint sub-heaps, expand when full and recycle",
  "A compound heap hands out page-sized sub-heaps (or queues) that are aligned, initialised for use, inside storage it owns, and disjoint from its header and from each other while allocated. An expanding heap obtains further storage when full, until the list of its blocks has no more room, and a fixed heap returns NULL; neither writes to storage that is not its own; a freed sub-heap can be handed out again, and reported free and allocated space always match the live set. Destroying the heap returns every block it ever obtained to the region.",
  ["histories"],"every sequence of sub-heap allocate, free, near-allocate and near-free up to a depth, on fixed and expanding heaps started empty, nearly full and expanded, with locking and non-locking calls",
  "the expansion, refill and near paths run only after the first block is exhausted; tests sample one order",
  ["sascompoundheap.cpp","sascompoundheap.h","sphcompoundpcqheap.h"],[("page allocation and expansion","sascompoundheap.cpp:SASCompoundHeapAllocNoLock,SASCompoundHeapFreeNoLock"),("queue sub-heaps","sascompoundheap.cpp:SPHCompoundPCQAllocNoLock")])
p("M07","Simple stack is LIFO, in bounds, and refuses what it cannot honour",
  "Successive allocations from a simple stack are aligned, lie inside the block past its header and never overlap; free space falls by exactly the rounded size. Deallocating back to a previously returned address releases that allocation and all later ones and nothing else, and a pointer outside the stack is refused without change. A request larger than the free space returns NULL and changes nothing, for every size including extreme ones.",
  ["histories","inputs"],"every sequence of allocations and deallocations up to a depth, with sizes from zero to the type's maximum",
  "exact-fit, wrap-around and stale-pointer cases are not among a test's samples",
  ["sassimplestack.cpp","sassimplestack.h"],[("push/pop","sassimplestack.cpp")])
p("M08","Simple space maps between a space and its user area, with the promised size",
  "A simple space created or initialised for a requested size offers a user area of at least that size that lies wholly inside its block, past the header and suitably aligned. Every address of the user area finds its space and the space finds the start of its area, addresses before or past the area find none, and the reported free space is what is left of the block after the header and the user area. Creation for a size that does not fit is refused, and destroying a space returns its block to the region.",
  ["inputs"],"every request size around every power-of-two and header boundary",
  "off-by-header sizes fail only at exact boundary values",
  ["sassimplespace.cpp","sassimplespace.h"],[("space layout","sassimplespace.cpp")])
p("M09","Lock-free heap: allocations are disjoint, aligned, exact and recoverable",
  "Each allocation from a lock-free heap is inside the heap, aligned to the unit (and to the alignment asked for), covers the requested size rounded up to units, and overlaps neither another live allocation nor the heap's own control data. A request of less than 32 units is refused only when no sufficiently long (and aligned) free run exists within one group of 64 units; larger and empty requests are refused, as are frees of addresses that are free, outside the heap or checked against the wrong size, changing nothing. Every call returns, and reported free space equals capacity minus live units. Freeing everything restores the whole capacity.",
  ["histories","configurations"],"every sequence of allocate, aligned allocate and free up to a depth over several unit sizes and heap sizes, from states with any fragmentation pattern",
  "runs that straddle bit-vector words, exact-word and multi-word sizes and every fragmentation pattern are far beyond sampled sequences",
  ["sphlockfreeheap.cpp","bitv.c"],[("bit-vector run search","bitv.c:bitv_alloc_marked,bitv_aligned_alloc_marked"),("boundary marking","sphlockfreeheap.cpp")])
p("M10","Lock-free heap stays correct under every interleaving of allocate and free",
  "Threads that allocate and free from one lock-free heap concurrently never receive overlapping live allocations, and once all calls have returned the free space equals the capacity minus what is still allocated. Freeing everything then restores the whole capacity. No call blocks for ever.",
  ["schedules"],"every interleaving of the shared accesses of two or three threads running short allocate/free programs, up to a preemption bound",
  "a race needs a switch between two particular instructions of the bit-vector update",
  ["sphlockfreeheap.cpp","bitv.c"],[("atomic bit claims and rollback","bitv.c")],hook="none beyond compiler instrumentation")
p("M11","An address inside any live object resolves to its own enclosing heap or block",
  "For every interior address of a live heap, stack, queue or tree of any size, the near functions find the innermost enclosing container, and allocate from or free to exactly that container. An address outside the region has no container: the typed near functions refuse it and the general ones use the process's own memory. Typed block allocation hands out zero-filled memory that covers the request, refuses what no block can hold, and a matching free returns it in full.",
  ["inputs","configurations"],"every container size the region supports and addresses at each end and page boundary of each",
  "resolution probes one alignment after the other; tests use one or two block sizes",
  ["sasalloc.cpp","sasalloc.h"],[("header search by masking","sasalloc.cpp:SASFindHeader"),("near allocation dispatch","sasalloc.cpp:SASNearAlloc,SASNearDealloc")])
p("M12","Writing back and paging advice cover exactly the object's pages",
  "A request to write back, purge, release, bring in or advise a range of the region passes to the kernel every page that holds a byte of the range and no other, with the mode asked for. A failure is reported, and nothing is given up that was not written back. The whole-heap forms cover every block of a compound heap, and when they write back also the block of an outgrown block list. They return the heap's total size, change no content and leave no lock held.",
  ["inputs","histories"],"every start in a page and every length around the page boundaries; every compound heap reached by short histories of allocation, release and expansion, and heaps that outgrow their built-in list",
  "pages left out are only missed after a crash of the machine, and only for ranges that are not page aligned or heaps that have grown",
  ["sasmsync.c","sascompoundheap.cpp"],[("page rounding","sasmsync.c:pageAlignStart,pageAlignLen"),("all blocks of a heap","sascompoundheap.cpp:SASCompoundHeapWriteAll,SASCompoundHeapPurgeAll")])
p("L01","Address locks: a writer excludes everyone, readers exclude only writers",
  "While a thread holds the write lock on an address no other thread, of its own or another process, holds any lock on that address, and while a thread holds a read lock no other thread holds the write lock. Nested requests by the holder are counted and the lock is released only by the matching number of unlocks. Locks on different addresses do not exclude each other even when they fall in the same lock table entry.",
  ["schedules"],"every interleaving of the lock manager's shared accesses and semaphore calls for two to four threads on one or two (colliding) addresses, up to a preemption bound",
  "exclusion fails only if a thread is preempted between two instructions of the lock hand-off",
  ["sasulock.cpp","sasmlock.cpp","saslockl.cpp","saslock.cpp"],[("lock grant and wake-up","sasulock.cpp"),("per-address nodes and lists","saslockl.cpp"),("hash table","sasmlock.cpp")],
  hook="scheduling points in the inline-assembly atomics")
p("L02","Address locks: every request is eventually granted and nothing is left behind",
  "If every holder eventually unlocks, every lock request is eventually granted: no wake-up is lost and no thread waits for ever on an address that nobody holds. Once all locks are released the lock table is back to its idle state, so any thread can lock any address at once and no table entry stays in use, however many locks were taken before. Resetting the locks frees those of processes that died with them, and every process can then lock every address as before.",
  ["schedules","histories"],"every interleaving as for exclusion, followed by a probe that takes and releases every lock; and every sequence of nested, multi-address lock and unlock calls by one thread",
  "lost wake-ups appear as rare hangs that a test reports as a timeout, if at all",
  ["sasulock.cpp","sasmlock.cpp","saslockl.cpp"],[("waiter queue","sasulock.cpp"),("node release","saslockl.cpp")],hook="scheduling points in the inline-assembly atomics")
p("L03","Locked operations on shared containers are atomic under concurrency",
  "When several threads use the locking operations of one simple heap, compound heap, stack, string tree or index at the same time, every thread gets the results it would get in some serial order of the calls, the container ends in the state of that order, and no lock stays held afterwards.",
  ["schedules"],"every interleaving of two threads' operations (reads, inserts, removals, allocations, frees and expansions) up to a preemption bound",
  "a missing, early or mismatched lock changes behaviour only for particular overlaps",
  ["sassimpleheap.cpp","sascompoundheap.cpp","sassimplestack.cpp","sasstringbtree.cpp","sasindex.cpp"],[("lock/operate/unlock wrappers","sasstringbtree.cpp"),("same","sasindex.cpp"),("same","sassimpleheap.cpp"),("same","sascompoundheap.cpp")],hook="scheduling points in the inline-assembly atomics")
p("A01","Atomic primitives are indivisible and full width",
  "Each atomic primitive (fetch-and-add on integers and pointers, fetch-and-and/or, swap, compare-and-swap, increment, decrement) acts on the whole operand as one indivisible step: any interleaving of two threads' calls gives results and a final value that some serial order gives. Each returns exactly what it documents (the previous value, or whether the swap happened).",
  ["schedules","inputs"],"every instruction-level interleaving, with non-locked read-modify-write instructions split, of every pair of primitives over operand values at all bit-width boundaries",
  "a missing lock prefix or a narrowed operand is invisible except at one instruction boundary or beyond 32 bits",
  ["sasatom.h","sasatom_x86_64.h"],[("inline assembly","sasatom_x86_64.h"),("wrappers","sasatom.h")])
p("A02","Spin locks and pointer locks exclude, hand over and preserve the pointer",
  "At most one thread at a time is between acquiring and releasing a spin lock or a pointer lock, in all their variants (spinning, yielding, try), and a try fails exactly when the lock is held. A thread that waits gets the lock after it is released. Locking and unlocking a pointer lock leaves the pointer value it guards as it was last set.",
  ["schedules"],"every interleaving of the shared accesses of two or three threads",
  "a lost mutual exclusion needs a switch between a test and a set",
  ["sasatom.h","sasatom_x86_64.h"],[("spin lock","sasatom_x86_64.h:__arch_sas_spin_lock"),("pointer lock","sasatom.h:sas_lock_ptr")],hook="scheduling points in the inline-assembly atomics")
p("Q01","Single producer/consumer queue delivers every entry once, in order, intact",
  "With one producer and one consumer running concurrently, the consumer receives exactly the completed entries, each once, in allocation order, with the category, subcategory and payload the producer stored; an entry that is not complete is never delivered. An allocation fails exactly when the queue's documented capacity is in use, a get fails exactly when no complete entry is next, and empty, full and free-space reports agree with this. This holds through both the handle and the direct interfaces, including their spinning forms, across any number of wrap-arounds and for every stride.",
  ["schedules","histories","configurations"],"every interleaving of producer and consumer programs up to a preemption bound, and every sequential operation sequence up to a depth, for several strides and queue sizes with several wrap-arounds",
  "ordering and wrap bugs need a switch between head/tail updates or a particular fill level",
  ["sphsinglepcqueue.cpp","sphsinglepcqueue.h","sphdirectpcqueue.h"],[("ring allocation","sphsinglepcqueue.cpp"),("direct handles","sphdirectpcqueue.h")],hook="none beyond compiler instrumentation and pause/yield points")
p("Q03","Multi-producer/consumer queue delivers every entry exactly once, never corrupt",
  "With several producers and consumers running concurrently, each completed entry is delivered to exactly one consumer with the payload its producer stored, entries are delivered in allocation order, an entry still being written or still being read is never handed to anyone else, and the queue's own control words are never overwritten by entry data. An allocation fails only if the queue is full and a get only if no complete entry is available; capacity, empty, full and free-space reports are exact when the queue is quiescent. After any number of wrap-arounds all slots are usable again.",
  ["schedules","histories","configurations"],"every interleaving of the shared accesses of two to four threads up to a preemption bound, for several strides and sizes, from empty, part-filled, wrapped and full queues; and every sequential operation sequence up to a depth",
  "double delivery and lost slots need a switch between claiming and publishing an entry",
  ["sphmultipcqueue.cpp","sphmultipcqueue.h"],[("claim by compare-and-swap","sphmultipcqueue.cpp:SPHMPMCQAllocStrideDirectSync,SPHMPMCQGetNextCompleteDirectSync"),("entry state word","sphlfentry.h")],hook="scheduling points in the inline-assembly atomics")
p("G01","Loggers reserve disjoint entries for concurrent writers and never lose one",
  "Concurrent writers of a logger always reserve disjoint, in-bounds entries, each carrying its own category, subcategory, process and thread identity and time stamp, and no reservation overwrites an entry of a non-circular log. A non-circular log refuses a reservation exactly when the remaining space is too small and then reports full; a request larger than the whole log is refused without any effect. Free space, empty and full reports match what was reserved. The serial (no-lock) forms and the fixed-stride forms give the same guarantees to a single writer.",
  ["schedules","histories"],"every interleaving of two or three writers up to a preemption bound from empty and nearly full logs, and every sequential sequence of sized and strided reservations up to a depth, for several strides",
  "a torn reservation needs two writers between the same two instructions, and full/overflow boundaries need exact sizes",
  ["sphlflogger.cpp","sphlflogger.h","sphlflogentry.h"],[("atomic reservation","sphlflogger.cpp:SPHLFLoggerAllocInternal"),("entry completion","sphlflogentry.h")],hook="none beyond compiler instrumentation and pause/yield points")
p("G02","Log iteration yields exactly the retained entries, once each, in order, and ends",
  "Iterating a log yields every completed retained entry exactly once, in the order the entries were reserved, with its header and payload intact, and then ends. For a circular log that has wrapped, the retained entries are the most recent ones and the iteration starts at the oldest of them. An entry that is not complete stops or is skipped by the iteration but is never reported as complete.",
  ["histories","configurations"],"every number of entries from none to several wraps, every mix of entry sizes up to a depth, several strides and buffer sizes",
  "the iterator's end conditions differ for empty, partly filled, exactly full and wrapped logs at every fill position",
  ["sphlflogger.cpp"],[("iterator","sphlflogger.cpp:SPHLFLoggerIteratorNext,SPHLFLoggerCreateIterator"),("circular wrap","sphlflogger.cpp")])
p("G03","A log portal rotates through its loggers without losing or mixing entries",
  "A portal keeps the loggers added to it in order, refuses one more than its capacity, and reports count and capacity exactly, also when loggers are added concurrently. Reservations through the portal go to the current logger until it is full and then to the next, never lost and never in two loggers, for concurrent writers too. Iterating the portal yields every completed entry of every logger once, in logger order, and ends.",
  ["schedules","histories"],"every interleaving of two writers or adders up to a preemption bound, and every sequence of add, reserve, reset and iterate operations up to a depth",
  "switching loggers is a race between writers that fill the current logger at the same time",
  ["sphlogportal.cpp","sphlogportal.h"],[("logger switch","sphlogportal.cpp:SPHLogPortalGetCurrentLogger"),("iteration","sphlogportal.cpp:SPHLFPortalIteratorNext")],hook="none beyond compiler instrumentation and pause/yield points")
p("G04","Entry field streams round-trip every value and never leave the entry",
  "Values added to a queue or log entry with the typed add functions are read back by the corresponding get functions in the same order with exactly the same values, each at its natural alignment. An add that does not fit in what is left of the entry is refused and changes nothing; no sequence of adds ever writes outside the entry. This holds for every mix of types, for strings of every length and for every entry size.",
  ["inputs","programs"],"every sequence of typed adds up to a depth, for every entry size, with boundary values of each type",
  "alignment padding makes the remaining-space computation depend on the exact type sequence and size",
  ["sphlfentry.h","sphlflogentry.h"],[("typed add/get","sphlfentry.h"),("log forms","sphlflogentry.h")])
p("T01","String tree behaves as an ordered map through any history",
  "A string tree holds exactly the key/value pairs put and not removed: get and contains agree with that set, put of an existing key is refused without change, replace and remove report the key's presence and return the old value as documented. The reported count is the number of keys, the minimum and maximum keys are the least and greatest present in string order, and the modification count grows with every change of the content and never because of a lookup. This holds through every split, merge, rotation, key removal from inner nodes, and expansion or release of storage, and freed storage is reused so that steady use does not exhaust the tree.",
  ["histories"],"every sequence of put, replace, remove and lookups up to a depth, from the empty tree and from trees of one, two and three levels built in several orders, removing every key in several orders",
  "rebalancing cases depend on the fill of neighbouring nodes at several levels; tests insert in one or two orders",
  ["sasstringbtree.cpp","sasstringbtreenode.cpp","sasstringbtreepriv.h"],[("node search, insert, delete, rebalance","sasstringbtreenode.cpp"),("tree operations","sasstringbtree.cpp")])
p("T02","String tree enumeration is ordered and complete, also from a start key",
  "Enumerating a string tree yields every key/value pair exactly once in ascending string order and then ends. An enumeration started at a key yields exactly the pairs whose keys are not less than it, and is refused if there are none. Keys removed or added between two steps of an enumeration never make it skip, repeat or invent any other key.",
  ["histories","inputs"],"every tree content over a small key universe and every start key, present or absent; larger multi-level trees with every start key; every single modification placed between any two enumeration steps",
  "edge keys (first, last, absent, empty) and modifications at the enumeration's position are each a separate case",
  ["sasstringbtreeenum.cpp"],[("enumeration position and search","sasstringbtreeenum.cpp")])
p("T03","Index behaves as an ordered map through any history",
  "An index holds exactly the binary key/value pairs put and not removed: get and contains agree with that set, put of an existing key is refused without change, replace and remove report the key's presence and return the old value as documented. The minimum and maximum keys are the least and greatest present, and the modification count grows with every change of the content and never because of a lookup. This holds through every split, merge, rotation, removal from inner nodes and storage expansion, and freed storage is reused so that steady use does not exhaust the index.",
  ["histories"],"every sequence of put, replace, remove and lookups up to a depth, from the empty index and from indexes of one, two and three levels built in several orders, with one-word and multi-word keys",
  "rebalancing cases depend on the fill of neighbouring nodes at several levels; tests insert in one or two orders",
  ["sasindex.cpp","sasindexnode.cpp","sasindexpriv.h"],[("node search, insert, delete, rebalance","sasindexnode.cpp"),("index operations","sasindex.cpp")])
p("T04","Index enumeration is ordered and complete",
  "Enumerating an index yields every value exactly once in ascending key order and then ends, for every key type. Keys removed or added between two steps of an enumeration never make it skip, repeat or invent any other key.",
  ["histories","inputs"],"every index content over a small key universe, larger multi-level indexes, and every single modification placed between any two enumeration steps",
  "edge keys and modifications at the enumeration's position are each a separate case",
  ["sasindexenum.cpp"],[("enumeration position and search","sasindexenum.cpp")])
p("T05","Index keys order exactly as the values they encode",
  "Keys built from pointers, unsigned and signed 64-bit integers and doubles compare exactly as the values do, and a key gives back the value it was built from. Key comparison is a total order (reflexive, antisymmetric, transitive) also for composite keys of several words and of different lengths, with a proper prefix ordered before its extensions. Copying a key preserves it and its size.",
  ["inputs"],"every pair and triple of values drawn from all sign, exponent, width and boundary classes of each type, and composite keys of one to four words over boundary words",
  "sign and byte-order errors show only for pairs that straddle a boundary",
  ["sasindexkey.h"],[("comparison","sasindexkey.h:SASIndexKeyCompare"),("encoding","sasindexkey.h:SASIndexKeyInitDouble,SASIndexKeyInitInt64")])
p("C01","A context keeps names and addresses in one consistent two-way association",
  "A context maps each name it holds to exactly one address and finds the same pair by name and by address; after any history of add, rename and remove, a lookup finds exactly the pairs that were added and not removed. An operation that fails, for a duplicate name, an unknown name or lack of space, reports failure and leaves every association as it was. Storage of removed names is reclaimed, and a project context can be found again by its name.",
  ["histories"],"every sequence of add, rename, remove by name, remove by address and lookups over a small universe of names (including empty, long and prefix-related) and addresses up to a depth",
  "the two indexes can disagree only after particular failing or overlapping operations",
  ["sphcontext.cpp","sphcontext.h"],[("paired string tree and index updates","sphcontext.cpp")])
p("X01","Time-base conversions are exact, in range and monotone",
  "Converting a time-base value to a time-of-day or clock value yields a sub-second part in range and the same instant within one unit of the result's resolution, for every input including those near a second boundary. Conversion is monotone: a later time-base value never converts to an earlier time.",
  ["inputs"],"every tick of whole seconds (all sub-second positions) around every second-boundary and word-width class of the time base",
  "rounding and carry errors affect single ticks in a billion",
  ["sphgtod.c","sphgettime.c","sphgtod.h","sphgettime.h"],[("conversion","sphgtod.c:sphtb2gtod_withfactor"),("conversion","sphgettime.c:sphtb2gettime_withfactor")])
p("B01","Bit-vector allocation returns free runs, marks exactly them, and always returns",
  "A bit-vector allocation of n units returns the position of n consecutive units that were free (aligned if asked) and marks exactly those; deallocation clears exactly those. It fails only when no such run exists (the words are then unchanged), always terminates, and the reported free space is that of the free units. This holds for every content of a word, every size (also ones larger than a word), every alignment and every unit size; the marked forms also keep the end marks exact, so that a free without a size releases exactly the allocation.",
  ["inputs","histories"],"every content of short vectors (all bit patterns up to a width and structured patterns across words) and every size and alignment; all operation sequences up to a depth",
  "the search carries masks across word boundaries; tests use few patterns",
  ["bitv.c","bitv.h","bitv_priv.h"],[("run search and claim","bitv.c")])
p("W01","Operations refuse a handle of the wrong kind and change nothing",
  "Every operation that takes a handle to a shared object checks that the object is of the kind it serves: given a handle to an object of any other kind it reports failure (null, zero free space or a nonzero code as documented) and modifies nothing, neither in that object nor elsewhere in the region. Setting a block's subtype changes exactly its subtype.",
  ["inputs","programs"],"every pair of operation and object kind",
  "the matrix of operations times kinds is far larger than what tests try, and a wrong-kind call that appears to work corrupts silently",
  ["sasalloc.h","sassimpleheap.cpp","sascompoundheap.cpp","sassimplestack.cpp","sassimplespace.cpp","sasstringbtree.cpp","sasindex.cpp","sphcontext.cpp","sphlockfreeheap.cpp","sphlflogger.cpp","sphlogportal.cpp","sphmultipcqueue.cpp","sphsinglepcqueue.cpp"],[("type and signature checks","sasalloc.h:SOMSASCheckBlockSigAndType")])
p("U01","The sasutil tool reports a store as it is and repairs or removes it",
  "On any store, in use or not, sasutil stat and detail print the totals, list entries, tree depths, anchor space and in-use list mode that the library itself reports; list shows every entry in use and what its blocks hold, dump exactly the bytes at the given addresses, map the memory map of the given or its own process, and none of them changes the store, its blocks or its locks. reset gives a new, usable region even when a process died with locks or the semaphore held; remove leaves no file. The store is the one named by -p, by SASSTOREPATH or the working directory; a store that cannot be joined or an argument that makes no sense ends in a nonzero status, never in a crash or a hang.",
  ["histories","crash_points","inputs"],"every short history of blocks, with the store's user present, gone or killed with locks held, times every command and way of naming the store; stores of any number of blocks; odd command lines",
  "no test runs the tool; a wrong total, a list that overruns its table or a reset that leaves a lock behind is seen only on stores with particular contents",
  ["sasutil.c","sassim.cpp"],[("the commands","sasutil.c"),("lists, reset and remove","sassim.cpp")])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P),"properties")
