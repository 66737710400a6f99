MCK = "model_checking"
SEQ = "exhaustive bounded exploration of operation sequences on the real code (explicit-state, snapshot/undo, state hashing) against a reference model"
CON = "stateless model checking of the real code: exhaustive enumeration of thread interleavings under a controlled scheduler"
PROPS = {
 "T01": dict(harness="T01.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Exhaustive within the stated bounds: every put/remove/replace sequence to the depth on small key sets and on prefilled two-level trees; every single operation at stages of fill/drain histories of 2300 keys (three levels). Single-threaded; assumes the sampled key families represent key content."),
 "T03": dict(harness="T03.cpp", variant="plain", level=MCK, technique=SEQ,
   note="As T01, for the index and for keys of 1 to 15 words built by each constructor."),
 "T02": dict(harness="T02.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every content over 9 and 11 keys with every start key; every sequence of steps and modifications up to a depth from every content over 4 keys; every start and every single modification (near the position, and a residue class elsewhere) in two- and three-level trees."),
 "T04": dict(harness="T04.cpp", variant="plain", level=MCK, technique=SEQ,
   note="As T02, for the index (which has no enumeration from a key)."),
 "T05": dict(harness="T05.cpp", variant="plain", level=MCK, technique="exhaustive enumeration of a bounded value space on the real code against the values' own order",
   note="Every pair of values from all bit positions (integers, pointers), from all sign/exponent/mantissa classes (doubles, NaN excluded), and of composite keys of one to four words over boundary words plus 5- to 15-word keys with one deviating word. Agreement with a total order on every pair makes the comparison a total order on them.",
   explanation="Each state is one ordered pair of keys, compared by the real code both ways; transitions are comparisons."),
 "L01": dict(level=MCK, technique=CON, parts=[dict(harness="L.cpp", variant="mc"), dict(harness="PR_L01.cpp", variant="real")],
   note="Sequentially consistent memory. Two threads exhaustively, three and four threads up to a preemption bound; programs of up to three lock/unlock pairs on up to three addresses. Two and three processes, joined or forked, at every interleaving of their system calls up to 2 (thorough 3) preemptions."),
 "L02": dict(level=MCK, technique=CON, note="As L01.", parts=[dict(harness="L.cpp", variant="mc"), dict(harness="PR_L01.cpp", variant="real")]),

 "Q01": dict(harness="Q.cpp", variant="mc", level=MCK, technique=CON+"; plus exhaustive operation sequences",
   note="Sequentially consistent memory. One producer and one consumer, all interleavings (unbounded) of programs of up to four entries on rings of two to four slots, every interface; every operation sequence to a depth; every buffer size and stride of a grid filled, wrapped and drained."),
 "Q03": dict(harness="Q.cpp", variant="mc", level=MCK, technique=CON+"; plus exhaustive operation sequences",
   note="Sequentially consistent memory; two threads unbounded for single entries, otherwise up to a preemption bound; three and four threads up to a bound; address locks replaced by ideal locks except in one configuration (the real ones are checked by L01/L02)."),
 "B01": dict(harness="B.cpp", variant="plain", level=MCK, technique="exhaustive enumeration of a bounded state space (word contents x request) on the real code against a bit-level oracle; exhaustive operation sequences",
   note="All 16-bit patterns (thorough: 20-bit) at three places of the 64-bit word with the rest free or taken, all words of up to two runs of free units, every size of 1 to 64 units and every alignment; six unit sizes. A word is one allocation group: the functions never span words.",
   explanation="Each state is one content of a word; transitions are allocator calls on it."),
 "G01": dict(parts=[dict(harness="G.cpp", variant="mc"), dict(harness="PR_G01.cpp", variant="real")], level=MCK, technique=SEQ + "; " + CON,
   note="Sequentially consistent memory. Every operation sequence to a depth on small simple and circular logs of many shapes; two writers up to a preemption bound (quick 3 to 5, thorough 5 to 6), three and four up to 2 or 3 (4 or 5); every log and stride size of a grid filled through two wraps."),
 "G02": dict(harness="G.cpp", variant="mc", level=MCK, technique=SEQ + "; " + CON,
   note="As G01, with an iteration after every step, and readers that iterate a simple log while writers work, at every interleaving."),
 "G03": dict(harness="P.cpp", variant="mc", level=MCK, technique=SEQ + "; " + CON,
   note="Sequentially consistent memory. Every operation sequence to a depth on portals of 0 to 5 slots with small loggers of many shapes; every portal size up to 2M (thorough 8M) filled to its capacity; two adders and writers up to a preemption bound (adders and readers unbounded), three up to a bound."),
 "G04": dict(harness="G04.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every sequence of up to 4 (thorough 5) field adds on real log and queue entries of 16 to 256 bytes, at the end of memory and followed by room, with every state completed and read back; every value of the 8 and 16-bit types and all boundary patterns of the wider ones."),
 "A01": dict(harness="A.cpp", variant="plain", level=MCK, technique="explicit-state exploration of the compiled primitives: single-stepped machine code, every instruction-level interleaving",
   extra=["A_o2.cpp", "A_o0.c"],
   note="Sequentially consistent memory; instructions that read and write memory without a lock prefix are split into their load and store. Every pair of primitives over boundary operands, optimised and not, part of the triples (thorough: all), and one call on all pairs of boundary values. x86-64 only."),
 "A02": dict(harness="A.cpp", variant="plain", level=MCK, technique="explicit-state exploration of the compiled lock primitives: single-stepped machine code, every instruction-level interleaving, with reachability of termination from every state",
   extra=["A_o2.cpp", "A_o0.c"],
   note="As A01. Two threads with up to two (thorough: three) acquisitions each and three threads with one; every combination of spinning, yielding and trying forms."),
 "X01": dict(harness="X01.cpp", variant="plain", level=MCK, technique="exhaustive enumeration of a bounded input space on the real code against exact integer arithmetic",
   note="Every tick of two (thorough: fourteen) whole seconds, windows around every power of two and many second boundaries for factors of every width, several tick frequencies, and the start-up factors for a grid of clock values. x86-64 build (clock_gettime as the time base).",
   explanation="Each state is one tick converted by one of the two functions; the order of neighbouring ticks is checked as well."),
 "W01": dict(harness="W.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every operation that takes an object handle against every kind of object, in every state of a world with one object of each kind reached by up to 2 (thorough 3) proper operations; and against its own object with every other type number (three groups) or one flipped signature bit. Kinds that are built on another (tree nodes and contexts on simple heaps, trees on compound heaps) are accepted as that kind by its operations."),
 "M09": dict(harness="LF.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every operation sequence to a depth on five heap shapes at three fill levels; every fragmentation pattern of 12 units (thorough 16) at three places with every size and alignment; every heap and unit size up to 256K (1M) filled and emptied with every request size."),
 "M10": dict(harness="LFC.cpp", variant="mc", level=MCK, technique=CON,
   note="Sequentially consistent memory. Two threads: all interleavings of programs of up to four calls; three (thorough: four) threads up to a preemption bound; five arrangements of the free units. A spurious refusal while another call is under way is allowed."),
 "M01": dict(level=MCK, technique=SEQ + "; " + CON, parts=[dict(harness="R.cpp", variant="plain"), dict(harness="RC.cpp", variant="mc")],
   note="Every operation sequence to a depth over sets of block sizes from 4K to a segment, in both in-use modes, with partial frees, in fresh regions and in regions of more than 4 GiB; segments are created in a virtual file system and every system call of their creation fails once; every request size up to 70000 and around every power of two; two and three threads up to a preemption bound (sequentially consistent memory)."),
 "M02": dict(level=MCK, technique=SEQ + "; " + CON, parts=[dict(harness="R.cpp", variant="plain"), dict(harness="RC.cpp", variant="mc")],
   note="As M01, with the region's lists compared with the live blocks after every operation; every order of freeing sets of 7 and 8 blocks and every pattern of 8 (thorough: 16) free pages."),
 "C01": dict(harness="C.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every sequence of adds, renames and removals to a depth over three or four names (empty, prefixes of each other, of every rounding class, too long for the context or for its trees) and two to four addresses, names given by the caller or as found in the context; in every reached state everything is looked up, listed and removed; every name length up to 2200 (thorough: 6000); histories of 300 (thorough: 1200) names; every sequence of project operations to a depth; a region that is full but for k times 16M and a small remainder, in which projects and contexts are created and given back."),
 "M03": dict(harness="PR_M03.cpp", variant="real", level=MCK, technique=SEQ + "; every crash point and every failing call",
   note="Real processes on real stores, with the library's system calls under control. Histories of up to 4 to 7 (thorough 6 to 9) whole operations of one to three processes on one or two stores; a kill before each system call and a failure of each system call of joining, allocating, freeing, cleaning up, removing and setting up a project in ten situations; store paths of every length around the limits; 40 (600) repetitions of five lives. The death of a process inside a call that changes the region's lists is followed by SASResetSem, after which only contents and disjointness are judged."),
 "M04": dict(harness="PR_M04.cpp", variant="real", level=MCK, technique=CON,
   note="Real processes; a process is held before each of its system calls (of the runs of semaphore initialisations, before the first three and every 64th). Two processes up to 3 (thorough 5) preemptions, three up to 2 (3), one death up to 2 (3). Stores on a file system with working flock."),
 "U01": dict(harness="PR_U01.cpp", variant="real", extra=["U_util.c"], level=MCK, technique=SEQ,
   note="The tool's own source, run by a process of its own. Every history of up to 3 (thorough 4) allocations and frees of blocks of 4K to 16M, with the store's user joined, gone, or killed with a lock and the semaphore, the store named in three ways; stores of 1000 to 30000 blocks; some seventy further command lines. Sizes given to dump are multiples of 16."),
 "L03": dict(harness="LC.cpp", variant="mc", level=MCK, technique=CON,
   note="Two and three threads in short programs of calls on one simple heap, stack, compound heap (of pages, of queues), string tree, index, enumerators, context and the projects, in containers that are empty, in use, full, about to split or to take another block: every interleaving up to the stated preemption bound (heaps in the thorough tier: every interleaving). Every result and the final content must be those of some serial order of the same calls, run on the same code, that keeps the order of calls which did not overlap; no lock is held after any call; no deadlock, no lock given back that was not held. Near allocation may be taken for a plain one while others use the heap. Locks are ideal here: that the lock service behaves as an ideal lock is L01's and L02's."),
 "M11": dict(harness="N.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every bounded history of creating, filling, emptying and destroying containers of thirteen kinds on reused memory, with every page boundary and both ends of every container and sub-heap looked up and every near function tried in every reached state; every kind at every power-of-two size from 4K to 64M (thorough: 256M); every class of typed block."),
 "M05": dict(harness="H05.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every operation sequence to a depth on simple heaps of 512 bytes, 4K and 64K (created, initialised in a used block) with request sizes that split them in halves, thirds and whole; in every reached state everything is freed in up to 24 orders and the whole space taken again; every request size up to the heap's and around every power of two in fresh and fragmented heaps; every heap size."),
 "M06": dict(harness="H06.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every operation sequence to a depth on expanding and fixed compound heaps with pages of 1K to 8K, load factors 100, 75 and 0, simple heaps and queues mixed; destroyed and drained in every reached state and the region's books compared; one long history through 500 (thorough 1100) sub-heaps; every size of heap and page."),
 "M12": dict(harness="H12.cpp", variant="plain", level=MCK, technique=SEQ + "; exhaustive enumeration of a bounded input space",
   note="The kernel's msync and madvise are recorders. Every operation sequence to a depth on five shapes of compound heap with all eight whole-heap calls made in every reached state; heaps of up to 300 (thorough 510) blocks and of every size; every start in a page by 50 lengths and every length up to 12288 (65536) by 15 starts, for all eight range calls, with each kernel call failing."),
 "M07": dict(harness="H07.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every operation sequence to a depth on stacks of 8K and 64K; every allocation size up to the stack's and around every power of two at four fill levels; in every state a deallocation to addresses outside, above the top and not aligned is refused without a change; every stack size."),
 "M08": dict(harness="H08.cpp", variant="plain", level=MCK, technique=SEQ,
   note="Every requested size up to 13000 bytes, around every page up to 70000 and around every power of two, created and initialised at the end of a used block; every sequence of creations and destructions of up to four spaces, with every boundary address looked up."),
}
NA = {}
