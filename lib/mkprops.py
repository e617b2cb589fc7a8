#!/usr/bin/env python3
# Source of properties.jsonl (kept as code so the statements stay readable). Run: python3 lib/mkprops.py
import json,os
P=[]
def p(id,title,st,over,qt,why,files,mech,state=(),obs=(),hook=None):
    P.append(dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=qt),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=hook)))
p("C01","Allocated blocks are exclusive, aligned and inside the region",
 "Every block handed out by the block allocator is a range of exactly the requested power-of-two size (4K to 256MB), aligned to that size, inside the shared region and overlapping no other live block and none of the allocator's own metadata. It stays exclusively the caller's until that caller frees it, whatever other allocations and frees happen in between.",
 ["histories","inputs"],"every sequence of allocations and frees of every legal size, at every fill level (including past the first segments)",
 "Tests allocate and free a handful of blocks in one order near the start of the region; overlap shows only for particular split/merge histories.",
 ["src/sassim.cpp","src/ultree.cpp","src/sasalloc.cpp"],
 [("power-of-two split of a free block and re-insert of remainders","src/sassim.cpp p2Alloc/SASBlockAlloc"),("size|offset keyed trees of uncommitted/free/used blocks","src/ultree.cpp")],
 [("free/uncommitted/used trees","which ranges are free, uncommitted or live","anchor block in segment 0")],["SASBlockAlloc/SASBlockDealloc return values"])
p("C02","Block space is conserved and fully reusable after frees",
 "The space the allocator reports as free, plus the live blocks and the allocator's fixed overhead, always equals the space obtained from the region: nothing is lost or counted twice. A freed block can be allocated again, buddies re-merge, and once every block is freed the free space is again what it was before, so a repeated workload never grows the store; an allocation fails only when no suitable space is left.",
 ["histories","inputs"],"every allocate/free history, including frees in any order and repeated fill/drain cycles",
 "Tests never compare the reported totals with an independent account over long histories; a leaked or double-counted buddy leaves every assertion true.",
 ["src/sassim.cpp","src/ultree.cpp"],
 [("buddy coalescing in block deallocation","src/sassim.cpp SASBlockDealloc"),("free-space accounting lists","src/sassim.cpp SASListFreeMem/SASListUncommittedMem/SASListInUseMem")],
 obs=["space-report API totals","addresses returned by allocation"])
p("C03","Concurrent block allocation by threads and processes stays exclusive",
 "When several threads and several processes joined to the same store allocate and free blocks concurrently, no two of them ever own overlapping blocks, and every successful operation takes effect as if they had run one at a time. No interleaving loses space.",
 ["schedules"],"every interleaving of allocator calls from any number of threads and joined processes",
 "The tests call the allocator from one process at a time (threads in a few), sampling one schedule per run.",
 ["src/sassim.cpp","src/saslock.cpp"],[("allocator critical section under the region lock","src/sassim.cpp SASBlockAlloc/SASBlockDealloc"),("cross-process lock table","src/sasmlock.cpp")],obs=["SASBlockAlloc/SASBlockDealloc in several processes"])
p("C04","The store survives detach and rejoin unchanged",
 "After every process has detached from a store, a process that joins it again finds every live block at the same address with the same bytes, the same registered root object, and the same free space, so that objects and pointers between them keep working and allocation continues without disturbing them. Removing a store erases it: the next join starts from an empty store.",
 ["histories"],"every history of joins, allocations, writes, frees, detaches, removes and resets, over any number of processes",
 "The tests run inside one process lifetime of a store; what a later process sees after a detach is asserted nowhere.",
 ["src/sassim.cpp","src/sasshm.c","src/sasio.c","src/sasalloc.cpp"],[("mapping segment files at fixed addresses on join","src/sassim.cpp SASJoinRegion*"),("root object slot","src/sassim.cpp getSASFinder/setSASFinder")],obs=["SASJoinRegion, SASCleanUp, SASRemove, SASReset, getSASFinder"])
p("C05","All joined processes see one address space",
 "A pointer into the shared region obtained in one process is valid, at the same address and with the same contents, in every other process joined to the same store, including memory in parts of the region that were created after the other process joined. Writes made by one process under a lock are seen by the next process that takes that lock.",
 ["histories","schedules"],"every set of joined processes and every order of join, region growth and access",
 "Tests touch freshly created segments only from the process that created them.",
 ["src/sassim.cpp","src/sasshm.c"],[("fixed-address shared mappings","src/sasshm.c"),("on-fault attachment of segments created by others","src/sassim.cpp fault handler")],obs=["loads and stores through shared pointers"])
p("C06","Any interior address leads back to the object that owns it",
 "For every address inside a live heap, stack, queue, log, index or context block of any legal block size, the near-object operations (find, allocate near, free near) resolve to exactly the innermost object that contains that address, and never to a neighbour or to nothing.",
 ["inputs","histories"],"every block size from 4K to 256MB, every position of the block and every interior address",
 "Tests probe a few addresses near the start of 4K-64K blocks.",
 ["src/sasalloc.cpp","src/sassimpleheap.cpp","src/sassimplestack.cpp","src/sphlockfreeheap.cpp","src/sascompoundheap.cpp"],[("block header search by size-aligned masking","src/sasalloc.cpp SASFindHeader")],obs=["SASFindHeader, *NearFind, *NearAlloc, *NearDealloc"])
p("C07","Shared locks exclude: writers alone, readers only with readers",
 "At any moment an address is locked either by nobody, by one writer, or by one or more readers, counting threads of every joined process; a lock granted stays granted until the same holder has released it as many times as it took it. Locks on different addresses never merge into one another or lose each other, however their addresses collide in the lock table.",
 ["schedules","histories"],"every interleaving of lock and unlock calls, any number of threads and processes, any set of addresses",
 "Tests take locks from two threads on one or two addresses; the failing histories need waiters, lock-slot reuse and address collisions at once.",
 ["src/saslock.cpp","src/sasmlock.cpp","src/saslockl.cpp","src/sasulock.cpp"],[("hashed lock lists with reusable entries","src/sasmlock.cpp, src/saslockl.cpp"),("reader/writer state machine with waiter counts","src/sasulock.cpp")],obs=["SASLock/SASUnlock/SASTryLock-style calls"],hook="guarded scheduling points in sasatom.h")
p("C08","Every lock waiter is eventually served; unrelated locks do not block",
 "If every holder eventually releases, every thread waiting for a lock, reader or writer, eventually obtains it: no wakeup is lost and no set of correct callers deadlocks inside the lock manager. A thread that already holds a lock may take it again without blocking, and holding a lock on one address never makes another thread wait for a different address.",
 ["schedules"],"every interleaving of lock/unlock calls by correct callers (up to the documented number of readers and waiters)",
 "A lost wakeup needs a release to fall in a window of a few instructions; a test run samples one schedule.",
 ["src/sasulock.cpp","src/saslockl.cpp","src/sasmlock.cpp"],[("waiter counters and semaphores","src/sasulock.cpp")],obs=["completion of lock calls under a controlled scheduler"],hook="guarded scheduling points in sasatom.h")
p("C09","Simple heap memory is exclusive, bounded and fully recoverable",
 "Memory allocated from a simple heap lies inside that heap, is 16-byte aligned, at least as large as requested and disjoint from every other live allocation and from the heap's header, for every sequence of allocations and frees. The reported free space always equals the heap's capacity minus the live allocations rounded to the allocation unit; adjacent free pieces coalesce, so an allocation smaller than the heap fails only if no contiguous free run is big enough, and the heap reports empty exactly when nothing is live.",
 ["histories","inputs"],"every sequence of allocation sizes and free orders, on any heap size",
 "Tests allocate a few equal pieces and free them in order; fragmentation histories are not explored.",
 ["src/freenode.c","src/sassimpleheap.cpp","src/sasalloc.cpp"],[("address-ordered coalescing free list","src/freenode.c")],obs=["SASSimpleHeapAlloc/Free/FreeSpace/Empty"])
p("C10","Stack and space allocations nest, stay in bounds and report truthfully",
 "Successive allocations from a simple stack are adjacent, aligned, disjoint and inside the stack until the stack is cut back; cutting back to an earlier allocation frees exactly what was allocated since, and nothing else, and out-of-range or misaligned cut-backs are refused without effect. Free space always equals the unallocated remainder, and a simple space covers the full requested size and maps back and forth between its handle and its address.",
 ["histories","inputs"],"every sequence of allocation sizes and cut-back points; every requested space size",
 "No listed test drives the stack or the space to their limits or through interleaved cut-backs.",
 ["src/sassimplestack.cpp","src/sassimplespace.cpp"],[("bump pointer with rounding","src/sassimplestack.cpp"),("size rounding and header page","src/sassimplespace.cpp")],obs=["SASSimpleStack*, SASSimpleSpace*"])
p("C11","Compound heap pages are exclusive, expandable and returned whole",
 "Every page obtained from a compound heap is a usable simple heap of the heap's page size, page aligned, inside the heap or one of its expansions and disjoint from every other live page; freeing a page makes exactly that page available again, from whichever block it came. Free and allocated space always agree with the live pages, a fixed heap fails only when full while an expandable one grows, and destroying the heap returns all its blocks to the store and leaves no lock held.",
 ["histories"],"every sequence of page allocations and frees (directly or via a nearby object), across expansions, with locked and lock-free variants of the calls",
 "The test fills a heap once in order; frees into expansion blocks and reuse after them are not checked.",
 ["src/sascompoundheap.cpp","src/freenode.c"],[("expansion list and load factor","src/sascompoundheap.cpp")],obs=["SASCompoundHeap* calls and SASBlockAlloc afterwards"])
p("C12","An index is a sorted map from keys to values",
 "For every sequence of put, replace, remove and lookup whose keys and values fit, an index behaves as a map: a key returns the value last put or replaced for it until it is removed, putting an existing key is refused and changes nothing, absent keys are reported absent. Emptiness, smallest key and largest key always match the contents, and keys order and convert back as the numbers they were built from.",
 ["histories","inputs"],"every history over any key set, sizes of tree that split and merge at several levels, all key constructors and values",
 "Tests insert ordered runs, look them up and delete a few; multi-level rebalance orders, refused puts, removes of absent keys and their effect on later answers are unchecked.",
 ["src/sasindex.cpp","src/sasindexnode.cpp","src/sasindexkey.h"],[("B-tree insert/split/delete/restore","src/sasindexnode.cpp"),("count/min/max bookkeeping","src/sasindex.cpp")],obs=["SASIndexPut/Replace/Remove/Get/ContainsKey/IsEmpty/GetMinKey/GetMaxKey"])
p("C13","Index enumeration visits every key once, in order",
 "An enumeration of an index returns the values of its keys in ascending key order, each exactly once, and, as of its last step, says there is more exactly while there is. If keys are inserted or removed while the enumeration is under way, it continues with the smallest key then present that is greater than the last one returned.",
 ["histories"],"every tree shape and every interleaving of enumeration steps with insertions and removals",
 "Tests enumerate unmodified trees of a few sizes.",
 ["src/sasindexenum.cpp","src/sasindexnode.cpp"],[("position cached with a modification count, re-searched when stale","src/sasindexenum.cpp")],obs=["SASIndexEnumCreate/Next/HasMore"])
p("C14","A string B-tree is a sorted map from strings to values",
 "For every sequence of put, replace, remove and lookup with strings of any length that fits, a string B-tree behaves as a map: a name returns the value last put or replaced until it is removed, putting an existing name is refused and changes nothing, absent names are reported absent. Emptiness, smallest and largest name always match the contents.",
 ["histories","inputs"],"every history over any set of names, including names of mixed length that overflow a node's own storage",
 "Tests use uniform generated names inserted in order; long names, spill storage and multi-level deletes are barely touched.",
 ["src/sasstringbtree.cpp","src/sasstringbtreenode.cpp"],[("B-tree with in-node key storage and spill heaps","src/sasstringbtreenode.cpp")],obs=["SASStringBTree* calls"])
p("C15","String enumeration visits every name once, in order, from its start",
 "An enumeration of a string B-tree returns the values of its names in ascending order, each exactly once, starting at the first name or at the given start name, and, as of its last step, says there is more exactly while there is. If names are inserted or removed while it is under way, it continues with the smallest name then present that is greater than the last one returned.",
 ["histories"],"every tree shape, start name, and interleaving of enumeration steps with insertions and removals",
 "Tests enumerate unmodified trees.",
 ["src/sasstringbtreeenum.cpp","src/sasstringbtreenode.cpp"],[("cached position with modification count","src/sasstringbtreeenum.cpp")],obs=["SASStringBTreeEnum* calls"])
p("C16","A context keeps names and addresses in one-to-one correspondence",
 "In a context, looking up a name gives the address it was added with and looking up that address gives that name back, until either is removed, which removes both; a name or an address already in use is refused without changing anything, and a rename moves the address to the new name or leaves the context unchanged. Repeated adding and removing consumes no space, and a project context registered under a name is found under that name by every process until it is removed or destroyed.",
 ["histories","inputs"],"every history of add, rename, remove by name, remove by address and lookup, with names of any length; any number of processes for project contexts",
 "The test adds a few names and removes them; refused operations and their side effects, name lengths and long histories are not covered.",
 ["src/sphcontext.cpp","src/sasstringbtree.cpp","src/sasindex.cpp"],[("paired name tree and address index","src/sphcontext.cpp")],obs=["SPHContext*, SPHSetupProjectContext and friends"])
p("C17","A producer/consumer queue delivers every entry once, in order, intact",
 "With one producer and one consumer running concurrently, every entry the producer completes is delivered to the consumer exactly once, in allocation order, with the contents and codes it was completed with, and never before it is completed. No entry is reused for a new allocation before the consumer has freed it.",
 ["schedules","histories"],"every interleaving of one producer and one consumer, every queue size and entry stride, all call variants (handle, direct, spinning)",
 "The threaded tests count entries over one schedule per run; an ordering window or early reuse changes only payloads in rare interleavings.",
 ["src/sphsinglepcqueue.cpp","src/sphsinglepcqueue.h","src/sphdirectpcqueue.h","src/sphlfentry.h"],[("valid/allocated flags in the entry header as the hand-over","src/sphsinglepcqueue.cpp")],obs=["SPHSinglePCQueue* and SPHLFEntryDirect* calls"],hook="guarded scheduling points in sasatom.h")
p("C18","Queue occupancy answers and refusals are truthful",
 "A queue accepts allocations until all its entries are in use and refuses exactly then; it reports empty, full, free space and number of entries in accordance with the entries produced and freed, at every point of every history. Entries lie inside the queue, at the advertised stride, never overlap each other, and a reset returns the queue to its initial, usable state.",
 ["histories","inputs"],"every history of allocate, complete, consume, free and reset; every legal stride and buffer size",
 "Tests use one or two strides and never reset a queue in use.",
 ["src/sphsinglepcqueue.cpp"],[("ring of fixed-stride entries","src/sphsinglepcqueue.cpp")],obs=["SPHSinglePCQueueFull/Empty/FreeSpace/ResetAsync/InitWithStride"])
p("C19","Concurrent log allocations are distinct, whole and attributed",
 "Log entries allocated concurrently by any number of threads never overlap, lie inside the log, are large enough for the request, and each shows the category, time and thread it was allocated with. An allocation fails only when the log has no room for it (a log that is not circular then counts as full until it is reset), and entries once completed are never altered while the log is not wrapped or reset.",
 ["schedules","inputs"],"every interleaving of allocating threads, every entry size and stride, up to and past the full log",
 "Threaded tests sum entries after one schedule; sizes are fixed and the full boundary is approached by one thread.",
 ["src/sphlflogger.cpp","src/sphlflogger.h"],[("atomic reservation of the next free address","src/sphlflogger.cpp")],obs=["SPHLFLoggerAlloc*/EntryComplete/iterators"],hook="guarded scheduling points in sasatom.h")
p("C20","Log iteration replays entries in order; a circular log keeps the newest",
 "Iterating a log returns exactly the entries that were allocated and completed, oldest first, each once; it pauses at an entry not yet complete and stops at the end. A circular log never refuses an allocation that fits it; when it wraps, the newest entries overwrite the oldest and entries not yet overwritten stay intact, for any number of threads wrapping at once. (Circular logs are iterated with their fixed stride, as documented.)",
 ["histories","schedules"],"every history of allocations of any sizes, completions, wraps and resets; every interleaving at the wrap point",
 "Tests wrap a log once with fixed strides and check counts only.",
 ["src/sphlflogger.cpp"],[("iterator over entry lengths","src/sphlflogger.cpp"),("wrap by compare-and-swap","src/sphlflogger.cpp")],obs=["SPHLFLoggerIterator*"],hook="guarded scheduling points in sasatom.h")
p("C21","A log portal spreads entries over its loggers and loses none",
 "Every successful allocation through a log portal is a valid entry of exactly one of its loggers; when the current logger fills, all threads move on to the next and no allocation is refused while any remaining logger has room. The portal reports the loggers it was given, in order, refuses more than it can hold, and iterating it returns all completed entries of all its loggers once.",
 ["schedules","histories"],"every interleaving of allocating threads at a logger switch; every number of loggers and fill state",
 "Tests fill two loggers from one schedule and never reach the portal's own capacity.",
 ["src/sphlogportal.cpp"],[("compare-and-swap advance of the current logger","src/sphlogportal.cpp")],obs=["SPHLogPortal* calls"],hook="guarded scheduling points in sasatom.h")
p("C22","Lock-free heap allocations are exclusive under any interleaving",
 "Memory obtained from a lock-free heap is inside the heap, aligned to the allocation unit (or as requested), large enough, and disjoint from the heap's metadata and from every allocation live in any thread; freeing a live allocation succeeds and returns exactly its space; a free that names free space, the heap's own data, an address outside the heap or between units, or a size that is not the allocation's, fails and changes nothing. When quiescent, reported free space equals capacity minus live allocations and freed space is allocatable again.",
 ["schedules","histories","inputs"],"every interleaving of allocating and freeing threads, every size, alignment and heap size",
 "The test runs single-threaded over a few sizes.",
 ["src/sphlockfreeheap.cpp","src/bitv.c","src/bitv_priv.h"],[("bit-vector allocation with end marks by compare-and-swap","src/bitv.c")],obs=["SPHLockFreeHeapAlloc/AlignAlloc/Free/FreeSpace"],hook="guarded scheduling points in sasatom.h")
p("C23","Typed entry data reads back as written and never leaves its entry",
 "Values of any of the supported types appended to an entry read back, with the matching read calls in the same order, as exactly the values written, at naturally aligned positions. An append that does not fit the remaining room of the entry is refused and writes nothing, and no append or read ever touches memory outside its entry.",
 ["inputs","histories"],"every sequence of typed appends and reads over every entry size",
 "Tests append a few fixed sequences that always fit.",
 ["src/sphlfentry.h","src/sphlflogentry.h"],[("cursor with alignment and remaining-length check","src/sphlfentry.h")],obs=["SPHLFEntryAdd*/Get*/AllocStruct*/Remaining"])
p("C24","A multi-producer/multi-consumer queue delivers each entry exactly once",
 "With any number of producers and consumers, every completed entry is handed to exactly one consumer, in allocation order, with its contents, and no entry is allocated again before it has been freed. Full and empty answers agree with the entries in the queue whenever it is quiescent.",
 ["schedules","histories"],"every interleaving of several producers and consumers, every capacity and stride",
 "The test runs one schedule and checks totals.",
 ["src/sphmultipcqueue.cpp","src/sphmultipcqueue.h"],[("locked head/tail advance with entry state word","src/sphmultipcqueue.cpp")],obs=["SPHMPMCQ* calls"],hook="guarded scheduling points in sasatom.h")
p("C25","Identity and time stamps name the caller truthfully",
 "The thread and process identities the library reports, uses to own locks and stamps into log entries are those of the calling thread and process (in entries, to the 16 bits kept there), distinct for distinct live threads, also in a process created by fork. Time stamps taken through the library never go backwards within a thread and lie between the clock readings taken around the call.",
 ["histories","configurations"],"every order of identity queries, thread creation and fork",
 "The test asks once in one thread.",
 ["src/sphthread.c","src/sphtimer.h","src/sphlflogger.cpp"],[("cached thread and process identity","src/sphthread.c")],obs=["sphdeGetTID/sphdeGetPID, entry headers, sphgettimer"])
p("C26","Atomic primitives are atomic under real concurrency",
 "Concurrent increments, fetch-and-add, fetch-and-or/and, swap and compare-and-swap lose no update and return values consistent with one total order of the operations, over their full operand width. Spin locks and pointer locks admit one holder at a time and are free again after unlock.",
 ["schedules","inputs"],"every interleaving of any number of threads on one word, all operand values",
 "The test calls each primitive once per value in one thread.",
 ["src/sasatom.h","src/sasatom_x86_64.h","src/sasatom_generic.h"],[("locked instructions","src/sasatom_x86_64.h")],obs=["sas_* primitives"])
p("C27","Shared objects used by many threads and processes behave as if their calls ran one at a time",
 "Threads of any number of processes may use one simple heap, stack, compound heap, index, string tree or context at the same time, through its locking calls - near-address calls included - or through the calls without locking while they hold the object's own lock. Every call then answers, and leaves the object, as if all the calls had run one at a time in an order that agrees with the order they were made in: memory handed out belongs to one caller until it is given back, no entry is lost or invented, and no lookup sees a half-made change. While a thread holds the object's lock, no other thread's call changes the object; while it holds it for writing, none looks at it. No call waits for ever.",
 ["schedules","histories"],"every interleaving of the calls of any number of threads and joined processes on one object, from every state of it",
 "The tests of these objects use them from one thread; a lock that is missing, taken for reading only, let go too early or taken in the wrong order changes no answer there.",
 ["src/sassimpleheap.cpp","src/sassimplestack.cpp","src/sascompoundheap.cpp","src/sasindex.cpp","src/sasindexenum.cpp","src/sasstringbtree.cpp","src/sasstringbtreeenum.cpp","src/sphcontext.cpp"],
 [("the object's lock around each call","SASLock/SASUnlock in the locking calls of each file"),("lock of the whole before the locks of its parts","src/sascompoundheap.cpp")],obs=["the locking calls of each object, and its NoLock calls under SASLock"],hook="thread instrumentation by the compiler; small fan-out of trees through the guarded hook")
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
