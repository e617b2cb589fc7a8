"""The checks, one function per property: models to check, traces to record and validate."""
from vlib import *

def seeds(chk, n, base=0):
    return [SEED * 10007 + base + i for i in range(n)]

def c09(chk):
    chk.model("FreeList", "MC_FreeList.cfg")
    exe = build_driver("heap_drv.c")
    sc = chk.scripts("FreeList", "GEN_FreeList.cfg")
    chk.validate("HeapTrace", "HeapTrace.cfg", chk.drive(exe, [["script", sc]]), "specification scripts", need=("alloc", "allocfail", "free", "space"))
    k = 1 if chk.quick else 8
    chk.validate("HeapTrace", "HeapTrace.cfg", chk.drive(exe, [["plain", s, 8, 700] for s in seeds(chk, 6 * k)]), "random, plain memory",
                 need=("alloc", "allocfail", "free", "space"))
    chk.validate("HeapTrace", "HeapTrace.cfg", chk.drive(exe, [["store", s, 3, 600] for s in seeds(chk, 4 * k, 500)]), "random, store",
                 need=("alloc", "allocfail", "free", "find", "destroy"))

def c10(chk):
    chk.model("MC_Stack", "MC_Stack.cfg")
    exe = build_driver("stack_drv.c")
    sc = chk.scripts("MC_Stack", "GEN_Stack.cfg")
    chk.validate("StackTrace", "StackTrace.cfg", chk.drive(exe, [["script", sc]]), "specification scripts", need=("push", "pushfail", "cut", "space"))
    k = 1 if chk.quick else 8
    chk.validate("StackTrace", "StackTrace.cfg", chk.drive(exe, [["plain", s, 6, 600] for s in seeds(chk, 4 * k)]), "random, plain memory",
                 need=("push", "pushfail", "hugefail", "cut", "badcut", "space"))
    chk.validate("StackTrace", "StackTrace.cfg", chk.drive(exe, [["store", s, 4, 500] for s in seeds(chk, 4 * k, 500)]), "random, store",
                 need=("push", "pushfail", "cut", "badcut", "spcreate", "spmap", "spdestroy", "destroy"))

def c11(chk):
    chk.model("MC_CompoundHeap", "MC_CompoundHeap.cfg")
    exe = build_driver("compound_drv.c")
    kinds = ("mk", "alloc", "free", "space", "del", "store")
    sc = chk.scripts("MC_CompoundHeap", "GEN_CompoundHeap.cfg")
    val = lambda jobs, label, need=(): chk.validate("CompoundHeapTrace", "CompoundHeapTrace.cfg", chk.drive(exe, jobs), label, need=need)
    val([["script", sc, i, 4] for i in range(4)], "specification scripts", kinds)
    k = 1 if chk.quick else 8
    val([["rand", s, 2, 300] for s in seeds(chk, 8 * k)], "random", kinds + ("allocfail",))
    val([["grow", s, 1, 0] for s in seeds(chk, 3 * k, 500)], "random, grown past the first list of blocks", kinds)

def map_check(chk, kind, enums):
    """C12..C15: sorted maps and their enumerations share the driver and the specification."""
    env = None if enums else {"VERIF_NOENUM": 1}
    base = {"index": 0, "string": 3000}[kind] + (1500 if enums else 0)
    chk.model("MC_SortedMap", "MC_SortedMap.cfg")
    chk.model("BTree", "MC_BTree.cfg")
    q = chk.quick
    if not q:
        chk.model("BTree", "MC_BTree_big.cfg")
        chk.model("BTree", "MC_BTree5.cfg")
    mapk = ("put", "rep", "rem", "get", "has", "empty", "min", "max") + (("count",) if kind == "string" else ("cmp", "back"))
    enk = ("enum", "next", "run", "more", "drop") + (("cur", "noenum") if kind == "string" else ())
    need = mapk + (enk if enums else ())
    rec = []
    def job(mode, jobs, label, need=()):
        exe = build_driver("map_drv.c", mode)
        chk.validate("MapTrace", "MapTrace.cfg", chk.drive(exe, [[kind] + j for j in jobs], env=env), label, need=need)
    def scripts(mode, sc, label, need=()):
        job(mode, [["script", sc, i, 8] for i in range(8)], label, need)
    if enums:
        sc = chk.scripts("MC_SortedMap", "GEN_SortedMap.cfg", limit=800 if q else None)
        scripts("plain", sc, "specification scripts", ("put", "rem", "enum", "next", "more"))
    sc = chk.scripts("BTree", "GEN_BTree.cfg" if q else "GEN_BTree_big.cfg", limit=(500 if enums else 1200) if q else 12000)
    scripts("fan3", sc, "B-tree scripts, fan-out 3", ("put", "rem", "get"))
    if not q:
        sc = chk.scripts("BTree", "GEN_BTree5.cfg", limit=12000)
        scripts("fan5", sc, "B-tree scripts, fan-out 5", ("put", "rem", "get"))
    k = 1 if q else 6
    job("plain", [["rand", s, 4, 400, 60] for s in seeds(chk, 4 * k, base)], "random, small", need)
    job("fan3", [["rand", s, 3, 500, 60] for s in seeds(chk, 3 * k, base + 400)], "random, fan-out 3")
    job("plain", [["rand", s, 2, 1500, 300] for s in seeds(chk, 3 * k, base + 800)], "random, two levels")
    job("fan5", [["rand", s, 1, 1200, 400] for s in seeds(chk, 2 * k, base + 1000)], "random, fan-out 5, deep")
    if not q:
        job("plain", [["rand", s, 1, 20000, 6000] for s in seeds(chk, 8, base + 1200)], "random, three levels at the real fan-out")

def c12(chk):
    map_check(chk, "index", False)
def c13(chk):
    map_check(chk, "index", True)
def c14(chk):
    map_check(chk, "string", False)
def c15(chk):
    map_check(chk, "string", True)

def c16(chk):
    chk.model("MC_Context", "MC_Context.cfg")
    chk.model("MC_Projects", "MC_Projects.cfg")
    q = chk.quick
    exe = build_driver("context_drv.c")
    val = lambda jobs, label, need=(): chk.validate("ContextTrace", "ContextTrace.cfg", chk.drive(exe, jobs), label, need=need)
    kinds = ("create", "add", "rmn", "rma", "ren", "fbn", "fba", "names", "space", "destroy", "setup", "prem", "pdel", "pget", "pcur", "join", "store")
    sc = chk.scripts("MC_Context", "GEN_Context.cfg")
    val([["ctx", sc, i, 8] for i in range(8)], "context scripts", ("add", "rmn", "rma", "ren", "names", "space"))
    sc = chk.scripts("MC_Projects", "GEN_Projects.cfg", limit=800 if q else None)
    val([["proj", sc, i, 8] for i in range(8)], "project scripts", ("setup", "prem", "pdel", "pget", "pcur"))
    k = 1 if q else 8
    val([["rand", s, 2, 500] for s in seeds(chk, 8 * k)], "random, up to three processes", kinds)
    val([["big", s, 1, 1200] for s in seeds(chk, 4 * k, 500)], "random, 200 names")

STORE = ("join", "leave", "remove", "wipe", "alloc", "allocfail", "free", "chk", "lists", "setroot", "getroot", "excl")
def store_val(chk, cfg):
    exe = build_driver("block_drv.c")
    return lambda jobs, label, need=(): chk.validate("StoreTrace", cfg, chk.drive(exe, jobs), label, need=need)

def block_models(chk):
    chk.model("BuddyTrees", "MC_Blocks.cfg")
    if not chk.quick:
        chk.model("BuddyTrees", "MC_Blocks_big.cfg")

def c01(chk):
    block_models(chk)
    val = store_val(chk, "StoreTraceC01.cfg")
    q, k = chk.quick, 1 if chk.quick else 8
    sc = chk.scripts("BuddyTrees", "GEN_Blocks.cfg", limit=4000 if q else None)
    val([["script", sc, i, 8] for i in range(8)], "allocator scripts", ("alloc", "free", "chk", "lists"))
    val([["rand", s, 3, 400] for s in seeds(chk, 8 * k)], "random", STORE)
    val([["far", s, 1, 400] for s in seeds(chk, 8 * k, 400)], "random, past 4 gigabytes", ("alloc", "free", "chk"))

def c02(chk):
    block_models(chk)
    val = store_val(chk, "StoreTrace.cfg")
    q, k = chk.quick, 1 if chk.quick else 8
    sc = chk.scripts("BuddyTrees", "GEN_Blocks.cfg", limit=4000 if q else None)
    val([["script", sc, i, 8] for i in range(8)], "allocator scripts", ("alloc", "free", "chk", "lists"))
    val([["rand", s, 2, 400] for s in seeds(chk, 8 * k, 800)], "random", STORE)
    val([["far", s, 1, 300] for s in seeds(chk, 4 * k, 1200)], "random, past 4 gigabytes", ("alloc", "free", "lists"))
    val([["cycle", s, 1, 0] for s in seeds(chk, 8 * k, 1600)], "repeated workloads", ("steady",))

def c04(chk):
    block_models(chk)
    val = store_val(chk, "StoreTrace.cfg")
    k = 1 if chk.quick else 8
    val([["stay", s, 3, 500] for s in seeds(chk, 8 * k, 2000)], "random, leaving and joining often", STORE)
    val([["rand", s, 1, 400] for s in seeds(chk, 4 * k, 2400)], "random", ("join", "leave"))

def c05(chk):
    block_models(chk)
    val = store_val(chk, "StoreTraceC01.cfg")
    k = 1 if chk.quick else 8
    val([["share", s, 2, 400] for s in seeds(chk, 8 * k, 3000)], "random, many segments made and used by three processes", STORE)
    val([["stay", s, 1, 400] for s in seeds(chk, 4 * k, 3400)], "random, leaving and joining often", ("join", "leave", "alloc", "chk"))
    chk.validate("RWLocksTrace", "RWLocksTraceC05.cfg", chk.drive(build_driver("lockp_drv.c"), [[s, 20] for s in seeds(chk, 8 * k, 3800)]),
                 "what locks protect, processes with threads", need=("got", "rel", "end"))

def c06(chk):
    chk.model("HeaderSearch", "MC_HeaderSearch.cfg")
    own = build_driver("own_drv.c")
    sc = chk.scripts("HeaderSearch", "GEN_HeaderSearch.cfg")
    chk.validate("OwnersTrace", "OwnersTrace.cfg", chk.drive(own, [["script", sc, i, 8] for i in range(8)]), "every transition of the search model",
                 need=("new", "gone", "find"))
    k = 1 if chk.quick else 10
    chk.validate("OwnersTrace", "OwnersTrace.cfg",
                 chk.drive(own, [["rand", s, 4 if chk.quick else 8, 400] for s in seeds(chk, 8 * k, 3000)]),
                 "random, owners of every kind and their contents", need=("new", "gone", "find", "near", "take", "give", "page"))

def lock_check(chk, cfg, base):
    q, k = chk.quick, 1 if chk.quick else 12
    chk.model("LockTable", "MC_LockTable.cfg")
    chk.model("LockTable", "MC_LockTable_four.cfg")
    if not q:
        chk.model("LockTable", "MC_LockTable_two.cfg")
        chk.model("LockTable", "MC_LockTable_big.cfg", timeout=3000)
    for v in ("addr", "drain", "slot"):
        chk.refutes("LockTable", "MC_LockTable_old%s.cfg" % v, "Progress")
    exe = build_driver("lock_drv.c", "sched", extra=["vsched.c"])
    val = lambda exe, jobs, label: chk.validate("RWLocksTrace", cfg, chk.drive(exe, jobs), label, need=("req", "got", "rel", "end"))
    val(exe, [[s, 150] for s in seeds(chk, 8 * k, base)], "threads under the schedule controller")
    exe = build_driver("lockp_drv.c")
    val(exe, [[s, 20] for s in seeds(chk, 8 * k, base + 400)], "processes with threads, system scheduling")

def c07(chk):
    lock_check(chk, "RWLocksTrace.cfg", 4000)
def c08(chk):
    lock_check(chk, "RWLocksTraceC08.cfg", 5000)

COMMON = ("The specification's own properties are checked exhaustively within the stated small constants; the code is bound to it "
          "by the recorded histories only: a change is caught if some explored history shows it. Trusts the harness's event recording and TLC. ")
SCHED = ("Schedules: sequentially consistent interleavings at the level of single accesses to shared memory, seeded random and priority-based; "
         "effects of weakly ordered memory are out of reach. ")
def c17(chk):
    chk.model("PCQRing", "MC_PCQRing.cfg")
    chk.model("PCQRing", "MC_PCQRing_two.cfg")
    chk.model("PCQRing", "MC_PCQRing_late.cfg")
    chk.refutes("PCQRing", "MC_PCQRing_early.cfg", "the space is given back before the entry is cleared")
    chk.refutes("PCQRing", "MC_PCQRing_nogap.cfg", "head meets tail on a full ring")
    q = chk.quick
    val = lambda jobs, exe, label: chk.validate("PCQConcTrace", "PCQConcTrace.cfg", chk.drive(exe, jobs, timeout=800), label, need=("create", "c", "r"))
    exe = build_driver("pcqc_drv.c", "sched", extra=["vsched.c"], instrumented=["pcq_ops.c"])
    val([[s, 40 if q else 300] for s in seeds(chk, 8 if q else 24)], exe, "one producer, one consumer, controlled schedules")
    exe = build_driver("pcqc_drv.c", "plain", extra=["vsched.c"], instrumented=["pcq_ops.c"])
    val([[s, 20 if q else 150, "real"] for s in seeds(chk, 8 if q else 24, 900)], exe, "one producer, one consumer, free-running threads")

def c18(chk):
    chk.model("MC_PCQueue", "MC_PCQueue.cfg")
    exe = build_driver("pcq_drv.c")
    val = lambda jobs, label, need=(): chk.validate("PCQueueTrace", "PCQueueTrace.cfg", chk.drive(exe, jobs), label, need=need)
    for cap in (1, 2, 3):
        sc = chk.scripts("MC_PCQueue", "GEN_PCQueue%d.cfg" % cap)
        val([["script", sc, i, 4, cap] for i in range(4)], "specification scripts, %d entries" % cap)
    k = 1 if chk.quick else 8
    val([["rand", s, 20, 300] for s in seeds(chk, 8 * k)], "random, plain memory")
    val([["store", s, 6, 200] for s in seeds(chk, 4 * k, 500)], "random, store")

def c03(chk):
    chk.model("RegionLock", "MC_RegionLock.cfg")
    chk.refutes("RegionLock", "MC_RegionLock_alloc.cfg", "an allocation that does not take the region's lock")
    chk.refutes("RegionLock", "MC_RegionLock_free.cfg", "a deallocation that does not take the region's lock")
    chk.refutes("RegionLock", "MC_RegionLock_grow.cfg", "adding a segment without the region's lock")
    val = lambda exe, jobs, label: chk.validate("BlockConcTrace", "BlockConcTrace.cfg", chk.drive(exe, jobs, timeout=800), label, need=("c", "r"))
    n = 1 if chk.quick else 12
    exe = build_driver("blockc_drv.c", flags=["-DREAL"])
    val(exe, [["real", s, 4, 20] for s in seeds(chk, 8 * n, 100)], "free-running threads")
    val(exe, [["procs", s, 4, 20] for s in seeds(chk, 8 * n, 500)], "processes")
    val(build_driver("blockc_drv.c", "sched", extra=["vsched.c"]), [["sched", s, 20 if chk.quick else 40, 6] for s in seeds(chk, 8 * n, 900)], "controlled schedules")

def c22(chk):
    chk.model("MC_LfHeap", "MC_LfHeap.cfg")
    for c in ("", "_more") if chk.quick else ("", "_more", "_deep"):
        chk.model("LfBits", "MC_LfBits%s.cfg" % c)
    chk.refutes("LfBits", "MC_LfBits_store.cfg", "the units are taken by a plain store")
    chk.refutes("LfBits", "MC_LfBits_units.cfg", "the units are given back before the end mark is taken away")
    exe = build_driver("lfheap_drv.c", flags=["-DREAL"])
    val = lambda exe, jobs, label, need: chk.validate("LfHeapTrace", "LfHeapTrace.cfg", chk.drive(exe, jobs, timeout=800), label, need=need)
    sc = chk.scripts("MC_LfHeap", "GEN_LfHeap.cfg", limit=4000 if chk.quick else None)
    val(exe, [["script", sc, i, 4] for i in range(4)], "scripts", ("alloc", "allocfail", "free", "bad"))
    n = 1 if chk.quick else 12
    val(exe, [["rand", s, 20, 80] for s in seeds(chk, 8 * n, 100)], "random, one thread", ("alloc", "allocfail", "free", "bad"))
    val(exe, [["store", s, 2, 100] for s in seeds(chk, 4 * n, 500)], "random, store", ("alloc", "free", "destroy", "bad"))
    val(exe, [["real", s, 30, 0] for s in seeds(chk, 8 * n, 900)], "free-running threads", ("c", "r"))
    val(build_driver("lfheap_drv.c", "sched", extra=["vsched.c"]), [["sched", s, 250 if chk.quick else 400, 0] for s in seeds(chk, 8 * n, 1300)], "controlled schedules", ("c", "r"))

def c23(chk):
    exe = build_driver("codec_drv.c")
    val = lambda jobs, label, need=(): chk.validate("EntryCodecTrace", "EntryCodecTrace.cfg", chk.drive(exe, jobs), label, need=need)
    for n, lo, hi in ((4, 4, 16), (16, 16, 32)):
        chk.model("MC_EntryCodec", "MC_EntryCodec%d.cfg" % n)
        sc = chk.scripts("MC_EntryCodec", "GEN_EntryCodec%d.cfg" % n)
        val([["script", sc, i, 4, lo, hi] for i in range(4)], "specification scripts, contents %d..%d" % (lo, hi), ("entry", "add", "get", "full", "dump"))
    k = 1 if chk.quick else 10
    val([["rand", s, 200, 40] for s in seeds(chk, 8 * k)], "random items, entries of 32 to 8000 bytes",
        ("add", "get", "take", "gets", "skip", "ptr", "short", "getsnone", "full", "dump", "align"))

def c24(chk):
    chk.model("MC_MPQueue", "MC_MPQueue.cfg")
    for c in ("", "_spmc", "_mpsc"):
        chk.model("MPQRing", "MC_MPQRing%s.cfg" % c)
    chk.refutes("MPQRing", "MC_MPQRing_nolock.cfg", "two consumers without the lock")
    chk.refutes("MPQRing", "MC_MPQRing_twop.cfg", "two producers without the lock")
    chk.refutes("MPQRing", "MC_MPQRing_notake.cfg", "an entry handed out is not marked as taken")
    q = chk.quick
    val = lambda exe, jobs, label, need=("create", "c", "r", "obs"): chk.validate("MPQueueTrace", "MPQueueTrace.cfg", chk.drive(exe, jobs, timeout=800), label, need=need)
    exe = build_driver("mpq_drv.c", flags=["-DREAL"], instrumented=["mpq_ops.c"])
    for cap in (1, 2, 3):
        sc = chk.scripts("MC_MPQueue", "GEN_MPQueue%d.cfg" % cap)
        val(exe, [["script", sc, i, 4, cap] for i in range(4)], "specification scripts, %d places" % cap)
    k = 1 if q else 8
    val(exe, [["rand", s, 10, 200] for s in seeds(chk, 8 * k)], "random, plain memory", ("obs", "isc", "resetq", "prefetch", "wrong", "nostride"))
    val(exe, [["store", s, 4, 150] for s in seeds(chk, 8 * k, 500)], "random, store", ("obs", "destroy"))
    val(exe, [["real", s, 6, 0] for s in seeds(chk, 8 * k, 900)], "producers and consumers, free-running threads", ("c", "r", "end"))
    exe = build_driver("mpq_drv.c", "sched", extra=["vsched.c"], instrumented=["mpq_ops.c"])
    val(exe, [["sched", s, 40, 0] for s in seeds(chk, 8 * k, 1300)], "producers and consumers, controlled schedules", ("c", "r", "end"))

def logger_seq(chk, seeds0=0):
    for k, size, circ in (("simple", 5, 0), ("circ2", 2, 1), ("circ3", 3, 1)):
        sc = chk.scripts("MC_Logger", "GEN_Logger_%s.cfg" % k)
        chk.validate("LoggerTrace", "LoggerTrace.cfg", chk.drive(build_driver("logger_drv.c", flags=["-DREAL"]), [["script", sc, i, 4, size, circ] for i in range(4)]),
                     "specification scripts, %s" % k, need=("create", "alloc", "complete", "open", "next", "clear"))
    k = 1 if chk.quick else 8
    exe = build_driver("logger_drv.c", flags=["-DREAL"])
    val = lambda jobs, label, need: chk.validate("LoggerTrace", "LoggerTrace.cfg", chk.drive(exe, jobs), label, need=need)
    val([["rand", s, 14, 150] for s in seeds(chk, 8 * k, seeds0)], "random, plain memory", ("alloc", "allocfail", "next", "nextnone", "resetfull", "prefetch", "hugefail", "wrong", "iscomp"))
    val([["store", s, 4, 90] for s in seeds(chk, 8 * k, seeds0 + 500)], "random, store", ("alloc", "next", "destroy"))

def c19(chk):
    for c in ("", "_four", "_one"):
        chk.model("LogWrap", "MC_LogWrap%s.cfg" % c)
    chk.refutes("LogWrap", "MC_LogWrap_oldwait.cfg", "waiting for the wrap by comparing with one's own place")
    k = 1 if chk.quick else 10
    val = lambda exe, jobs, label: chk.validate("LoggerTrace", "LoggerTrace.cfg", chk.drive(exe, jobs, timeout=800), label, need=("c", "r", "next"))
    val(build_driver("logger_drv.c", flags=["-DREAL"]), [["real", s, 30, 0] for s in seeds(chk, 8 * k, 900)], "free-running threads")
    val(build_driver("logger_drv.c", "sched", extra=["vsched.c"]), [["sched", s, 150, 0] for s in seeds(chk, 8 * k, 1300)], "controlled schedules")
    if not chk.quick:
        logger_seq(chk, 7000)
    else:
        exe = build_driver("logger_drv.c", flags=["-DREAL"])
        chk.validate("LoggerTrace", "LoggerTrace.cfg", chk.drive(exe, [["rand", s, 8, 120] for s in seeds(chk, 8, 3000)]), "random, one thread", need=("alloc", "allocfail", "hugefail", "wrong"))

def c25(chk):
    chk.model("IdentCache", "MC_IdentCache.cfg")
    chk.refutes("IdentCache", "MC_IdentCache_pid.cfg", "a forked process keeps the remembered process id")
    chk.refutes("IdentCache", "MC_IdentCache_tid.cfg", "a forked process keeps the remembered thread id")
    chk.refutes("IdentCache", "MC_IdentCache_shared.cfg", "threads share the word that remembers the thread id")
    val = lambda exe, jobs, label, need: chk.validate("IdentTrace", "IdentTrace.cfg", chk.drive(exe, jobs, timeout=800), label, need=need)
    n = 1 if chk.quick else 15
    exe = build_driver("ident_drv.c", tail=["src/sphgtod.c", "src/sphgettime.c"])
    val(exe, [["tree", s, 10, 30] for s in seeds(chk, 8 * n, 100)], "threads and forks", ("start", "ask", "stamp", "timer", "gettime", "gtod", "conv", "convmicro", "cmd", "end", "scales"))
    val(exe, [["tree", s, 6, 80] for s in seeds(chk, 8 * n, 500)], "larger families", ("start", "ask", "stamp"))
    val(exe, [["lockfork", s, 4, 0] for s in seeds(chk, 8 * n, 900)], "a lock across a fork", ("got", "rel"))

def c26(chk):
    chk.model("WordUse", "MC_WordUse.cfg")
    chk.refutes("WordUse", "MC_WordUse_split.cfg", "adding reads, then writes")
    chk.refutes("WordUse", "MC_WordUse_half.cfg", "adding stops at half of the word")
    chk.refutes("WordUse", "MC_WordUse_peek.cfg", "taking the lock looks, then writes")
    val = lambda exe, jobs, label, need: chk.validate("WordTrace", "WordTrace.cfg", chk.drive(exe, jobs, timeout=800), label, need=need)
    n = 1 if chk.quick else 12
    exe = build_driver("atom_drv.c", extra=["atom_ops.c"], flags=["-DREAL"])
    val(exe, [["seq", s, 20, 200] for s in seeds(chk, 8 * n, 100)], "one thread", ("do",))
    val(exe, [["real", s, 40, 6] for s in seeds(chk, 8 * n, 500)], "free-running threads", ("c", "r", "end"))
    val(exe, [["burst", s, 1, 0] for s in seeds(chk, 8 * n, 900)], "bursts", ("burst",))
    val(build_driver("atom_drv.c", "sched", extra=["vsched.c"], instrumented=["atom_ops.c"]), [["sched", s, 60 if chk.quick else 120, 6] for s in seeds(chk, 8 * n, 1300)], "controlled schedules", ("c", "r", "end"))

def c20(chk):
    for c in ("simple", "circ2", "circ3", "mixed"):
        chk.model("MC_Logger", "MC_Logger_%s.cfg" % c)
    chk.refutes("LogWrap", "MC_LogWrap_late.cfg", "the wrap is marked after the start is open again")
    logger_seq(chk)
    exe = build_driver("logger_drv.c", flags=["-DREAL"])
    chk.validate("LoggerTrace", "LoggerTrace.cfg", chk.drive(exe, [["big", s, 10, 0] for s in seeds(chk, 2, 77)]), "entries of 4096 bytes and more (known finding)", need=("next",))
    k = 1 if chk.quick else 8
    exe = build_driver("logger_drv.c", "sched", extra=["vsched.c"])
    chk.validate("LoggerTrace", "LoggerTrace.cfg", chk.drive(exe, [["sched", s, 60, 0] for s in seeds(chk, 8 * k, 2300)], timeout=800), "wraps under controlled schedules", need=("c", "r", "next"))

def c21(chk):
    for c in ("two", "over", "circ") if chk.quick else ("two", "three", "over", "circ"):
        chk.model("MC_Portal", "MC_Portal_%s.cfg" % c)
    for c in ("", "_three", "_takers"):
        chk.model("PortalList", "MC_PortalList%s.cfg" % c)
    chk.refutes("PortalList", "MC_PortalList_late.cfg", "a log is counted before it is in its slot")
    chk.refutes("PortalList", "MC_PortalList_count.cfg", "the number of logs is read before the number of the current one")
    exe = build_driver("portal_drv.c", flags=["-DREAL"])
    val = lambda exe, jobs, label, need: chk.validate("PortalTrace", "PortalTrace.cfg", chk.drive(exe, jobs, timeout=800), label, need=need)
    lim = 3500 if chk.quick else None
    for k, cap, over, circ in (("two", 2, 0, 0), ("over", 2, 1, 0), ("circ", 2, 0, 2)):
        sc = chk.scripts("MC_Portal", "GEN_Portal_%s.cfg" % k, limit=lim)
        val(exe, [["script", sc, i, 4, cap, over, circ] for i in range(4)], "scripts " + k, ("alloc", "next", "nextnone", "add", "clear"))
    n = 1 if chk.quick else 12
    val(exe, [["rand", s, 25, 100] for s in seeds(chk, 8 * n, 100)], "random, one thread", ("alloc", "allocfail", "next", "wrong"))
    val(exe, [["store", s, 2, 120] for s in seeds(chk, 4 * n, 500)], "random, store", ("alloc", "next", "destroy"))
    val(exe, [["real", s, 40, 0] for s in seeds(chk, 8 * n, 900)], "free-running threads", ("c", "r", "next"))
    val(build_driver("portal_drv.c", "sched", extra=["vsched.c"]), [["sched", s, 90 if chk.quick else 150, 0] for s in seeds(chk, 8 * n, 1300)], "controlled schedules", ("c", "r", "next"))

def c27(chk):
    chk.model("LockedCall", "MC_LockedCall.cfg")
    for v, what in (("reader", "a call that writes takes the reader's lock"), ("early", "the lock is let go before the last write"), ("bare", "a near-address call takes no lock"),
                    ("bareread", "a call that reads takes no lock"), ("order", "a part is locked before the whole")):
        chk.refutes("LockedCall", "MC_LockedCall_%s.cfg" % v, what)
    val = lambda exe, jobs, label, need: chk.validate("SharedTrace", "SharedTrace.cfg", chk.drive(exe, jobs, timeout=850), label, need=need)
    n = 1 if chk.quick else 12
    planned = {lib: build_driver("shared_drv.c", lib, extra=["vsched.c"]) for lib in ("sched", "schedfan3")}
    free = build_driver("shared_drv.c", flags=["-DREAL"])
    for k, lib in (("heap", "sched"), ("stack", "sched"), ("pages", "sched"), ("index", "schedfan3"), ("strings", "schedfan3"), ("context", "schedfan3")):
        exe = planned[lib]
        jobs = [["plan", k, s, 30 if chk.quick else 60, 3] for s in seeds(chk, 8 * n, 100)]
        val(exe, jobs, k + ", one thread put off at one step after another", ("c", "r"))
        jobs = [["sched", k, s, 15, 12] for s in seeds(chk, 8 * n, 500)]
        val(exe, jobs, k + ", controlled schedules", ("c", "r"))
        jobs = [["procs", k, s, 12, 25] for s in seeds(chk, 4 * n, 900)] + [["real", k, s, 12, 25] for s in seeds(chk, 4 * n, 1300)]
        val(free, jobs, k + ", free-running threads and processes", ("c", "r"))

META = {
 "C01": ("seq", COMMON + "Histories: transitions of the buddy-tree model, seeded random histories over one to three processes, near the start of the region and past 4 GB."),
 "C02": ("seq", COMMON + "Histories: as for C01, plus repeated workloads and refused segments (no descriptor, no file space, no address space). The five lists the allocator reports are compared with the specification's accounts."),
 "C04": ("seq", COMMON + "Histories: seeded random, over up to three processes that join, leave, end without leaving, reset and remove the store."),
 "C05": ("seq", COMMON + "Histories: seeded random, over three processes; each process writes and reads blocks in segments the others made. Accesses are ordered by the driver, so this says nothing of weak-memory effects between processors."),
 "C06": ("seq", COMMON + "Histories: every transition of the header-search model and seeded random histories of owners of every kind (simple heap, compound heap, queue allocator, page allocator, lock-free heap, ...) created, used and destroyed in blocks of every size."),
 "C07": ("sched", COMMON + SCHED + "The lock manager's algorithm is a model of its own (LockTable), checked exhaustively for 3 threads on one and two addresses and 4 threads on one; histories: 2 to 14 threads on one address, on addresses sharing a slot of the table and on others, and real processes with threads."),
 "C08": ("sched", COMMON + SCHED + "As for C07. Progress is judged as: no reachable state of the model, and no explored schedule of the code, in which nobody can go on although the lock asked for is free; a starving but served waiter is not looked for."),
 "C09": ("seq", COMMON + "Histories: every transition of a 5-unit heap, plus seeded random histories on plain memory and in a real store."),
 "C10": ("seq", COMMON + "Histories: every transition of a small stack with marks, plus seeded random histories on plain memory and in a real store."),
 "C11": ("seq", COMMON + "Histories: every transition of the small page model, seeded random histories over up to four heaps of several page sizes, and growth past 254 blocks; locked calls alternate between two threads, so a lock left held shows as a hang."),
 "C12": ("seq", COMMON + "Histories: every transition of the small-fan-out B-tree model (library compiled with fan-out 3 and 5 through the guarded hook) and seeded random histories at both fan-outs, all key kinds."),
 "C13": ("seq", COMMON + "Histories: every transition of the small map-and-enumeration model plus seeded random histories with up to four enumerations over changing maps."),
 "C14": ("seq", COMMON + "Names up to 400 bytes. Histories as for C12."),
 "C15": ("seq", COMMON + "Names up to 400 bytes. Histories as for C13, with enumerations started at a given name."),
 "C16": ("seq", COMMON + "Histories: every transition of a 3-name, 3-address context and of the two-process project model, plus seeded random histories over up to three processes that come and go."),
 "C17": ("sched", COMMON + SCHED + "The ring's hand-over protocol is a model of its own (PCQRing, refining the abstract queue), in which clearing an entry after giving its space back is refuted. Histories: queues of 1 to 6 entries, all call variants (handle, direct, spinning), plus free-running threads."),
 "C18": ("seq", COMMON + "Histories: every transition of the model for 1 to 3 entries, and seeded random histories over strides from 16 bytes to 60 KB, buffers of every alignment, reset and reused storage, on plain memory and in a store."),
 "C19": ("sched", COMMON + SCHED + "The way threads share the slots of a circular log is a model of its own (LogWrap: 3 and 4 threads, 1 to 3 slots). Histories: 2 to 4 threads, simple logs up to and past their end with an iterating thread, circular logs that wrap once or again and again. A thread that stalls while holding an entry for a whole lap of a circular log is outside what is judged, as are readers that race with a wrap. Sequential histories with all entry lengths up to 4080 bytes."),
 "C20": ("seq", COMMON + "Histories: every transition of small simple and circular logs (2 and 3 slots), seeded random histories over strides and sizes up to 4080 bytes, in clean, dirty and entry-like storage and in a store, resets, up to three iterators at once; wraps by several threads under controlled schedules. Circular logs with entries of different lengths are not iterated once wrapped (the documentation asks for a fixed stride)."),
 "C21": ("sched", COMMON + SCHED + "The list of logs is a model of its own, one shared access per step (PortalList: up to 3 adding and 3 logging threads), in which counting a log before it is in its slot, or reading the counts in the other order, is refuted. Histories: every transition of small portals of simple and circular logs with resets, seeded random histories in clean and dirty storage and in a store, 2 to 4 threads that log, add logs, ask and iterate at once. An iterator may go on past a log that ends in an unfinished entry; raw allocation is only judged by place and size."),
 "C03": ("sched", COMMON + SCHED + "The region's lists under the region's lock are a model of their own (RegionLock: allocations, deallocations and segments added by several threads, list by list), in which leaving the lock out of any of the three is refuted. Histories: 2 to 4 threads or processes that allocate and free blocks of every power of two up to 256 MB, hand blocks to each other, and fill blocks with patterns that their owner reads back; free-running and under controlled schedules. The search only looks for the instant of each call between its call and its return."),
 "C25": ("proc", COMMON + "What is remembered by a process and by its threads is a model of its own (IdentCache), in which a forked process that keeps either word, or threads that share one, are refuted. Histories: random families of up to 60 threads and forked processes, four deep, that ask in every order, start each other and end, and stamp entries of loggers and queues; identities are compared with what the kernel answers the same thread (to the 16 bits that an entry holds), times with the clock read before and after. Conversions of time stamps are compared with exact arithmetic, over all seconds below 2^31; the offset of the library's scale is bounded by the time the program took to start. Processes made without the C library's fork are not covered."),
 "C27": ("sched", COMMON + SCHED + "The shape of a locked call is a model of its own (LockedCall: one object and a part of it with a lock of its own), in which a writer with the reader's lock, a lock let go early, calls without a lock and the other locking order are refuted. Each object is specified as for one thread (Heap, Stack, CompoundHeap, SortedMap, Context); a history is accepted if some order of its calls that agrees with their intervals explains every answer and what the object holds in the end. Histories: two threads of one to three calls each of which one is put off at about forty of its steps, one after the other, until the other has finished or waits (sometimes with a second switch); 2 to 3 threads under random and priority schedules; up to 3 free-running processes with up to 2 threads each, and up to 4 free-running threads; trees with fan-out 3 in the controlled schedules. Calls that the documentation does not let run at the same time (creation, destruction, adding to a compound heap's parts under the caller's lock of the whole) are not mixed."),
 "C26": ("sched", COMMON + SCHED + "What each primitive makes of a word is specified limb by limb (Word, checked exhaustively for small words; counting by a read and a write, counting in half of the word, and taking the lock by a look and a write are refuted). Histories: one thread over random and edge operands, with the neighbouring words watched; 2 to 4 threads free-running and under controlled schedules; bursts of up to 6000 operations of one kind on one word, of which every answer is explained. x86_64 only: the other processors' headers cannot run here."),
 "C22": ("sched", COMMON + SCHED + "The bits of one word are a model of their own, one atomic instruction per step (LfBits: 2 and 3 threads), in which taking the units by a plain store, or giving them back before the end mark is gone, is refuted. Histories: every transition of a small heap of two words, seeded random histories over units of 16 to 2048 bytes, 2 to 128 words, all sizes up to and past the largest, all alignments, in clean and dirty memory and in a store; 2 to 4 threads that share the last free units. An address inside an allocation is not told from its start by the heap and is not given to it; an allocation may give up on a word that changed twice while it looked."),
 "C23": ("seq", COMMON + "Both entry families (queue and log). Entries end at an inaccessible page or are surrounded by pattern bytes, so that any access outside shows; histories: every transition of the model for the two smallest entries and seeded random items over entries of up to 8000 bytes."),
 "C24": ("sched", COMMON + SCHED + "The ring's protocol is a model of its own (MPQRing), checked for two producers and two consumers and for the unlocked one-sided variants; without the lock, or without marking a taken entry, it is refuted. Histories: up to 3 producers and 3 consumers, free-running and scheduled, and sequential histories with every transition of the model for 1 to 3 places. Occupancy answers are judged when no call is under way."),
}
HOOK_COMMITS = ["dd44842", "bfb5231"]
ALL = {k.upper(): v for k, v in list(globals().items()) if re.fullmatch(r"c\d\d", k)}
