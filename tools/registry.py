"""Which symbolic-execution jobs decide which property, within which bounds."""
import vlib
from vlib import Job, SRC, PYSRC
SC = [SRC + "Server.cpp", SRC + "Client.cpp"]
TY = ["fr", "fc", "dr", "dc", "ir", "ic", "br", "bc"]
TYPES = "all 4 element types (float, double, int, bool) x both layouts"
COMMON_ASSUMPTIONS = [
  "the repository's C++ is compiled by clang 18 -O1 to LLVM IR and that IR is executed symbolically; the shipped library is built by gcc -O3 (same source, no undefined behaviour found on the explored paths)",
  "shm_open/ftruncate/mmap/munmap/close/sem_*/nanosleep/usleep follow the POSIX model in rt/model.cpp; each is one atomic step; stores to shared memory are sequentially consistent",
  "the C++ run-time library (strings, exceptions, hash tables' prime policy) follows rt/symrt.cpp; Eigen, std::string, std::vector, std::map are the real headers",
  "z3 4.8.12 is trusted for unsat answers; every sat answer is replayed on a native build of the same code before it is reported"]
PROPS = {}
def prop(pid, title, bounds, jobs, **kw): PROPS[pid] = dict(title=title, bounds=bounds, jobs=jobs, **kw)
def thorough(t): return t == "thorough"

# ---------------------------------------------------------------- data path
SHAPES_Q = {"fr": (2, 3), "fc": (2, 2), "dr": (2, 2), "dc": (2, 3), "ir": (3, 2), "ic": (2, 2), "br": (2, 2), "bc": (3, 2)}
def rw(tier, safe, full):
    js = []
    for t in TY:
        shapes = [SHAPES_Q[t]] if not thorough(tier) else [(2, 3), (3, 2), (1, 4), (4, 1), (1, 1)]
        for R, C in shapes:
            for s in safe:
                js.append(Job("data.cpp", "rw_" + t, SC, cfg=dict(R=R, C=C, safe=s, **({} if full else {"maxpat": 1, "minblk": 0})), time=600 if tier == "quick" else 3000, need=["refused", "written", "read"], weight=R * C,
                    bounds="tensor %dx%d, every block size %d..R+1 x %d..C+1, row and col any 32-bit value, every cell and buffer byte symbolic, references (blocks of a larger tensor, whole tensors) and 7 stride patterns" % (R, C, full, full)))
        for R, C in [(96, 48)] + ([(3, 2900), (2900, 3)] if thorough(tier) else {"fr": [(2900, 3)], "ic": [(3, 2900)]}.get(t, [])): js.append(Job("big.cpp", "big_" + t, SC, cfg=dict(R=R, C=C), time=600 if tier == "quick" else 3000, need=["refused", "written", "read"], weight=5, bounds="tensor %dx%d, whole, all but one row and column, one row, one column, 32x16 blocks at the last positions inside and at every 32-bit position outside, all data symbolic" % (R, C)))
    return js
B_RW = "tensors up to 3x2/2x3 (quick) and 4x1/1x4/2x3/3x2 (thorough); " + TYPES + "; every block size up to one more than the tensor in each direction; row and column any 32-bit integers; all data bytes symbolic; destination/source by reference or whole tensors or views with contiguous, padded in one or both directions, transposed, reversed in one or both directions and (writes) zero strides; server and client endpoints; one call (plus one follow-up call); the same with 96x48, 2900x3 and 3x2900 tensors, five block shapes, five kinds of caller memory, positions at the far edge or outside"
prop("C01", "block transfers are exact", B_RW, lambda t: rw(t, [0, 1], 1), outside="larger tensors and other stride values; calls of several threads (C03)")
prop("C02", "out-of-range requests are refused without effect", B_RW.replace("every block size", "every block size including empty"), lambda t: rw(t, [0, 1], 0), outside="larger tensors")
prop("C04", "reads and writes never block and respect a held lock", "2x2 tensor, " + TYPES + ", each endpoint safe or unsafe, holder server or client, read and write, inside and any outside position (32-bit)", lambda t: [Job("data.cpp", "held_" + x, SC, time=600, need=["refused while held", "unsafe call went through"], bounds="one call against a held lock") for x in TY] + conc_torn(t)[:2], outside="more than three concurrent parties")
def conc_torn(t):
    c = [dict(), dict(ref=0), dict(server_reads=1), dict(nops=2, writers=1, readers=1), dict(readers=2, writers=1), dict(writers=3, readers=0), dict(cells=3)]
    if thorough(t): c += [dict(nops=2), dict(nops=2, server_reads=1), dict(cells=3, ref=0, nops=2), dict(writers=2, readers=2)]
    return [Job("conc.cpp", "torn", SC, cfg=x, time=600 if t == "quick" else 3000, need=["end", "all succeeded"], bounds="every interleaving of %s" % x) for x in c] + [Job("big.cpp", "big_torn", SC, cfg=dict(R=R, C=C), time=600, need=["end", "other succeeded", "undisturbed"], bounds="one call on a %dx%d tensor, another party's whole read or write at any semaphore operation of it" % (R, C)) for R, C in ((96, 48), (2900, 3), (3, 2900))]
prop("C03", "no torn data between safe endpoints", "1xN int tensor with N = 2 (3 in some runs); up to 3 concurrent parties (thorough: 4), up to 2 operations each; every interleaving of semaphore operations and 4-byte (or smaller) memory accesses; values symbolic; one call on a 96x48, 2900x3 or 3x2900 tensor disturbed by another whole read or write at any semaphore operation", conc_torn, outside="weak-memory reordering inside a critical section (semaphores are full barriers), more parties")
# ---------------------------------------------------------------- life cycle
def hist(p, depths, tier, ops0=None, extra=()):
    js = []
    for (e, d, kw) in depths: js.append(Job("life.cpp", e, SC, cfg=dict(prop=p, depth=d, **kw), time=700 if tier == "quick" else 6000, need=["end"], weight=9, bounds="every history of %d calls over the operation alphabet starting from '%s'" % (d, {"hist0": "server constructed", "hist1": "server running", "hist2": "server running, client attached"}[e])))
    return js
def depths(t, p):
    if thorough(t): return [("hist0", 5, {}), ("hist1", 4, {}), ("hist2", 4, {}), ("hist2", 3, dict(safe=0))]
    return [("hist0", 3, {}), ("hist1", 3, {}), ("hist2", 3, {}), ("hist2", 2, dict(safe=0))]
B_H = "every sequence of up to 3 (thorough: 4-5) further calls of run, stop, close, attach, detach, client close, client destruction, manual acquire/release, read, write, count and mismatched attach on one server and two clients, data symbolic"
MAN = lambda t: [Job("conc.cpp", "manual", SC, cfg=x, preempt=p, time=600, need=["end"], bounds="every interleaving%s of %s" % ("" if p < 0 else " with at most %d preemptions" % p, x)) for x, p in [*[(dict(intruder_reads=r, view=v, server=s), -1) for r in (1, 0) for v in (0, 1) for s in (0, 1)], (dict(intruder=0, lockers=3), -1), (dict(intruder=1, rounds=2), 2 if t == "quick" else 5), (dict(intruder=0, lockers=3, rounds=2), 3 if t == "quick" else 6)]] + [Job("conc.cpp", "manual_vs_safe", SC, time=600, need=["end", "refused", "granted"])]
COUNT = lambda t: [Job("conc.cpp", "counting", SC, cfg=x, time=600 if t == "quick" else 4000, need=["end"], bounds="every interleaving of %s clients each running one of 7 attach/detach/close/destroy scripts" % x.get("clients", 2)) for x in ([dict(), dict(count=1, clients=1)] + ([dict(clients=3), dict(count=1)] if thorough(t) else []))]
START = lambda t: [Job("conc.cpp", "startup", SC, cfg=x, preempt=p, time=600, need=["end"], bounds="server and %d client(s) start in every order, %s" % (x.get("clients", 1), "every interleaving" if p < 0 else "at most %d preemptions" % p)) for x, p in [(dict(clients=1), -1), (dict(clients=2), 2 if t == "quick" else 4)]] + [Job("conc.cpp", "startup_exchange", SC, time=600, need=["end"]), Job("conc.cpp", "startup_late", SC, cfg=dict(polls=20000 if t == "quick" else 300000), time=600, need=["end"], bounds="the server is built and runs only after 20000 (thorough 300000) polls of the waiting client")]
RACE = lambda t: [Job("conc.cpp", "takeover", SC, time=600, need=["end", "second runs", "second refused"]), Job("conc.cpp", "race_construct", SC, preempt=3 if t == "quick" else 6, time=600, need=["end"])]
prop("C05", "the data lock is conserved over any history", B_H + "; plus concurrent histories of up to 3 parties", lambda t: hist(5, depths(t, 5), t) + [Job("life.cpp", "lock_two_servers", SC, cfg=dict(depth=5 if t == "quick" else 7), time=600 if t == "quick" else 3000, need=["end", "counted"], bounds="two servers taking turns and two clients, every history of 5 (thorough 7) calls")] + MAN(t)[:9] + COUNT(t)[:1], outside="longer histories")
prop("C06", "at most one running server per name", "every sequence of 4 (thorough 6) run/stop calls of two servers of one name, and every interleaving (construction race: at most 3 preemptions) of two servers constructing, running, stopping", lambda t: [Job("life.cpp", "two_servers", SC, cfg=dict(depth=4 if t == "quick" else 6), time=600, need=["end", "refused", "taken over"]), Job("life.cpp", "second_server_intrusion", SC, time=300)] + RACE(t) + hist(6, [("hist1", 3, {})], t), outside="three or more servers")
prop("C07", "attach completes only against a running server, with its shape", B_H + "; start-up of one server with one or two clients in every interleaving; a server that runs only after 20000 (thorough 300000) polls", lambda t: START(t) + hist(7, [("hist1", 3, {}), ("hist2", 2, {})] if t == "quick" else depths(t, 7), t), outside="attach pending across two server generations")
prop("C08", "mismatched clients are rejected without side effects", "8 server variants (of 1..2 x 1..2 cells) x 8 client variants; rejection before/after another client, once or twice, followed by attach and data exchange; rejection inside histories of up to 2 further calls", lambda t: [Job("life.cpp", "cross_types", SC, time=600, need=["rejected", "accepted"]), Job("life.cpp", "mismatch_then_ok", SC, time=600, need=["rejected", "exchanged"])] + hist(8, [("hist2", 2, {})] if t == "quick" else [("hist2", 3, {}), ("hist1", 4, {})], t))
prop("C09", "the client count equals the number of attached clients", B_H + "; every interleaving of two (thorough: three) clients running one of 7 scripts each", lambda t: hist(9, depths(t, 9), t) + COUNT(t))
prop("C10", "operations outside the active state are refused", "2x2 tensors, " + TYPES + ", four inactive states per endpoint reached by one or two calls; histories as for C05", lambda t: [Job("data.cpp", e + x, SC, time=600, need=["end"]) for e in ("inactive_", "unattached_") for x in TY] + [Job("str.cpp", "str_inactive", SC, time=600, need=["end"], weight=5, bounds="string tensor, server and client, each inactive state"), Job("pc.cpp", "pc_inactive", PC, time=600, need=["end"], bounds="producer and consumer, four inactive states, each operation")] + hist(10, [("hist1", 2, {}), ("hist2", 2, {})] if t == "quick" else [("hist0", 4, {}), ("hist2", 3, {})], t))
prop("C11", "close returns every resource exactly once", B_H + ", followed by closing and destroying everything in every order", lambda t: hist(11, [("hist0", 3, {}), ("hist1", 2, {}), ("hist2", 2, {})] if t == "quick" else [("hist0", 4, {}), ("hist1", 4, {}), ("hist2", 3, {})], t) + [Job("str.cpp", "str_shared_mem", SC, time=300)])
prop("C29", "a fresh server starts from a clean state", "first server of 1..3 x 2 ints with up to two clients and symbolic contents, stopped or not, closed, destroyed or not; second server of 3 type/layout combinations and 1..3 x 1..3 cells, with or without force_reconnection; an old client closing late", lambda t: [Job("life.cpp", "generations", SC, cfg=dict(rows1=r, type2=k), time=800, need=["end"], bounds="first server %d x 2, second server type %d" % (r + 1, k)) for r in range(3) for k in range(3)])
prop("C30", "manual lock calls give exclusive access", "2 or 3 parties doing one or two read-modify-write rounds under the manual lock plus one safe reader or writer (client or server, through a reference or a view); every interleaving (runs with two rounds: bounded preemptions)", MAN)
# ---------------------------------------------------------------- crashes and failing system calls
def crash_jobs(t):
    q = t == "quick"; js = []
    def j(e, cfg, crashes, pre, b, need=("end",)): js.append(Job("crash.cpp", e, SC, cfg=cfg, crashes=crashes, preempt=pre, time=700 if q else 6000, need=list(need), bounds=b, weight=5))
    j("crash", dict(client=0), 1, -1, "server dies at any step of construct, run, write, close; new server with and without force", ["end", "server died", "forced"])
    j("crash", dict(client=0, manual=1, rerun=1), 1, -1, "the same with a manual lock and stop/run")
    for pre in ((0, 1) if q else (1, 2)): j("crash", dict(), 1, pre, "server or client dies at any step of its life, at most %d preemptions" % pre, ["end", "server died", "client died"])
    if not q:
        j("crash", dict(client=0), 2, -1, "as above"); j("crash", dict(), 2, 0, "both die"); j("crash", dict(manual=1, rerun=1), 1, 1, "with manual locks and stop/run")
    else: j("crash", dict(manual=1, rerun=1), 1, 0, "server or client dies, with manual locks and stop/run, no other preemption")
    j("survivor", {}, 0, -1, "a client of the dead server stays attached and leaves late"); return js
prop("C12", "a server can always take over after a crash", "one server (construct, run, write, manual lock, stop/run, close) and one client (attach, write, manual lock, close); each may be killed before any step (system call or shared-memory access); at most 1 death (thorough 2) and at most 1 preemption (thorough 2); then a new server of 1..2 x 3 cells with force_reconnection true or false, and a new client", crash_jobs, outside="kills inside a 4-byte access; more preemptions; more than two deaths")
FAULTS = "shm_open, ftruncate, mmap, sem_open failing and semaphore waits interrupted, at any call"
prop("C13", "a failing system call is reported and leaves nothing behind", "at most 2 (thorough 3) failures among " + FAULTS + ", during server construction and run, or client construction and attach", lambda t: [Job("fault.cpp", e, SC, cfg=dict(budget=b), time=700 if t == "quick" else 4000, need=n, bounds="at most %d failing calls" % b) for b in ((1, 2) if t == "quick" else (1, 2, 3)) for e, n in (("server_faults", ["constructor failed", "fault survived", "no fault", "end"]), ("client_faults", ["attach failed", "retried", "no fault", "end"]))], outside="close and destruction under failing calls; errors other than the modelled errno")
# ---------------------------------------------------------------- strings
prop("C14", "strings round-trip", "string tensors of 3 (thorough also 1, 2, 4) slots of 1024 bytes; strings of 10 lengths from 0 to 1024, characters any non-NUL byte (long strings: first and last 8), earlier contents of all slots arbitrary, every position, single and vector calls, server and client, a reader that joins later", lambda t: [Job("str.cpp", "str_roundtrip", SC, cfg=dict(len=l, safe=s), time=700 if t == "quick" else 4000, need=["end", "late reader", "overwritten"], weight=5, bounds="%d slots, safe=%d" % (l, s)) for l, s in (((3, 1), (2, 0)) if t == "quick" else ((3, 1), (3, 0), (1, 1), (2, 1), (4, 1)))] + [py(t, "py_strings", {}, ["end"], "the same through the Python bindings, 2 slots", 3)])
prop("C15", "string requests that cannot be honoured are refused without effect", "string tensors of 3 slots; strings of up to 1030 characters, any 32-bit position, single and vector calls, read and write, contents arbitrary; lock held by another process", lambda t: [Job("str.cpp", "str_refuse", SC, cfg=dict(len=l), time=700, need=["accepted", "refused"], bounds="%d slots" % l) for l in ((3,) if t == "quick" else (1, 2, 3, 4))] + [Job("str.cpp", "str_held", SC, time=700, need=["end"], bounds="one call against a held lock")])
# ---------------------------------------------------------------- producer and consumer
PC = [SRC + x for x in ("Producer.cpp", "Consumer.cpp", "CondVar.cpp", "Server.cpp", "Client.cpp")]
def pc(t, lst, need=("end",)): return [Job("pc.cpp", e, PC, cfg=c, time=700 if t == "quick" else 5000, need=list(n) if n else list(need), weight=w, bounds="every interleaving, %s" % (c or "one party each")) for e, c, n, w in lst]
def pc16(t):
    l = [("rounds_", dict(consumers=1, rounds=3), 0, 1), ("rounds_", dict(consumers=2, rounds=2), 0, 8), ("rounds_", dict(consumers=3, rounds=1), 0, 6), ("rounds_", dict(consumers=2, rounds=1, spurious=1), 0, 2), ("rounds_", dict(consumers=1, rounds=3, spurious=2), 0, 2),
         ("timed", dict(consumers=2, spurious=1), ("end", "released", "released later"), 6), ("timed", dict(consumers=1, spurious=3), ("end", "released", "released later"), 1), ("deadline", {}, 0, 1), ("missed", {}, 0, 1), ("late", dict(before=0), 0, 1), ("late", dict(before=1), 0, 1), ("late", dict(before=2), (), 1), ("pc_startup", dict(consumers=1), 0, 1), ("pc_generations", {}, 0, 4), ("pc_long", dict(consumers=2, rounds=300), 0, 1)]
    if thorough(t): l += [("pc_long", dict(consumers=1, rounds=3000), 0, 3), ("rounds_", dict(consumers=2, rounds=2, spurious=1), 0, 9), ("rounds_", dict(consumers=2, rounds=3, acks=1), 0, 9), ("rounds_", dict(consumers=3, rounds=2, acks=0), 0, 9), ("timed", dict(consumers=3), 0, 9), ("pc_startup", dict(consumers=2), 0, 9)]
    return pc(t, l)
def pc17(t):
    l = [("acks_", dict(consumers=3, rounds=2), 0, 5), ("acks_", dict(consumers=2, rounds=3, spurious=1), 0, 3), ("acks_", dict(consumers=3, rounds=1, timed=1, spurious=1), 0, 3), ("acks_", dict(consumers=2, rounds=2, producer=0), 0, 2), ("acks_", dict(consumers=2, rounds=2, timed=1), 0, 3), ("ackcount", dict(steps=3), ("end", "released", "not released"), 3), ("rounds_", dict(consumers=1, rounds=3), 0, 1), ("rounds_", dict(consumers=2, rounds=2), 0, 8), ("rounds_", dict(consumers=2, rounds=1, wa=1, spurious=1), 0, 8), ("pc_long", dict(consumers=2, rounds=300), 0, 1), ("ackany", {}, ("end", "released", "not released"), 1)]
    if thorough(t): l += [("acks_", dict(consumers=3, rounds=2, spurious=1, timed=1), 0, 9), ("acks_", dict(consumers=3, rounds=3, producer=0), 0, 9), ("ackcount", dict(steps=4), 0, 9), ("acks_", dict(consumers=4, rounds=1, spurious=2), 0, 9)]
    return pc(t, l)
def pc18(t):
    l = [("waitack_", dict(spurious=2), ("end", "callback ran", "timed out"), 2), ("waseq", dict(depth=6), 0, 5), ("rounds_", dict(consumers=2, rounds=2, wa=1), 0, 8), ("rounds_", dict(consumers=1, rounds=3, wa=1, spurious=1), 0, 2), ("timed", dict(consumers=1, spurious=2), 0, 1), ("deadline", {}, 0, 1), ("wa_throw", {}, 0, 1)]
    if thorough(t): l += [("waseq", dict(depth=8), 0, 9), ("waitack_", dict(spurious=4), 0, 3), ("rounds_", dict(consumers=3, rounds=1, wa=1, spurious=1), 0, 9)]
    return pc(t, l)
B_PC = "one producer and up to 3 consumers, up to 3 rounds of trigger, wait and acknowledgement (2 with 2 consumers, 1 with 3), up to 3 spurious wake-ups, every interleaving of mutex, condition and counter steps; time-outs any positive value, expiring at any moment; sequential runs of 300 (thorough 3000) rounds"
prop("C16", "a trigger releases every waiting consumer, once", B_PC, pc16, outside="more consumers or rounds; weak memory outside the mutexes")
prop("C17", "the producer waits for exactly the acknowledgements it asked for", B_PC + "; any 32-bit number of acknowledgements asked for, up to 6 made, or any number left in the shared counter", pc17, outside="more consumers or rounds")
prop("C18", "wait_and_ack runs its callback between trigger and acknowledgement", B_PC + "; every sequence of up to 6 (thorough 8) calls of trigger, wait, ack, wait_and_ack with any callback result; one or two callbacks that throw", pc18, outside="more consumers or rounds")
# ---------------------------------------------------------------- small parts
def misc(t, lst, tus=(), tm=700): return [Job("misc.cpp", e, list(tus), cfg=c, time=tm if t == "quick" else 4000, need=list(n), bounds=b, weight=w) for e, c, n, b, w in lst]
prop("C19", "return-code algebra", "operators and membership: all triples of 64-bit codes; descriptions: all pairs of bits and every group of 5 (thorough 9) neighbouring bits with all other bits clear or set", lambda t: misc(t, [("rc_ops", {}, ["codes", "reset", "end"], "all 64-bit codes", 1), ("rc_codes", {}, ["end"], "all base codes", 1), ("rc_describe", dict(bits=5 if t == "quick" else 9), ["end"], "groups of neighbouring bits", 3), ("rc_pairs", {}, ["end"], "all pairs of bits", 3)]), outside="descriptions of codes mixing three or more distant bits (the loop treats each bit alone)")
prop("C20", "endpoints agree on names, and names never collide", "names and namespaces of up to 8 characters each (any byte but NUL and '/'); pairs of different names of up to 3 and up to 23 (thorough 5 and 30) characters; two live server/client pairs with names of 1-2 and namespaces of 0-1 arbitrary characters", lambda t: misc(t, [("names_one", dict(max=9 if t == "quick" else 14), ["end"], "one endpoint", 1), ("names_two", dict(la=4 if t == "quick" else 6, lb=24 if t == "quick" else 31), ["end", "same length"], "two endpoints, every split into namespace and name", 3), ("names_two", dict(suffix=1), [], "one name is the other with a suffix of the library", 2)]) + misc(t, [("names_live", {}, ["end"], "two servers and two clients", 5)], SC), outside="longer names")
prop("C22", "views created from a tensor alias the requested block", "tensors of 1..4 x 1..4, " + TYPES + ", row, column and sizes any 32-bit integers, every element of the view", lambda t: misc(t, [("view_" + x, {}, ["view", "refused", "end"], "type " + x, 3) for x in TY]), outside="larger tensors")
prop("C26", "the journal throws exactly when asked to", "messages of up to 4 (thorough 8), class and method names of up to 2 arbitrary non-NUL bytes, every type and flag, member and static form", lambda t: misc(t, [("journal", dict(max=5 if t == "quick" else 9), ["thrown", "printed", "end"], "all texts", 1)]), outside="longer texts")
prop("C27", "sleep helpers request the stated duration", "every non-negative int argument of every helper, object memory arbitrary", lambda t: misc(t, [("sleeps", {}, ["end"], "all arguments", 1)]), outside="interruption of the sleep by signals")
def cv(t):
    q = t == "quick"; CVT = [SRC + "CondVar.cpp"]; R = ["end", "released", "timed out"]
    l = [("cv_wait_", dict(waiters=1, notifications=2, spurious=3), R, 2), ("cv_wait_", dict(waiters=2, notifications=2), R, 5), ("cv_wait_", dict(waiters=2, notifications=2, under_lock=1), R, 4), ("cv_wait_", dict(waiters=2, spurious=1), R, 4), ("cv_notify", {}, ["end", "woken", "left waiting"], 1), ("cv_many", dict(waiters=3), ["end", "all woken"], 1), ("cv_deadline", {}, ["end", "timed out"], 1), ("cv_names", dict(depth=4 if q else 5), ["end", "refused", "nothing to open"], 9), ("cv_takeover", {}, ["end"], 1), ("cv_mutex", {}, ["end"], 1), ("cv_paths", {}, ["end"], 1)]
    if not q: l += [("cv_wait_", dict(waiters=2, notifications=2, spurious=2), R, 8), ("cv_wait_", dict(waiters=3), R, 8), ("cv_wait_", dict(waiters=2, notifications=3), R, 9), ("cv_many", dict(waiters=4), ["end"], 2)]
    return [Job("cv.cpp", e, CVT, cfg=c, time=700 if q else 4000, need=n, weight=w, bounds="every interleaving and choice, %s" % c) for e, c, n, w in l]
prop("C31", "condition-variable wrapper follows wait/notify semantics", "up to 2 waiters of one of the four wait kinds (3 in plain waits), 2 notifications, 3 spurious wake-ups, every interleaving; any 32-bit time-out; every sequence of 4 (thorough 5) create/close/destroy calls of two server and two client sides; crash of a server in three clean-up states", cv, outside="a server side taking over from a live one with force_reconnection")
# ---------------------------------------------------------------- Python bindings
PYT = PC + [PYSRC + "../PyEigenIPC.cpp"] + [PYSRC + "Py%s.cpp" % x for x in ("Server", "Client", "Producer", "Consumer")]
PYT_ = ("float", "double", "int", "bool")
def py(t, e, cfg, need, b, w=1): return Job("py.cpp", e, PYT, cfg=cfg, time=800 if t == "quick" else 6000, need=list(need), weight=w, bounds=b)
def c21(t):
    l = [py(t, "py_array", dict(type=k, layout=lay), ["read", "written", "refused", "end"], "%s, layout %d: every block, stride pair and position" % (PYT_[k], lay), 6 + (k == 1)) for k in range(4) for lay in (0, 1)]
    l += [py(t, "py_refuse", dict(type=k, layout=lay), ["accepted", "refused", "read", "written", "end"], "%s, layout %d: every array type and dimension, any position" % (PYT_[k], lay)) for k in range(4) for lay in (0, 1)]
    if thorough(t): l += [py(t, "py_array", dict(type=k, layout=lay, dense=1), ["read", "written", "refused", "end"], "every stride in bytes", 9) for k in range(4) for lay in (0, 1)]
    return l
def c28(t): return [py(t, e, dict(type=k), n, "type " + PYT_[k], 5) for e, n in (("py_server", ["end", "quiet", "talking", "taken over", "not taken over"]), ("py_client", ["end", "quiet", "talking"])) for k in range(4)] + [py(t, "py_consts", {}, ["reported", "built", "end"], "every 32-bit layout code"), py(t, "py_defaults", {}, ["end"], "omitted arguments"), py(t, "py_pc", {}, ["end", "refused"], "producer and consumer options")]
prop("C21", "NumPy arrays are translated faithfully", "2 x 3 tensors of the four element types in both layouts; arrays of every shape that fits, contents arbitrary, byte strides of up to 3.5 items in either direction at whole and half items (thorough: every byte), read and write, server and client, every position; arrays of 7 element types, 0 to 3 dimensions, writable or read-only, at any 32-bit position; the binding code is run against a model of pybind11 (shims/pybind11)", c21, outside="larger arrays, structured or object element types, pybind11's own code")
prop("C28", "run-time type and layout selection builds the requested endpoint", "factories with every combination of element type, layout, options, verbosity level, positional and keyword arguments, servers of up to 3 x 3 and clients of up to 2 x 3 cells, a left-over memory of a dead server; every 32-bit layout code; the binding code is run against a model of pybind11 (shims/pybind11)", c28, outside="a client of another type with the same element size is not told apart (the library compares sizes and says so)")
# ---------------------------------------------------------------- Python wrappers and ROS bridge (pysx: executed symbolically at source level)
import os, subprocess, sys
sys.path.insert(0, os.path.join(vlib.VERIF, "pysx"))
def pysx(p, tier, seed):
    exe = next((x for x in ("/opt/veriftools/pyvenv/bin/python3",) if os.path.exists(x)), "python3-vt")
    return subprocess.call([exe, os.path.join(vlib.VERIF, "pysx", "check.py"), p, tier, str(seed)], env=dict(os.environ, PYTHONDONTWRITEBYTECODE="1"))
PYTECH = "symbolic execution of the repository's Python source with SMT (z3), counterexamples replayed concretely with real numpy"
def pprop(pid, title):
    from pysx_info import INFO
    PROPS[pid] = dict(title=title, bounds=INFO[pid][0], outside=INFO[pid][1], technique=PYTECH, python=pysx, trust="Trusts the models of the compiled module, torch and ROS in pysx/world.py, uninterpreted element conversions checked against numpy, and z3's unsat answers; every reported violation is re-run concretely first.")
pprop("C23", "Python shared-data wrapper keeps local copy and shared memory in step")
pprop("C24", "tensor dictionary maps names to disjoint, stable tensors")
pprop("C25", "ROS bridge names, encodes and restores shared data consistently")
NOT_APPLICABLE = {}
