#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts are kept)."""
import json, os
S="EigenIPC/src/"; H="EigenIPC/include/EigenIPC/"; B="EigenIPC/bindings/PyEigenIPC/"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)
SRV=S+"Server.cpp"; CL=S+"Client.cpp"; MU=S+"MemUtils.hpp"

p("C01","Block transfers are exact",
 "A write of a block at (row, col) that returns true stores exactly the supplied values in exactly the addressed cells of the shared tensor and changes no other cell; a read that returns true delivers exactly the addressed cells and leaves the shared tensor, and any caller memory outside the destination block, unchanged. This holds for servers and clients, every supported element type and layout, references and (arbitrarily strided) views, and every bit pattern including NaN payloads and negative zero.",
 ["inputs","configurations"],"every tensor content, block content, in-range position and block shape; every element type x layout x role x overload; every pair of strides of a view",
 "The consistency tests send a few random full-size matrices; block offsets, strides and untouched cells are never quantified over.",
 [MU,SRV,CL,H+"DTypes.hpp"],[("block write/read",MU+":write/read"),("public overloads",SRV+":write/read; "+CL+":write/read")],
 ["return value","shared tensor seen by the other endpoint","caller buffers"])
p("C02","Requests outside the tensor are refused without effect",
 "A read or write whose block does not lie entirely inside the shared tensor returns false, touches neither the shared tensor nor the caller's memory, and never accesses memory outside the tensor; a request whose block does lie inside is accepted. After a refusal the endpoint keeps working and holds no lock.",
 ["inputs","configurations"],"every 32-bit row and column (negative and overflowing included) and every block shape, for every role, overload and lock mode",
 "Tests use in-range requests only, or a handful of fixed out-of-range ones.",
 [H+"Helpers.hpp",MU,SRV,CL],[("range check",H+"Helpers.hpp:canFitTensor")],["return value","tensor contents","lock availability"])
p("C03","No torn data between safe endpoints",
 "When endpoints are opened in safe mode, every successful read returns the tensor as it stood between complete writes: a successful write is never observed partially, and two successful writes to the same cells never interleave. This holds for any number of servers' and clients' operations running concurrently.",
 ["schedules","inputs"],"every interleaving of the endpoints' memory accesses and system calls; every written value",
 "The multi-process test only observes whatever interleavings the machine happens to produce.",
 [SRV,CL,MU],[("data semaphore around each access",SRV+":write/read; "+CL+":write/read")],["values returned by successful reads","final tensor"])
p("C04","Reads and writes never block and respect a held lock",
 "A read or write call never waits: if another party holds the data lock it returns false at once, leaving the shared tensor and the caller's buffer untouched, and it releases the lock only if it acquired it itself. Endpoints opened in unsafe mode neither take nor release the lock.",
 ["schedules","histories","inputs"],"every interleaving with lock holders; every history of acquire/release and read/write calls; both lock modes",
 "Non-blocking behaviour under contention depends on the schedule, and tests never check the lock afterwards.",
 [SRV,CL,MU],[("one-shot acquisition",MU+":acquireSemOneShot"),("release after acquisition only",SRV+":write/read; "+CL+":write/read")],["return value","lock state"])
p("C05","The data lock is conserved over any history",
 "In whatever order run, stop, attach, detach, read, write and the manual acquire/release calls are made, the data lock of a running server is free exactly when nobody is using it: it is never released more often than acquired, so at most one party can ever hold it, and never left held by a party that has finished, including one whose call ended in an exception.",
 ["histories","inputs","fault_sequences"],"every sequence of public calls up to the bound, including calls that fail or throw",
 "Unit tests exercise one fixed life cycle and never look at the lock's count.",
 [SRV,CL,MU],[("data semaphore",MU+":acquireSem*/releaseSem"),("run/stop/attach/detach",SRV+"; "+CL)],["lock count"])
p("C06","At most one running server per name",
 "For one namespace and basename at most one server is in the running state at any time, however many are constructed, run and stopped, concurrently or not; a second server that tries to run without force_reconnection gets an exception and leaves the running one in possession. Once the running server stops, another can run.",
 ["schedules","histories"],"every interleaving and history of construct/run/stop of servers with one name (no crash, no force_reconnection)",
 "Tests start one server only.",
 [SRV,MU],[("server semaphore acquired by run",SRV+":run"),("released by stop",SRV+":stop")],["isRunning of every server"])
p("C07","Attach completes only against a running server, with its shape",
 "attach() returns only after a server of that name is running, whichever of the two starts first; from then on the client reports the server's dimensions and both sides see each other's writes in one and the same tensor. If the server runs, a pending attach completes.",
 ["schedules","configurations"],"every interleaving of server construction/run with client construction/attach; every shape; every order of start",
 "Start-up order and the race between construction, run and attach are scheduling-dependent.",
 [CL,SRV],[("wait for the running flag",CL+":_waitForServer"),("metadata published before the flag",SRV+":_initMetaMem, run")],["getNRows/getNCols of the client","data written by one side and read by the other"])
p("C08","Mismatched clients are rejected without side effects",
 "A client whose element size or memory layout differs from the server's gets an exception from attach, is not attached, and leaves server and tensor as before: same data, same client count, data lock free, and other clients able to attach and exchange data.",
 ["configurations","histories"],"every pair of (element type, layout) of server and client; every order of matching and mismatching attaches",
 "Only matching pairs are tested; what a failed attach leaves behind is not.",
 [CL],[("type and layout checks",CL+":_checkDType,_checkMemLayout")],["exception","client count","lock","data"])
p("C09","The client count equals the number of attached clients",
 "While a server runs, the number of clients it reports equals the number of clients currently attached, after every history of attach, detach, close and destruction in any order and interleaving; a freshly started server reports zero.",
 ["histories","schedules"],"every sequence/interleaving of attach, repeated attach, detach, close, destruction for several clients",
 "Lost updates and double counting appear only in particular histories.",
 [CL,SRV],[("counter update under the data lock",CL+":attach/detach")],["getNClients"])
p("C10","Operations outside the active state are refused",
 "On a server that is not running and on a client, string tensor, producer or consumer that is not attached/running (before start, after stop/detach/close), data operations are refused (false, or an exception for the trigger/acknowledge API) and have no effect on shared data, counters or caller memory. Stopping, detaching and closing are idempotent and safe in every state.",
 ["histories","inputs"],"every history of life-cycle calls followed by every data operation",
 "Tests follow the documented life cycle only.",
 [SRV,CL,S+"StringTensor.cpp",S+"Producer.cpp",S+"Consumer.cpp"],[("running/attached flags",SRV+"; "+CL),("running check",S+"Producer.cpp:_check_running; "+S+"Consumer.cpp:_check_running")],["return value","exception","shared state"])
p("C11","Close returns every resource exactly once",
 "After close or destruction an endpoint has closed every file descriptor and semaphore it opened, exactly once, and no descriptor it does not own; closing a server also removes the names of its metadata and locks so that nothing stale is left for the next server (the running flag and, unless the server unlinks data, the tensor keep their names by design), while closing a client never removes a name or disturbs the server and the other clients. (Known finding: the copy handed out by a string tensor's getSharedMem().)",
 ["histories","fault_sequences"],"every life-cycle history ending in close or destruction, including never-started and failed-to-start endpoints",
 "Leaks, double closes and stale names do not change what the tests observe.",
 [SRV,CL,MU],[("clean-up",MU+":cleanUpMem,semClose,checkMem"),("ordering",SRV+":_cleanMems; "+CL+":_cleanMems")],["open descriptors","open semaphores","names in the shared namespace"])
p("C12","Restart after a crash",
 "Wherever a previous server (or a client holding the lock) died, a new server created with force_reconnection reaches the running state with a zeroed tensor and exchanges data with newly attached clients; without force_reconnection it either works or reports an error by exception, but does not hang.",
 ["crash_points","configurations"],"every crash point (each system call and each access to shared memory) of the previous server's and client's life",
 "The tests never kill a server part-way.",
 [SRV,MU],[("timed acquisition, semaphore re-creation",MU+":acquireSemTimeout"),("segment re-creation",MU+":checkMem")],["isRunning of the new server","data exchange"])
p("C13","Operating-system failures are reported",
 "If any system call needed to set up a server or client fails, the constructor, run or attach call ends in an exception, never in an object that looks usable; the failure does not leave the data lock held by the failed party, nor makes it access unmapped memory.",
 ["fault_sequences"],"every single failure (each call, each documented errno class) during construct/run/attach",
 "System calls do not fail in the test environment.",
 [MU,SRV,CL],[("return codes",MU+":initMem,semInit"),("failWithCode",MU)],["exception","memory accesses"])
p("C14","Strings round-trip through a string tensor",
 "Any list of strings (each at most 1024 bytes, without embedded NUL) written by one endpoint and accepted is read back byte-for-byte identical by every endpoint at the same positions; slots not addressed keep their contents, and previous longer contents of a slot leave no trace.",
 ["inputs","histories"],"every string content (all byte values 1..255) and length up to the bound, every slot position and list size, previous contents arbitrary",
 "Tests use a few ASCII strings.",
 [S+"StringTensor.cpp",H+"StringTensor.hpp"],[("encoding",S+"StringTensor.cpp:_encode_str"),("decoding",S+"StringTensor.cpp:_decode_str")],["strings returned by read"])
p("C15","String-tensor requests that do not fit are refused safely",
 "Reading or writing strings at positions outside the tensor, or strings longer than the 1024-byte capacity, is refused (false) without changing any slot and without touching memory outside the tensor; every request that fits is accepted when the lock is free.",
 ["inputs"],"every 32-bit index, every list size and every string length around the limits",
 "Limits and negative indices are not tested; overruns silently corrupt memory.",
 [S+"StringTensor.cpp"],[("bounds checks",S+"StringTensor.cpp:read/write/_fits")],["return value","slots","memory accesses"])
p("C16","No trigger is lost",
 "Every trigger issued by a running producer while a running consumer is waiting or before its next wait releases exactly one wait of that consumer, for every consumer; a consumer's wait returns true only if a trigger it has not consumed was issued, and a blocking wait cannot miss the wake-up. A consumer that finds several triggers pending at once reports the overrun by an exception, as the code documents. (Known finding: a consumer that is started after two or more triggers can never be released.)",
 ["schedules","histories"],"every interleaving of triggers with waits of several consumers (triggers separated by acknowledgement, as the protocol requires)",
 "A lost wake-up needs a particular interleaving between the check and the wait.",
 [S+"Producer.cpp",S+"Consumer.cpp",S+"CondVar.cpp"],[("counter changed and checked under the condition's mutex",S+"Producer.cpp:trigger; "+S+"Consumer.cpp:wait")],["return of wait","termination"])
p("C17","Acknowledgements are counted exactly",
 "wait_ack_from(n) returns true only after exactly n acknowledgements have been made since the previous successful return, and does return true once they have been made; concurrent acknowledgements of several consumers are never lost.",
 ["schedules","histories"],"every interleaving of acknowledgements of several consumers with the waiting producer, several rounds",
 "Lost updates of the shared counter and lost wake-ups are schedule dependent.",
 [S+"Producer.cpp",S+"Consumer.cpp"],[("ack counter updated under the mutex",S+"Consumer.cpp:ack"),("difference check",S+"Producer.cpp:_check_ack_counter")],["return of wait_ack_from"])
p("C18","wait, wait_and_ack and timeouts report truthfully",
 "A timed wait returns (true only with a trigger/acknowledgement, false otherwise) instead of blocking when nothing comes; wait_and_ack returns true exactly when the trigger arrived, the callback returned true and the acknowledgement was recorded, calls the callback once and only after the trigger, and acknowledges exactly once if the trigger arrived and not at all otherwise.",
 ["schedules","inputs","fault_sequences"],"every interleaving of trigger/ack with timeout expiry; every callback result; every timeout value",
 "Timeout races and failing callbacks are not exercised.",
 [S+"Consumer.cpp",S+"Producer.cpp",S+"CondVar.cpp"],[("failure accounting",S+"Consumer.cpp:wait_and_ack"),("timed wait",S+"CondVar.cpp:timedwait")],["return value","ack counter","callback invocations"])
p("C19","Return-code algebra",
 "For all 64-bit codes: combining codes yields exactly their union, removing a code yields exactly the set difference, the membership test answers exactly subset inclusion, combining with RESET yields the empty code, every base code is a distinct bit except documented aliases, and the textual description of a combined code names exactly the codes it contains, under their own names (SEMACQRETRY and SEMACQTRY are one code).",
 ["inputs"],"all pairs of 64-bit values; all single bits and combinations for descriptions",
 "The test tries a handful of combinations out of 2^128.",
 [H+"ReturnCodes.hpp"],[("operators and isin",H+"ReturnCodes.hpp"),("getDescription(s)",H+"ReturnCodes.hpp")],["values","strings"])
p("C20","Endpoints agree on names, and names never collide",
 "A server and a client given the same basename and namespace use the same system resources; the resources of one endpoint are pairwise distinct; two endpoints whose namespace-plus-basename differ share no resource (known finding: a name that ends in one of the library's own suffixes can collide).",
 ["inputs","configurations"],"every pair of names and namespaces up to the bound",
 "Tests use one fixed pair of names.",
 [H+"SharedMemConfig.hpp",H+"MemDefs.hpp"],[("path composition",H+"SharedMemConfig.hpp:SharedMemConfig"),("suffixes",H+"MemDefs.hpp")],["names opened in the shared namespace"])
p("C21","NumPy arrays are translated faithfully",
 "An array handed to the Python API is either refused without any effect, by an exception (another element type, a read-only destination) or by returning False (not two-dimensional, or a memory arrangement the library cannot address), or interpreted element by element exactly as NumPy does: element (i, j) of the tensor operation is element [i, j] of the array, for every shape, positive, negative or zero stride and both layouts. An array in the natural order of the tensor's layout is accepted; a read never modifies a read-only array or memory that is not an element of the array.",
 ["inputs","configurations"],"every dimension count, shape and byte-stride combination within the bound, every dtype and layout",
 "Only freshly allocated C/F-ordered arrays are tested.",
 [B+"src/PyEigenIPCUtils.hpp",B+"src/PyServer.cpp",B+"src/PyClient.cpp"],[("buffer checks and stride conversion",B+"src/PyEigenIPCUtils.hpp:CheckInputBuffer,NumpyArray2TensorView,ToEigenStrides")],["addresses of the elements accessed"])
p("C22","Views created from a tensor alias the requested block",
 "createViewFrom either throws (block not inside the tensor, including negative positions or sizes) or returns a view whose element (i, j) is the very memory of element (row+i, col+j) of the source tensor, for both layouts and every element type.",
 ["inputs","configurations"],"every tensor shape, position and size within bounds, plus every out-of-range 32-bit combination",
 "Tests use one or two fixed views.",
 [H+"Helpers.hpp"],[("start pointer and strides",H+"Helpers.hpp:createViewFrom")],["element addresses"])
p("C23","Python shared-data wrapper keeps local copy and shared memory in step",
 "For the Python tensor wrapper, a synchronisation that reports success leaves the local and the shared copy of exactly the addressed cells equal in the requested direction and everything else untouched; single-cell reads and writes address the cell they name; out-of-range requests are refused without effect. Starting a client-side wrapper leaves the shared copy as it is. A wrapper opens the tensor under exactly the names, element type, access mode (safe unless told otherwise) and takeover choice (none unless told otherwise) it was given.",
 ["inputs","histories","configurations"],"every shape, row/column index and cell value up to the bound, server and client side, with and without retry",
 "The wrapper has no test that varies indices or directions.",
 [B+"wrappers/shared_data_view.py"],[("synch and row/col accessors",B+"wrappers/shared_data_view.py:SharedTWrapper")],["numpy mirror","shared memory"])
p("C24","Tensor dictionary maps names to disjoint, stable tensors",
 "The Python tensor dictionary gives each configured name (names are distinct) its own rows of the shared data: every name resolves to the rows created for it on both server and client side, operations on one name do not affect the others, what get() returned does not change afterwards, and run/close act on every part. A new server dictionary takes over what a dead one left behind, in every part, exactly when force_reconnection asks for it.",
 ["configurations","histories"],"every set of names/shapes up to the bound; every order of run/close and access",
 "No existing test covers it.",
 [B+"wrappers/shared_tensor_dict.py"],[("name to tensor mapping",B+"wrappers/shared_tensor_dict.py")],["tensor resolved per name"])
p("C25","ROS bridge names, encodes and restores shared data consistently",
 "A tensor or string list published by the ToRos side is reconstructed by the FromRos side with the same shape, element type, layout and contents; topic names derived from (namespace, basename) agree on both sides and differ for different tensors. A FromRos that starts late restores what was published last; metadata that contradicts the agreed shape or type, unknown back ends and names that are in use (unless takeover was asked for) are refused and leave the restored tensor as it was. (Known finding: column-major sources.)",
 ["inputs","configurations"],"every shape, dtype, layout and string list up to the bound",
 "The ROS bridge is not tested at all (ROS is not installed).",
 [B+"extensions/ros_bridge/abstractions.py",B+"extensions/ros_bridge/to_ros.py",B+"extensions/ros_bridge/from_ros.py",B+"extensions/ros_bridge/defs.py"],[("encode/decode",B+"extensions/ros_bridge/defs.py"),("publisher/subscriber abstraction",B+"extensions/ros_bridge/abstractions.py")],["messages","restored tensor"])
p("C26","The journal throws exactly when asked to",
 "Logging never ends the program except by design: a call throws a runtime error carrying the message if and only if the entry is an exception entry and throwing was requested; in every other case it returns normally, for the member and the static form and any text (including text containing formatting characters).",
 ["inputs"],"every log type, flag and message content up to the bound, both forms",
 "Tests do not check which log calls throw, nor format-string-like messages.",
 [H+"Journal.hpp"],[("log",H+"Journal.hpp:Journal::log")],["exception or normal return","text printed"])
p("C27","Sleep helpers request the stated duration",
 "Each sleep helper requests exactly the duration its unit and argument denote, as a valid time value (nanoseconds below one second), for every non-negative argument; none of them depends on uninitialised data.",
 ["inputs"],"every non-negative int argument of every helper",
 "Durations are only measured roughly for a few values.",
 [S+"TimeUtils.hpp"],[("unit conversion",S+"TimeUtils.hpp:PerfSleep")],["duration requested from the system"])
p("C28","Run-time type and layout selection builds the requested endpoint",
 "The Python factories create a server or client of exactly the requested element type and layout (or report an unsupported one by exception), report it truthfully through their accessors, and forward every option (shape, names, verbosity, force_reconnection, safe) unchanged.",
 ["configurations"],"every (element type, layout, role) and every combination of options",
 "Forwarding of individual options is not observable in the existing tests.",
 [B+"src/PyServer.cpp",B+"src/PyClient.cpp",B+"src/WrapUtils.inl"],[("factory switch",B+"src/PyServer.cpp; "+B+"src/PyClient.cpp")],["accessors","element size used"])
p("C29","A fresh server starts from a clean state",
 "Whatever a previous server of the same name left behind after a clean stop and close - other contents, another shape, other clients' counts - a newly constructed and run server presents an all-zero tensor of exactly its own shape, with no clients, and never shows stale data to itself or to a client.",
 ["histories","configurations"],"every previous shape and content; every history of clean close and re-creation, with or without old clients still open",
 "Tests start from an empty namespace.",
 [SRV,MU],[("existing memory removed",MU+":checkMem"),("metadata initialised",SRV+":_initMetaMem")],["tensor read after run","getNClients","dimensions seen by a client"])
p("C30","Manual lock calls give exclusive access",
 "Between a party's manual acquisition of the data lock and its release, no other safe endpoint's read or write succeeds and no other manual acquisition returns; after the release a waiting party proceeds. A non-atomic read-modify-write done under the manual lock is never interleaved.",
 ["schedules","histories"],"every interleaving of manual sections of several parties with reads and writes",
 "Mutual exclusion is a property of schedules the tests do not control.",
 [SRV,CL],[("dataSemAcquire/dataSemRelease",SRV+"; "+CL)],["success of concurrent operations","values after read-modify-write"])
p("C31","Condition-variable wrapper follows wait/notify semantics",
 "The condition-variable wrapper releases the lock while waiting and holds it again on return; a predicate wait returns only with the predicate true (a timed one reports the predicate's final value), a notification wakes a waiter, and a server-side object creates the named objects that a client-side object then opens and removes them on close, the client side never removing them. Taking the names over from a server side that is still alive is outside the claim.",
 ["schedules","histories"],"every interleaving of waiters, notifiers and timeouts; create/open/close orders",
 "The wrapper has no test of its own.",
 [S+"CondVar.cpp",H+"CondVar.hpp"],[("wait variants",S+"CondVar.cpp"),("clean-up",S+"CondVar.cpp:_cleanup_mem, close")],["return values","lock ownership","names"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
