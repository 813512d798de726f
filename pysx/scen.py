"""Scenarios for C23, C24, C25. Each is a function of (engine, cfg, mods); it runs symbolically and, for replay, concretely."""
import gc
import numpy as real_np
import core, world
from core import *
from world import World, Shm, dtype, NP, RowMajor, ColMajor

DT = {"Float": dtype.Float, "Double": dtype.Double, "Int": dtype.Int, "Bool": dtype.Bool}
KINDS = {"Float": ["float", "int", "f32", "f64", "bool"], "Double": ["float", "int", "f32", "f64", "bool"], "Int": ["int", "bool"], "Bool": ["bool", "int"]}
def attempt(f, *a, **k):
    """result of a call, or the exception that refused it"""
    try: return True, f(*a, **k)
    except Exception as e: return False, e
def snap(a): return a.copy()
def new_world(locks):
    World.cur = World(locks); return World.cur
def put(target, src): target[...] = src
def eq_except(a, b, rows, cols):
    """equal outside the block"""
    cs = []
    for i in range(a.shape[0]):
        for j in range(a.shape[1]):
            if not (rows.start <= i < rows.stop and cols.start <= j < cols.stop): cs.append(eq_arrays(a[i:i + 1, j:j + 1], b[i:i + 1, j:j + 1]))
    return all_of(*cs)
def inrange(e, r, c, n, m, R, C):
    """whether the block of n x m cells at (r, c) lies inside (forks)"""
    return bool(r >= 0) and bool(c >= 0) and bool(r + n <= R) and bool(c + m <= C)
def pos(x): return x.__index__()

# ---------------------------------------------------------------- C23
def wrapper(e, cfg, mods, w):
    T = mods.shared_data_view.SharedTWrapper; d = DT[cfg["dt"]]; ndt = NP[d.n]; R, C = cfg["R"], cfg["C"]
    kw = dict(namespace="ns", basename="base", dtype=d, with_torch_view=bool(cfg.get("torch")), with_gpu_mirror=bool(cfg.get("gpu")))
    fill = None
    if cfg.get("fill"): fill = {"Float": e.choose("fill", [-1, float("nan"), 2.5]), "Double": e.choose("fill", [float("nan"), 0]), "Int": -1, "Bool": True}[cfg["dt"]]
    s = T(is_server=True, n_rows=R, n_cols=C, fill_value=fill, **kw); w.lock_armed = True; s.run(); shm = w.tensors[("ns", "base")]
    want = real_np.full((R, C), 0 if fill is None else fill).astype(ndt)
    want = want if e.concrete else core.const_array(want)
    e.require(eq_arrays(s.get_numpy_mirror(), want), "after run() the local copy holds the fill value (zero by default)")
    if fill is not None: e.require(eq_arrays(real_np.ascontiguousarray(shm.cells) if e.concrete else shm.cells, want), "after run() of a server the shared copy holds the fill value")
    t = s
    if cfg["side"] == "client":
        put(shm.cells, e.cells("earlier", (R, C), ndt)); before = snap(shm.cells)   # what others wrote since the server started
        t = T(is_server=False, fill_value=fill, **kw); t.run()
        e.require(eq_arrays(t.get_numpy_mirror(), want), "after run() the local copy holds the fill value (zero by default)")
        e.require(eq_arrays(shm.cells, before), "a client's run() leaves the shared copy alone")
    e.require(bool(t.is_running()) and t.n_rows == R and t.n_cols == C and tuple(t.get_numpy_mirror().shape) == (R, C), "run() gives the local copy the shape of the shared one")
    return s, t, shm
def views(t, cfg):
    m = t.get_numpy_mirror()
    tv = t.get_torch_mirror().a if cfg.get("torch") else None
    g = t.get_torch_mirror(gpu=True).a if cfg.get("gpu") else None
    return m, tv, g
def step23(e, cfg, t, shm, w, k):
    d = NP[DT[cfg["dt"]].n]; R, C = cfg["R"], cfg["C"]
    m, tv, g = views(t, cfg)
    put(m, e.cells("local", (R, C), d)); put(shm.cells, e.cells("shared", (R, C), d))
    if g is not None: put(g, e.cells("gpu", (R, C), d))
    m0, s0, g0 = snap(m), snap(shm.cells), None if g is None else snap(g)
    ops = ["write", "write_block", "read", "read_block", "synch", "synch_all"] + (["write_retry", "write_block_retry", "read_retry", "read_block_retry", "synch_retry", "to_zero"]) + (["from_gpu", "to_gpu"] if g is not None else [])
    if cfg.get("ops"): ops = [o for o in ops if o in cfg["ops"]]
    op = e.choose("op", ops); retry = op.endswith("_retry"); b = op[:-6] if retry else op
    locks0 = w.lock_budget
    def others(): # the views that must not move on their own
        cs = [eq_arrays(tv, m)] if tv is not None else []
        if g is not None and op not in ("to_gpu", "to_zero"): cs.append(eq_arrays(g, g0))
        return all_of(*cs)
    def untouched(label): e.require(all_of(eq_arrays(m, m0), eq_arrays(shm.cells, s0)), label)
    def stable():
        m2, tv2, g2 = views(t, cfg)
        e.require(m2 is m, "the local copy keeps its identity")
        e.require(others(), "the torch view and the GPU mirror follow only what they should")
    if b in ("write", "read", "write_block", "read_block", "synch"):
        r, c = e.int("row", -2**31, 2**31 - 1), e.int("col", -2**31, 2**31 - 1)
        if b in ("write_block", "read_block"):
            n, q = e.choose("rows", list(range(1, R + 2))), e.choose("cols", list(range(1, C + 2)))
            ddt = d if cfg["dt"] == "Bool" or not cfg.get("mixed") else e.choose("data dtype", [d, F64 if d != F64 else F32])
            data = e.cells("data", (n, q), ddt, e.choose("order", ["C", "F"])); data0 = snap(data); val = data
        elif b in ("write", "read"):
            n = q = 1; val = e.scalar("value", e.choose("kind", KINDS[cfg["dt"]])) if b == "write" else None
        else: n, q = e.int("n_rows", -2**31, 2**31 - 1), e.int("n_cols", -2**31, 2**31 - 1)
        down = e.pick("direction", 2) if b == "synch" else 0 if b.startswith("write") else 1   # 1: shared -> local
        ok = inrange(e, r, c, n, q, R, C)
        if b == "synch":
            ok = ok and bool(n >= 0) and bool(q >= 0)
            if not ok: retry_ok = False
        if retry and not ok: raise Cut()     # a retry of a refused request never returns: outside the claim
        f = getattr(t, b.split("_")[0] + ("_retry" if retry else ""))
        if b in ("write", "write_block"): done, res = attempt(f, val, r, c)
        elif b == "read": done, res = attempt(f, r, c)
        elif b == "read_block": done, res = attempt(f, r, c, data)
        else: done, res = attempt(f, row_index=r, col_index=c, n_rows=n, n_cols=q, read=bool(down))
        if b in ("write_block", "read_block") and not (b == "read_block" and ok): e.require(eq_arrays(data, data0), "the caller's array is left alone")
        if k + 1 < cfg.get("steps", 1) and not ok: raise Cut()   # earlier steps: requests that are carried out
        if not ok:
            e.reach("refused")
            succ = done and (res[1] if b.startswith("read") and isinstance(res, tuple) else res)
            e.require(not succ if not isinstance(succ, SymBool) else False, "an out-of-range request does not report success")
            untouched("an out-of-range request changes neither copy")
            if b == "read_block": e.require(eq_arrays(data, data0), "the caller's array is left alone")
            return stable()
        if b == "synch": n, q = pos(n), pos(q)
        if not done: e.note("raised %r" % (res,))
        e.require(done, "an in-range request is carried out")
        r, c = pos(r), pos(c); rs, cc = slice(r, r + n), slice(c, c + q)
        succ = True if retry and b != "read" and b != "read_block" else (res[1] if b.startswith("read") and isinstance(res, tuple) else res)
        e.require(isinstance(succ, (bool, real_np.bool_)), "the call reports success or failure")
        if not succ:
            e.reach("busy")
            e.require(w.lock_budget < locks0, "an in-range request fails only when the lock is busy")
            e.require(not retry, "a retried request returns only after it succeeded")
            e.require(eq_arrays(shm.cells, s0), "a failed request leaves the shared copy alone")
            if down: e.require(eq_arrays(m, m0), "a failed read leaves the local copy alone")
            else: e.require(eq_except(m, m0, rs, cc), "a failed write changes no other cell of the local copy")
            if b == "read_block": e.require(eq_arrays(data, data0), "the caller's array is left alone")
            return stable()
        e.reach("done")
        e.require(eq_arrays(m[rs, cc], shm.cells[rs, cc]), "after success both copies of the addressed cells are equal")
        if down: e.require(eq_arrays(shm.cells, s0), "a read leaves the shared copy alone")
        else: e.require(eq_except(shm.cells, s0, rs, cc), "a write changes no other cell of the shared copy")
        e.require(eq_except(m, m0, rs, cc), "no other cell of the local copy changes")
        if b == "write": e.require(eq_arrays(shm.cells[rs, cc], value_as(val, d)), "the shared cell holds the value written")
        if b == "write_block":
            e.require(eq_arrays(shm.cells[rs, cc], as_dtype(data0, d)), "the shared cells hold the data written")
        if b == "read": e.require(isinstance(res, tuple) and len(res) == 2, "read returns (value, success)"); e.require(eq_value(res[0], s0[rs, cc]), "read returns the value of the addressed shared cell")
        if b == "read_block": e.require(eq_arrays(data, as_dtype(s0[rs, cc], ddt)), "the caller's array holds the addressed shared cells")
        if b == "synch" and not down: e.require(eq_arrays(shm.cells[rs, cc], m0[rs, cc]), "synchronising towards shared memory transfers the local cells")
        if b in ("write_block", "read_block"): # later changes of the caller's array stay his own
            keep = snap(m); put(data, e.cells("later", data.shape, ddt)); e.require(eq_arrays(m, keep), "the local copy does not alias the caller's array")
        return stable()
    if b == "synch_all":
        down = e.pick("direction", 2); again = e.pick("retry", 2)
        res = t.synch_all(read=bool(down), retry=bool(again))
        e.require(isinstance(res, bool), "the call reports success or failure")
        if not res:
            e.require(w.lock_budget < locks0 and not again, "an in-range request fails only when the lock is busy"); untouched("a failed synchronisation changes nothing")
        else:
            e.reach("done"); e.require(all_of(eq_arrays(m, shm.cells), eq_arrays(shm.cells, s0) if down else eq_arrays(m, m0)), "a full synchronisation makes both copies equal in the requested direction")
        return stable()
    if b == "to_zero":
        t.to_zero(); e.reach("done"); z = real_np.zeros((R, C)).astype(d); z = z if e.concrete else core.const_array(z)
        e.require(all_of(eq_arrays(m, z), eq_arrays(shm.cells, z)), "to_zero zeroes the local and the shared copy")
        if g is not None: e.require(eq_arrays(g, z), "to_zero zeroes the GPU mirror")
        return stable()
    if b in ("from_gpu", "to_gpu"):
        t.synch_mirror(from_gpu=b == "from_gpu", non_blocking=bool(e.pick("non blocking", 2))); e.reach("done")
        e.require(eq_arrays(shm.cells, s0), "synch_mirror leaves the shared copy alone")
        e.require(all_of(eq_arrays(m, g), eq_arrays(g, g0) if b == "from_gpu" else eq_arrays(m, m0)), "synch_mirror makes the local copy and the GPU mirror equal in the requested direction")
        return stable()
def c23(e, cfg, mods):
    w = new_world(cfg.get("locks", 1)); s, t, shm = wrapper(e, cfg, mods, w)
    for k in range(cfg.get("steps", 1)): step23(e, cfg, t, shm, w, k)
    if cfg["side"] == "client": t.close()
    s.close(); e.require(not s.get_shared_mem().isRunning(), "close() stops the server")

def c23_open(e, cfg, mods):
    """what the wrapper asks of the library when it opens a tensor: names, type, access mode, takeover"""
    w = new_world(0); T = mods.shared_data_view.SharedTWrapper; d = DT[cfg["dt"]]; R, C = cfg["R"], cfg["C"]
    ns, base = e.choose("names", [("ns", "base"), ("", "b")]); kw = dict(namespace=ns, basename=base, dtype=d)
    safe = e.choose("safe", [None, True, False]); force = e.choose("force_reconnection", [None, False, True]); opt = {} if safe is None else dict(safe=safe)
    old = T(is_server=True, n_rows=R, n_cols=C, **kw)
    e.require(old.get_shared_mem()._safe and not old.get_shared_mem()._force, "by default a tensor is opened in safe mode and takes nothing over"); old.run(); shm = w.tensors[(ns, base)]; before = snap(shm.cells)
    c = T(is_server=False, **kw, **opt); m = c.get_shared_mem()
    e.require(m._safe == (safe is not False) and (m._ns, m._base, m._d) == (ns, base, d), "a client view opens the tensor with the names, type and access mode it was given")
    t = T(is_server=True, n_rows=C, n_cols=R, **kw, **opt, **({} if force is None else dict(force_reconnection=force))); m = t.get_shared_mem()
    e.require(m._safe == (safe is not False) and m._force == (force is True) and (m._ns, m._base, m._d, m._layout) == (ns, base, d, RowMajor), "a server view opens the tensor with the names, type, access mode and takeover choice it was given")
    done, x = attempt(t.run)
    if force is True: e.require(done and w.tensors[(ns, base)] is not shm and (t.n_rows, t.n_cols) == (C, R), "with force_reconnection a server view takes the names over"); e.reach("taken over")
    else: e.require(not done and w.tensors[(ns, base)] is shm and shm.running, "without force_reconnection the running tensor stays"); e.require(eq_arrays(shm.cells, before), "a refused server view leaves the running tensor alone"); e.reach("kept")

# ---------------------------------------------------------------- C24
NAMES = ["q10", "q1", "q"]      # each one a prefix of the one before
def c24(e, cfg, mods):
    """server and client dictionaries over one namespace; writes from either side, then reads from either side"""
    w = new_world(0); D = mods.shared_tensor_dict.SharedTensorDict
    K = cfg["K"]; names = NAMES[:K]
    if K > 1 and e.pick("reversed", 2): names = names[::-1]
    dims = [e.choose("dim", list(range(1, cfg["maxdim"] + 1))) for _ in names]; N = cfg["N"]
    total = sum(dims); start = {n: sum(dims[:i]) for i, n in enumerate(names)}; dim = dict(zip(names, dims))
    srv = D(names=list(names), dimensions=list(dims), n_nodes=N, namespace="ns", is_server=True)
    cli = D(namespace="ns", is_server=False)
    w.lock_budget = cfg.get("locks", 1); w.lock_armed = True
    done, x = attempt(srv.run)
    if not done: e.note("raised %r" % x)
    e.require(done or w.lock_budget < cfg.get("locks", 1), "the server dictionary starts")
    if not done: raise Cut()     # a busy lock while the names are written is reported by an exception
    e.require(len(w.tensors) == 2 and len(w.strings) == 1 and all(t.running for t in w.tensors.values()) and all(t.running for t in w.strings.values()), "run() starts every part of the server dictionary")
    done, x = attempt(cli.run)
    if not done: e.note("raised %r" % x)
    e.require(done, "the client dictionary starts")
    e.require(sum(t.clients for t in w.tensors.values()) == 2, "run() attaches every part of the client dictionary")
    e.require([str(n) for n in cli.names] == names, "the client sees the server's names in order")
    e.require([pos(d) for d in cli.dimensions] == dims and pos(cli.n_dims) == total and pos(cli.n_nodes) == N, "the client sees the server's dimensions")
    shm = [t for t in w.tensors.values() if (t.rows, t.cols) == (total, N) and t.d == dtype.Float]
    e.require(len(shm) >= 1, "the data tensor has one row per dimension and one column per node")
    # arbitrary contents, seen by both
    for d in (srv, cli): put(d.data.get_numpy_mirror(), e.cells("local", (total, N), F32))
    sh = srv.data.get_shared_mem()._shm; put(sh.cells, e.cells("shared", (total, N), F32))
    truth = {n: snap(sh.cells[start[n]:start[n] + dim[n], :]) for n in names}
    for k in range(cfg.get("writes", 1)):
        d = (srv, cli)[e.pick("writer", 2)]; n = e.choose("name", names + ["nope"]); retry = bool(e.pick("retry", 2))
        extra = e.choose("rows", ["exact", "more", "wide", "flat"] if cfg.get("bad") else ["exact"]); r = dim.get(n, 1) + (extra == "more"); q = N + (extra == "wide")
        if extra in ("more", "wide") and retry and False: raise Cut()
        if extra == "flat" and r != 1: raise Cut()
        data = e.cells("data", (q,) if extra == "flat" else (r, q), F32); data0 = snap(data); s0 = snap(sh.cells); l0 = w.lock_budget
        done, res = attempt(d.write, data, n, retry)
        e.require(eq_arrays(data, data0), "the caller's array is left alone")
        if n == "nope" or extra in ("more", "wide"):
            e.reach("refused"); e.require(not done or res is False, "an unknown name or data larger than the named block is refused")
            e.require(eq_arrays(sh.cells, s0), "a refused write changes nothing in shared memory")
        else:
            if not done: e.note("raised %r" % res)
            e.require(done and (res is True or res is False), "a write to a known name is carried out")
            if res: e.reach("written"); truth[n] = data0.reshape((1, q)) if extra == "flat" else data0
            else: e.require(w.lock_budget < l0 and not retry, "a write fails only when the lock is busy")
        for m in names: e.require(eq_arrays(sh.cells[start[m]:start[m] + dim[m], :], truth[m]), "shared memory holds, for every name, what was last written to it")
    for d in (srv, cli):
        l0 = w.lock_budget; retry = bool(e.pick("retry", 2)); ok = d.synch(retry)
        e.require(ok or (not retry and w.lock_budget < l0), "synch() fails only when the lock is busy")
        if not ok: continue
        for m in names:
            g = d.get(m); e.require(eq_arrays(g, truth[m]), "get() returns what was last written to the name, on both sides")
            put(g, e.cells("scribble", g.shape, F32))
        for m in names: e.require(eq_arrays(d.get(m), truth[m]), "what get() returned is a copy")
        done, x = attempt(d.get, "nope"); e.require(not done, "get() of an unknown name is refused"); e.reach("read")
    cli.close(); e.require(sum(t.clients for t in w.tensors.values()) == 0, "close() detaches every part of the client dictionary")
    e.require(all(t.running for t in w.tensors.values()) and all(t.running for t in w.strings.values()), "the client's close() leaves the server running")
    parts = [x for x in list(w.tensors.values()) + list(w.strings.values())]
    srv.close(); e.require(not any(t.running for t in parts), "close() stops every part of the server dictionary"); e.reach("closed")

def c24_restart(e, cfg, mods):
    """a dictionary whose server died without closing: a new one takes over every part exactly when asked to"""
    w = new_world(0); D = mods.shared_tensor_dict.SharedTensorDict; N = cfg["N"]
    a = D(names=["x", "yy"], dimensions=[1, 2], n_nodes=N, namespace="ns", is_server=True); a.run()
    old = list(w.tensors.values()) + list(w.strings.values())
    force = e.choose("force_reconnection", [None, False, True]); dims = [e.choose("dim", [1, 2, 3]), 1]
    b = D(names=["x", "z"], dimensions=list(dims), n_nodes=N, namespace="ns", is_server=True, **({} if force is None else dict(force_reconnection=force)))
    done, x = attempt(b.run)
    if force is not True:
        e.require(not done and (list(w.tensors.values()) + list(w.strings.values())) == old and all(t.running for t in old), "without force_reconnection the running dictionary stays"); e.reach("kept"); return
    if not done: e.note("raised %r" % (x,))
    now = list(w.tensors.values()) + list(w.strings.values())
    e.require(done and len(now) == len(old) and not any(t in old for t in now), "with force_reconnection every part of the dictionary is taken over")
    c = D(namespace="ns", is_server=False); done, x = attempt(c.run); e.require(done, "the client dictionary starts")
    e.require([str(n) for n in c.names] == ["x", "z"] and [pos(d) for d in c.dimensions] == dims, "the client sees the new server's names and dimensions"); e.reach("taken over")

# ---------------------------------------------------------------- C25
def c25(e, cfg, mods):
    """a tensor (or a string tensor) -> ToRos -> topics -> FromRos -> the tensor it creates"""
    w = new_world(0); ros = cfg["ros"]; be = "ros%d" % ros; node = world.Node() if ros == 2 else None
    ns, base = e.choose("names", [("ns", "base"), ("", "b"), ("a", "Data")]); R, C = cfg["R"], cfg["C"]
    d = dtype.Int if cfg.get("strings") else DT[cfg["dt"]]; lay = ColMajor if cfg.get("col") else RowMajor
    if cfg.get("strings"):
        src = world.StringTensorServer(length=C, basename=base, name_space=ns); src.run(); cli = world.StringTensorClient(basename=base, name_space=ns); cells = src._m.raw; R = cells.shape[0]
        if e.pick("attached", 2): cli.run()
    else:
        src = world.ServerFactory(n_rows=R, n_cols=C, basename=base, namespace=ns, dtype=d, layout=lay); src.run(); cli = world.ClientFactory(basename=base, namespace=ns, dtype=d, layout=lay); cells = src._shm.cells
        if e.pick("attached", 2): cli.attach()
    before = set(map(id, w.created))
    when = e.pick("subscriber appears", 3)          # before the publisher runs, after it ran, after its first update
    mk = lambda: mods.from_ros.FromRos(basename=base, namespace=ns, ros_backend=be, node=node)
    fr = mk() if when == 0 else None
    if fr is not None: e.require(fr.run() is False and not [s for s in w.created if id(s) not in before], "FromRos does not start before the publisher's metadata arrived")
    to = mods.to_ros.ToRos(client=cli, ros_backend=be, node=node)
    done, x = attempt(to.run)
    if not done: e.note("raised %r" % (x,))
    e.require(done, "ToRos starts on a running tensor")
    w.lock_budget = cfg.get("locks", 1); w.lock_armed = True
    def update():
        done, x = attempt(to.update)
        if not done: e.note("raised %r" % (x,))
        e.require(done, "ToRos forwards a running tensor"); e.require(bool(x), "ToRos.update() reports success")
    if when == 2: update()
    if fr is None: fr = mk()
    def start():
        done, x = attempt(fr.run)
        if not done: e.note("raised %r" % (x,))
        e.require(done and x is True, "FromRos starts once the metadata arrived")
    start()
    if e.pick("run again", 2): start()
    new = [s for s in w.created if id(s) not in before]
    e.require(len(new) == 1, "FromRos creates one tensor"); dst = new[0]
    e.require(dst.getNRows() == R and dst.getNCols() == C, "the restored tensor has the source's shape")
    e.require(dst.getScalarType() == d, "the restored tensor has the source's element type")
    e.require(dst.isRunning() and dst.getNamespace() == ns and dst.getBasename().startswith(base), "the restored tensor runs under the source's names")
    if not cfg.get("strings"): e.require(dst._layout == lay, "the restored tensor has the source's layout")
    for k in range(cfg.get("rounds", 2)):
        put(cells, e.cells("data", (R, C), NP[d.n])); now = snap(cells)
        update()
        e.require(eq_arrays(cells, now), "forwarding leaves the source alone")
        done, x = attempt(fr.update)
        if not done: e.note("raised %r" % (x,))
        e.require(done and x is True, "FromRos.update() reports success")
        e.require(eq_arrays(plain(e, dst._shm.cells), plain(e, now)), "after both updates the restored tensor holds the source's contents"); e.reach("restored")
        if k == 0 and e.pick("idle", 2): # nothing new published: contents stay
            e.require(fr.update() is True, "FromRos.update() reports success"); e.require(eq_arrays(plain(e, dst._shm.cells), plain(e, now)), "after both updates the restored tensor holds the source's contents")
    to.close(); fr.close(); e.require(not dst.isRunning(), "close() stops the restored tensor"); e.reach("closed")
def plain(e, a): return real_np.ascontiguousarray(a) if e.concrete else a

def c25_meta(e, cfg, mods):
    """metadata that contradicts what was agreed, back ends that do not exist, names that are taken"""
    w = new_world(0); ros = cfg["ros"]; be = "ros%d" % ros; node = world.Node() if ros == 2 else None; ns, base = "ns", "base"; R, C = cfg["R"], cfg["C"]; d = DT[cfg["dt"]]
    src = world.ServerFactory(n_rows=R, n_cols=C, basename=base, namespace=ns, dtype=d, layout=RowMajor); src.run(); cli = world.ClientFactory(basename=base, namespace=ns, dtype=d, layout=RowMajor); cells = src._shm.cells
    To, From = mods.to_ros.ToRos, mods.from_ros.FromRos
    done, x = attempt(lambda: To(client=cli, ros_backend="ros3", node=node).run()); e.require(not done, "an unknown back end is refused")
    done, x = attempt(lambda: From(basename=base, namespace=ns, ros_backend="ros3", node=node)); e.require(not done, "an unknown back end is refused")
    if ros == 2:
        done, x = attempt(lambda: To(client=cli, ros_backend=be).run()); e.require(not done, "the ROS 2 back end needs a node")
        done, x = attempt(lambda: From(basename=base, namespace=ns, ros_backend=be)); e.require(not done, "the ROS 2 back end needs a node")
    done, x = attempt(lambda: To(client=src, ros_backend=be, node=node)); e.require(not done, "ToRos only accepts clients")
    to = To(client=cli, ros_backend=be, node=node); to.run(); to.update()
    before = set(map(id, w.created)); fr = From(basename=base, namespace=ns, ros_backend=be, node=node)
    e.require(fr.run() is True, "FromRos starts once the metadata arrived"); dst = [s for s in w.created if id(s) not in before][-1]; keep = snap(cells)
    def same(): return eq_arrays(plain(e, dst._shm.cells), plain(e, keep))
    e.require(fr.update() is True, "FromRos.update() reports success"); e.require(same(), "a FromRos that starts late restores what was published last"); e.reach("late")
    force = e.choose("force_reconnection", [None, True]); before = set(map(id, w.created)); f2 = From(basename=base, namespace=ns, ros_backend=be, node=node, **({} if force is None else dict(force_reconnection=force)))
    done, x = attempt(f2.run)
    if force is None: e.require(not done and dst.isRunning(), "FromRos does not take over a running tensor unless asked"); f2 = fr
    else: e.require(done and x is True, "FromRos takes over a left-over tensor when asked"); dst = [s for s in w.created if id(s) not in before][-1]; e.require(f2.update() is True, "FromRos.update() reports success"); e.require(same(), "a FromRos that starts late restores what was published last")
    N = mods.defs.NamingConventions(); k = e.pick("which", 3); t = w.topics[[N.nRowsName, N.nColsName, N.dTypeName][k](namespace=ns, basename=base)]; agreed = t.latched[0].data
    v = e.int("value", -1, 9); m = world.Int32(); m.data = v; done, x = attempt(world.Pub(t.name, world.Int32, ros, False).publish, m)
    if bool(v == agreed): e.require(done, "repeated metadata is accepted"); e.reach("repeated")
    else: e.require(not done, "metadata that contradicts the agreed shape or type is refused"); e.reach("contradicted")
    e.require((dst.getNRows(), dst.getNCols()) == (R, C) and f2.update() is True, "contradicting metadata does not stop the restored tensor"); e.require(same(), "contradicting metadata does not change the restored tensor")

def c25_topics(e, cfg, mods):
    """the four topic names of one tensor differ from each other, and those of two tensors differ (names of any characters but '/')"""
    N = mods.defs.NamingConventions()
    def name(tag):
        n = e.choose(tag + " length", [1, 2]); cs = [e.int(tag, 32, 0x10FFFF) for _ in range(n)]
        if e.concrete:
            e.assume(all(c != ord("/") and not 0xD800 <= c < 0xE000 for c in cs)); return "".join(map(chr, cs))
        for c in cs: e.assume(z3.And(c.t != ord("/"), z3.Or(c.t < 0xD800, c.t >= 0xE000)))
        return SymStr([c.t for c in cs])
    ns, b, ns2, b2 = name("ns"), name("base"), name("ns2"), name("base2")
    f = [N.DataName, N.nRowsName, N.nColsName, N.dTypeName]; one = [g(namespace=ns, basename=b) for g in f]; two = [g(namespace=ns2, basename=b2) for g in f]
    E_ = lambda x, y: SymStr.of(x).eqterm(y) if not e.concrete else x == y
    nt = lambda c: (not c) if e.concrete else z3.Not(c)
    for i in range(4):
        for j in range(i): e.require(nt(E_(one[i], one[j])), "the topics of one tensor are distinct")
        for j in range(4):
            same = all_of(E_(ns, ns2), E_(b, b2)) if i == j else False
            got = E_(one[i], two[j])
            e.require(got == same if e.concrete else got == (z3.BoolVal(same) if isinstance(same, bool) else same), "topics coincide exactly when namespace, basename and kind do")
    e.reach("compared")

def c25_strings(e, cfg, mods):
    """StringArray: decode(encode(x)) == x for lists of strings without the delimiter"""
    def ch(tag):
        c = e.int(tag, 1, 0x10FFFF)
        if e.concrete: e.assume(not 0xD800 <= c < 0xE000); return c
        e.assume(z3.Or(c.t < 0xD800, c.t >= 0xE000)); return c.t
    mk = lambda cs: "".join(map(chr, cs)) if e.concrete else SymStr(cs)
    if e.pick("delimiter", 2): dl = [ch("delimiter char")]; S = mods.defs.StringArray(delimiter=mk(dl))
    else: dl = [59 if e.concrete else z3.IntVal(59)]; S = mods.defs.StringArray()
    n = 1 + e.pick("strings", cfg["n"]); xs = []
    for i in range(n):
        cs = [ch("char") for _ in range(e.pick("length", cfg["len"] + 1))]
        for c in cs: e.assume(c != dl[0])
        xs.append(mk(cs))
    enc = S.encode(list(xs)); out = S.decode(enc)
    e.require(isinstance(out, list) and len(out) == n, "decoding gives as many strings as were encoded")
    e.require(all_of(*[(a == b) if e.concrete else SymStr.of(a).eqterm(b) for a, b in zip(out, xs)]), "decoding gives back the strings that were encoded"); e.reach("decoded")
