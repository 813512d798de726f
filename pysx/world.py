"""What the Python code runs against: a model of the compiled EigenIPC module (following properties C01, C02, C04, C14, C21, C28), of torch,
rospy, rclpy, std_msgs and perf_sleep, and the loader that imports the repository's Python files against them."""
import sys, os, types, importlib, importlib.util, importlib.machinery
import numpy as real_np
import core
from core import *

class World:
    """everything shared between the processes of one run"""
    cur = None
    def __init__(self, lock_failures=0):
        self.tensors = {}; self.strings = {}; self.lock_budget = lock_failures; self.topics = {}; self.topic_types = {}; self.created = []; self.lock_armed = False; self.log = []
    def lock(self):
        """one non-blocking attempt on the tensor's lock, which somebody else may hold"""
        if self.lock_armed and self.lock_budget > 0 and E().pick("lock_busy", 2): self.lock_budget -= 1; return False
        return True

# ---------------------------------------------------------------- EigenIPC.PyEigenIPC
class Enum:
    def __init__(s, n, v): s.n = n; s.v = v
    def __repr__(s): return s.n
    def __int__(s): return s.v
    __index__ = __int__
    def __eq__(a, b): return isinstance(b, Enum) and a.n == b.n
    def __hash__(s): return hash(s.n)
    @property
    def name(s): return s.n.split(".")[1]
    @property
    def value(s): return s.v
def enum(name, items):
    t = type(name, (), {}); 
    for i, x in enumerate(items): setattr(t, x, Enum(name + "." + x, i))
    return t
dtype = enum("dtype", ["Bool", "Int", "Float", "Double"]); VLevel = enum("VLevel", ["V0", "V1", "V2", "V3"]); LogType = enum("LogType", ["WARN", "EXCEP", "INFO", "STAT"])
RowMajor, ColMajor = 1, 0
NP = {"dtype.Bool": B8, "dtype.Int": I32, "dtype.Float": F32, "dtype.Double": F64}
def toNumpyDType(d): return NP[d.n]
class Journal:
    def __init__(s, *a, **k): pass
    @staticmethod
    def log(classname, methodname, message, log_type=LogType.INFO, throw_when_excep=False):
        if log_type == LogType.EXCEP and throw_when_excep: raise RuntimeError("[%s][%s]" % (classname, methodname))
    def getName(s): return ""
def cint(x):
    """a C int argument, as pybind11 converts it"""
    if type(x) is SymInt:
        if E().branch(z3.And(x.t >= -2**31, x.t < 2**31)): return x
        raise TypeError("incompatible function arguments")
    if isinstance(x, float) or x is None or isinstance(x, str): raise TypeError("incompatible function arguments")
    v = x.__index__()
    if not -2**31 <= v < 2**31: raise TypeError("incompatible function arguments")
    return v
class Shm:
    def __init__(s, r, c, d, layout):
        s.rows, s.cols, s.d, s.layout, s.running, s.clients = r, c, d, layout, False, 0
        s.cells = E().cells("initial", (r, c), NP[d.n], "F" if layout == ColMajor else "C") if r * c else None
def np_any(a): return isinstance(a, real_np.ndarray)
class Endpoint:
    """what Server and Client wrappers have in common"""
    def _chk(s, a, row, col):
        if not np_any(a): raise TypeError("incompatible function arguments")
        row, col = cint(row), cint(col)
        if a.dtype != NP[s._d.n]: raise RuntimeError("Mismatched dtype")
        return row, col
    def _ok(s, a, row, col):
        if not s._up(): return None
        if a.ndim != 2: return None
        st = a.strides
        if (s._layout == RowMajor and st[0] < st[1]) or (s._layout == ColMajor and st[0] > st[1]): return None
        m = s._shm
        for v, n, lim in ((row, a.shape[0], m.rows), (col, a.shape[1], m.cols)):
            if v < 0 or v + n > lim: return None
        row, col = row.__index__(), col.__index__()
        if not s._world.lock(): return None
        return slice(row, row + a.shape[0]), slice(col, col + a.shape[1])
    def write(s, data, row=0, col=0):
        a = data; row, col = s._chk(a, row, col); k = s._ok(a, row, col)
        if k is None: return False
        if a.size: s._shm.cells[k] = a
        return True
    def read(s, tensor, row=0, col=0):
        a = tensor; row, col = s._chk(a, row, col); k = s._ok(a, row, col)
        if k is None: return False
        if a.size: a[:, :] = s._shm.cells[k]
        return True
    def _up(s): return s._shm is not None and s._running
    def isRunning(s): return s._up() and s._shm.running
    def getNRows(s): return s._shm.rows if s._shm else -1
    def getNCols(s): return s._shm.cols if s._shm else -1
    def getScalarType(s): return s._d
    def getNamespace(s): return s._ns
    def getBasename(s): return s._base
    def dataSemAcquire(s): pass
    def dataSemRelease(s): pass
class Server(Endpoint):
    def __init__(s, rows, cols, base, ns, d, layout, safe, force):
        s._safe, s._force = bool(safe), bool(force); s._world = World.cur; s._ns, s._base, s._d, s._layout, s._running, s._rows, s._cols = ns, base, d, layout, False, rows, cols
        s._shm = Shm(rows, cols, d, layout); s._world.created.append(s)
    def run(s):
        k = (s._ns, s._base)
        if not s._running:
            o = s._world.tensors.get(k)
            if o is not None and o.running and not s._force: raise RuntimeError("a server with the same namespace is already running")
            s._world.tensors[k] = s._shm; s._shm.running = True; s._running = True
    def stop(s): s._running = False; s._shm.running = False
    def close(s):
        s.stop()
        if s._world.tensors.get((s._ns, s._base)) is s._shm: del s._world.tensors[(s._ns, s._base)]
    def getNClients(s): return s._shm.clients
class Client(Endpoint):
    def __init__(s, base, ns, d, layout, safe):
        s._safe = bool(safe); s._world = World.cur; s._ns, s._base, s._d, s._layout, s._running, s._shm = ns, base, d, layout, False, None
    def attach(s):
        if s._running: return
        m = s._world.tensors.get((s._ns, s._base))
        if m is None or not m.running: raise Cut()              # waits for a server for ever
        if m.d != s._d or m.layout != s._layout: raise RuntimeError("mismatched type or layout")
        s._shm = m; m.clients += 1; s._running = True
    def detach(s):
        if s._running: s._running = False; s._shm.clients -= 1
    close = detach
def text(x):
    if not isinstance(x, str): raise TypeError("incompatible function arguments")
    return x
def ServerFactory(n_rows, n_cols, basename, namespace="", verbose=False, vlevel=VLevel.V0, safe=True, force_reconnection=False, dtype=dtype.Float, layout=RowMajor):
    r, c = cint(n_rows).__index__(), cint(n_cols).__index__()
    return Server(r, c, text(basename), text(namespace), dtype, layout, safe, force_reconnection)
def ClientFactory(basename="MySharedMemory", namespace="", verbose=False, vlevel=VLevel.V0, safe=True, dtype=dtype.Float, layout=RowMajor): return Client(text(basename), text(namespace), dtype, layout, safe)
class StrEnd:
    def _up(s): return s._running and s._m.running
    def isRunning(s): return s._running
    def length(s): return s._m.n
    def getNamespace(s): return s._ns
    def getBasename(s): return s._base
    def close(s):
        s._running = False
    def _range(s, n, i):
        return s._running and not (i < 0 or i + n > s._m.n)
    def write_vec(s, str_list, index=0):
        v = str_list
        if not all(isinstance(x, str) for x in v): raise TypeError("incompatible function arguments")
        i = cint(index)
        if not s._range(len(v), i) or not s._world.lock(): return False
        i = i.__index__()
        for k, x in enumerate(v): s._m.v[i + k] = x
        return True
    def read_vec(s, str_list, index=0):
        v = str_list
        i = cint(index)
        if not s._range(len(v), i) or not s._world.lock(): return False
        i = i.__index__()
        for k in range(len(v)): v[k] = s._m.v[i + k]
        return True
    def write_str(s, to_write, index=0): return s.write_vec([to_write], index)
    def read_str(s, index=0): 
        v = [""]; s.read_vec(v, index); return v[0]
    def get_raw_buffer(s): return s._m.raw.copy()
class StrShm:
    ROWS = 2   # encoded length of one string in this model (256 in the real one): the Python code takes it from the buffer
    def __init__(s, n): s.n = n; s.v = [""] * n; s.running = True; s.raw = E().cells("raw", (StrShm.ROWS, n), I32)
class StringTensorServer(StrEnd):
    def __init__(s, length, basename="MySharedMemory", name_space="", verbose=False, vlevel=VLevel.V0, force_reconnection=False, safe=True):
        s._safe, s._force = bool(safe), bool(force_reconnection); s._world = World.cur; s._ns, s._base, s._n, s._running, s._m = text(name_space), text(basename), cint(length).__index__(), False, None
    def length(s): return s._n
    def run(s):
        if s._running: return
        o = s._world.strings.get((s._ns, s._base))
        if o is not None and o.running and not s._force: raise RuntimeError("already running")
        s._m = StrShm(s._n); s._world.strings[(s._ns, s._base)] = s._m; s._running = True
    def close(s):
        if s._running: s._running = False; s._m.running = False; (s._world.strings.get((s._ns, s._base)) is s._m) and s._world.strings.pop((s._ns, s._base), None)
class StringTensorClient(StrEnd):
    def __init__(s, basename="MySharedMemory", name_space="", verbose=False, vlevel=VLevel.V0, safe=True):
        s._safe = bool(safe); s._world = World.cur; s._ns, s._base, s._running, s._m = text(name_space), text(basename), False, None
    def run(s):
        if s._running: return
        m = s._world.strings.get((s._ns, s._base))
        if m is None or not m.running: raise Cut()
        s._m = m; s._running = True

# ---------------------------------------------------------------- torch
class Device(str): type = property(lambda s: s.split(":")[0])
class Tensor:
    def __init__(s, a, dev="cpu"): s.a = a; s.dev = dev
    def requires_grad_(s, f=True): return s
    def to(s, *args, non_blocking=False, **k):
        dev = next((x for x in args if isinstance(x, (str, Device))), k.get("device", s.dev)); dev = str(dev).split(":")[0]
        if isinstance(next(iter(args), None), Tensor): dev = args[0].dev
        if k.get("copy"): return Tensor(s.a.copy(), dev)
        if dev == s.dev: return s
        return Tensor(s.a.copy(), dev)
    def cpu(s): return s.to("cpu")
    def cuda(s, *a, **k): return s.to("cuda")
    def zero_(s): s.a[...] = 0; return s
    def fill_(s, v): s.a[...] = v; return s
    def copy_(s, o, non_blocking=False): s.a[...] = o.a; return s
    def clone(s, **k): return Tensor(s.a.copy(), s.dev)
    def numel(s): return s.a.size
    def dim(s): return s.a.ndim
    ndim = property(lambda s: s.a.ndim); data = property(lambda s: s); requires_grad = False
    def reshape(s, *sh): return Tensor(s.a.reshape(*sh), s.dev)
    view = reshape
    def flatten(s): return s.reshape(-1)
    def item(s): return s.a.item()
    def tolist(s): return s.a.tolist()
    def is_contiguous(s): return bool(s.a.flags.c_contiguous)
    def pin_memory(s): return s
    def detach(s): return s
    def contiguous(s): return s
    def __getitem__(s, k): return Tensor(s.a[k], s.dev)
    def __setitem__(s, k, v):
        if isinstance(v, Tensor): s.a[k] = v.a      # copies across devices, as torch does
        else: s.a[k] = v
    def numpy(s):
        if s.dev != "cpu": raise TypeError("can't convert cuda tensor to numpy")
        return s.a
    shape = property(lambda s: s.a.shape); dtype = property(lambda s: s.a.dtype)
    def size(s, i=None): return s.a.shape if i is None else s.a.shape[i]
    device = property(lambda s: Device(s.dev)); is_cuda = property(lambda s: s.dev == "cuda")
    def __pysx_array__(s): return s.a
    def __array__(s, *a, **k): return s.a
torch = types.ModuleType("torch"); torch.from_numpy = lambda a: Tensor(a); torch.Tensor = Tensor; torch.device = Device; torch.is_tensor = lambda x: isinstance(x, Tensor); torch.as_tensor = lambda a, **k: a if isinstance(a, Tensor) else Tensor(a); torch.clone = lambda t, **k: t.clone()
torch.zeros_like = lambda t, device=None, **k: Tensor(t.a.copy(), str(device or t.dev).split(":")[0]).zero_(); torch.empty_like = torch.zeros_like
class NoGrad:
    def __enter__(s): return s
    def __exit__(s, *a): return False
    def __call__(s, f): return f
torch.no_grad = torch.inference_mode = NoGrad
torch.cuda = types.SimpleNamespace(is_available=lambda: True, synchronize=lambda *a: None)

# ---------------------------------------------------------------- messages and middleware
class Msg:
    def __init__(s, data=None, **k): s.data = data if data is not None else s.empty()
    def empty(s): return 0
class Bool(Msg): wire = B8
class Int32(Msg): wire = I32
class Float32(Msg): wire = F32
class Float64(Msg): wire = F64
class Multi(Msg):
    def empty(s): return []
class Int32MultiArray(Multi): wire = I32
class Float32MultiArray(Multi): wire = F32
class Float64MultiArray(Multi): wire = F64
def one_d(x):
    a = toarray(x) if not E().concrete else real_np.asarray(x)
    return a
def transport(msg, ros):
    """what the subscriber's message holds: the data as it is now, through the wire type"""
    t = type(msg); m = t()
    if isinstance(msg, Multi):
        a = one_d(msg.data)
        if a.ndim != 1: raise TypeError("message data must be one-dimensional")
        if a.dtype.kind == "f" and t.wire.kind == "i": raise TypeError("floats in an integer message")
        w = as_dtype(a, t.wire).copy()
        # rospy hands over a tuple of Python numbers, rclpy an array.array
        m.data = tuple(w.tolist()) if ros == 1 else (w if not E().concrete else real_np.array(w))
        return m
    v = msg.data
    if t.wire == I32: m.data = cint(v)
    else: m.data = v
    return m
class Topic:
    def __init__(s, name): s.name = name; s.subs = []; s.latched = None; s.type = None
def topic(w, name, cls):
    t = w.topics.setdefault(str_of(name), Topic(name))
    if t.type is None: t.type = cls
    elif t.type is not cls: raise Cut() if False else RuntimeError("topic type mismatch")
    return t
def str_of(n):
    if not isinstance(n, str): raise TypeError("topic name")
    return n
class Pub:
    def __init__(s, name, cls, ros, latch): s.w = World.cur; s.cls = cls; s.ros = ros; s.t = topic(s.w, name, cls); s.latch = latch; s.closed = False
    def publish(s, msg=None):
        if s.closed: raise RuntimeError("publisher closed")
        if type(msg) is not s.cls: raise TypeError("wrong message type")
        if s.latch: s.t.latched = (msg if s.ros == 1 else transport(msg, 2), s.ros)      # rospy keeps the message object, rclpy the serialised sample
        for cb in list(s.t.subs): cb(transport(msg, s.ros))
    def unregister(s): s.closed = True; s.t.latched = None
    destroy = unregister
class Sub:
    def __init__(s, name, cls, cb, ros, late):
        s.t = topic(World.cur, name, cls); s.cb = cb; s.t.subs.append(cb)
        if s.t.latched is not None and late: m, r = s.t.latched; cb(transport(m, r))
    def unregister(s):
        if s.cb in s.t.subs: s.t.subs.remove(s.cb)
    destroy = unregister
rospy = types.ModuleType("rospy"); rospy.loginfo = rospy.logwarn = rospy.logerr = rospy.logdebug = rospy.sleep = lambda *a, **k: None; rospy.is_shutdown = lambda: False; rospy.get_name = lambda: "node"
rospy.Publisher = lambda name, data_class, subscriber_listener=None, tcp_nodelay=False, latch=False, headers=None, queue_size=None: Pub(name, data_class, 1, latch)
rospy.Subscriber = lambda name, data_class, callback=None, callback_args=None, queue_size=None, buff_size=65536, tcp_nodelay=False: Sub(name, data_class, callback, 1, True)
class QoSProfile:
    def __init__(s, **k): s.__dict__.update(k)
class Node:
    def create_publisher(s, msg_type, topic, qos_profile, **k): return Pub(topic, msg_type, 2, getattr(qos_profile, "durability", None) == "TRANSIENT_LOCAL")
    def create_subscription(s, msg_type, topic, callback, qos_profile, **k): return Sub(topic, msg_type, callback, 2, getattr(qos_profile, "durability", None) == "TRANSIENT_LOCAL")
    def destroy_publisher(s, p): p.destroy(); return True
    def destroy_subscription(s, p): p.destroy(); return True
    def get_name(s): return "node"
    def get_logger(s): return types.SimpleNamespace(info=lambda *a, **k: None, warn=lambda *a, **k: None, error=lambda *a, **k: None, debug=lambda *a, **k: None)
def nap(*a): E().steps += 50
class FakeTime(types.ModuleType):
    """time without waiting"""
    sleep = staticmethod(nap)
    def __getattr__(self, n): return getattr(real_time, n)
import time as real_time
class PerfSleep:
    @staticmethod
    def thread_sleep(ns): E().steps += 50
    clock_sleep = thread_sleep

# ---------------------------------------------------------------- loading the repository's files
import ast
METHODS = {n for n in dir(str) if not n.startswith("_")}
class Strings(ast.NodeTransformer):
    """"..." .join(x), .split, f"...", "..." % x, str(x), type(x), x in y etc. dispatch to the symbolic types when a symbolic value is involved; nothing else changes"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod): return ast.copy_location(ast.Call(ast.Name("__pysx_mod__", ast.Load()), [n.left, n.right], []), n)
        return n
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(ast.Name("__pysx_in__", ast.Load()), [n.left, n.comparators[0]], [])
            return ast.copy_location(ast.UnaryOp(ast.Not(), c) if isinstance(n.ops[0], ast.NotIn) else c, n)
        return n
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "type" and len(n.args) == 1 and not n.keywords: n.func = ast.copy_location(ast.Name("__pysx_type__", ast.Load()), n.func); return n
        if isinstance(n.func, ast.Name) and n.func.id == "str" and len(n.args) == 1 and not n.keywords: n.func = ast.copy_location(ast.Name("__pysx_str__", ast.Load()), n.func); return n
        if isinstance(n.func, ast.Name) and n.func.id == "map" and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id in ("str", "int"): n.args[0] = ast.copy_location(ast.Name("__pysx_%s__" % n.args[0].id, ast.Load()), n.args[0])
        if isinstance(n.func, ast.Name) and n.func.id == "int" and len(n.args) == 1 and not n.keywords: n.func = ast.copy_location(ast.Name("__pysx_int__", ast.Load()), n.func); return n
        if isinstance(n.func, ast.Attribute) and n.func.attr in METHODS:
            return ast.copy_location(ast.Call(ast.Name("__pysx_method__", ast.Load()), [n.func.value, ast.Constant(n.func.attr)] + n.args, n.keywords), n)
        return n
    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = [ast.Tuple([v.value, ast.Constant(v.conversion), v.format_spec or ast.Constant("")], ast.Load()) if isinstance(v, ast.FormattedValue) else v for v in n.values]
        return ast.copy_location(ast.Call(ast.Name("__pysx_fstring__", ast.Load()), parts, []), n)
def sym_str(x): return x if type(x) is SymStr else str(x)
def sym_type(x): return x.__class__ if type(x) in (SymInt, SymScalar, SymBool, SymStr) else real_np.ndarray if type(x) is SymArray and not E().concrete else type(x)
def sym_int(x):
    if type(x) is SymInt: return x
    if type(x) is SymScalar and x.dt in (I32, I64, B8): return x._i()
    if type(x) is SymBool: return SymInt(z3.If(x.t, z3.IntVal(1), z3.IntVal(0)))
    if type(x) is SymArray:
        if x.size != 1: raise TypeError("only length-1 arrays can be converted to Python scalars")
        return sym_int(x.view(real_np.ndarray).ravel()[0] if False else core.topy(x.view(real_np.ndarray).ravel()[0]))
    return int(x)
def sym_in(x, c):
    if type(x) is SymStr and type(c) is str: c = SymStr.of(c)
    return x in c
def sym_mod(a, b):
    if type(a) is SymStr or (type(a) is str and (type(b) is SymStr or isinstance(b, (tuple, list)) and any(type(y) is SymStr for y in b))):
        if type(a) is SymStr: raise Unsupported("a symbolic format string")
        b = b if type(b) is tuple else (b,); parts = a.split("%s"); out = SymStr.of(parts[0])
        if "%" in "".join(parts) or len(parts) != len(b) + 1: raise Unsupported("formatting with a symbolic string")
        for y, t in zip(b, parts[1:]): out = out + sym_str(y) + t
        return out
    return a % b
def dispatch(obj, name, *a, **k):
    if obj is str and a and name in METHODS and (type(a[0]) is SymStr or len(a) > 1): obj, a = a[0], a[1:]      # str.join(sep, xs)
    if type(obj) is str and name == "format" and any(type(y) is SymStr for y in list(a) + list(k.values())):
        import string; out = SymStr([]); n = 0
        for lit, field, spec, conv in string.Formatter().parse(obj):
            out = out + lit
            if field is None: continue
            if field == "": field = str(n); n += 1
            v = a[int(field)] if field.isdigit() else k[field] if field in k else None
            if v is None or (type(v) is SymStr and (spec or conv)): raise Unsupported("formatting with a symbolic string")
            out = out + (v if type(v) is SymStr else format(v, spec or ""))
        return out
    def has(x): return type(x) is SymStr or isinstance(x, (list, tuple)) and any(type(y) is SymStr for y in x)
    if type(obj) is str:
        a = [x if not hasattr(x, "__next__") else list(x) for x in a]
        if any(has(x) for x in a): obj = SymStr.of(obj)
    return getattr(obj, name)(*a, **k)
def fstring(*parts):
    out = []
    for p in parts:
        if isinstance(p, tuple):
            v, conv, spec = p
            if type(v) is SymStr and conv == -1 and spec == "": out.append(v); continue
            out.append(format({-1: lambda x: x, 115: str, 114: repr, 97: ascii}[conv](v), spec))
        else: out.append(p)
    if any(type(x) is SymStr for x in out):
        r = SymStr([])
        for x in out: r = r + x
        return r
    return "".join(out)
class RepoLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        path = self.get_filename(name); tree = Strings().visit(ast.parse(self.get_data(path), path)); return compile(ast.fix_missing_locations(tree), path, "exec", dont_inherit=True)
    def exec_module(self, m):
        m.__dict__.update(__pysx_method__=dispatch, __pysx_fstring__=fstring, __pysx_str__=sym_str, __pysx_type__=sym_type, __pysx_int__=sym_int, __pysx_in__=sym_in, __pysx_mod__=sym_mod); super().exec_module(m)
class RepoFinder:
    root = None
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if not name.startswith(PKG + "."): return None
        p = os.path.join(cls.root, *name[len(PKG) + 1:].split("."))
        for f, pk in ((os.path.join(p, "__init__.py"), True), (p + ".py", False)):
            if os.path.isfile(f): return importlib.util.spec_from_file_location(name, f, loader=RepoLoader(name, f), submodule_search_locations=[p] if pk else None)
        if os.path.isdir(p): s = importlib.machinery.ModuleSpec(name, None, is_package=True); s.submodule_search_locations = [p]; return s
PKG = "EigenIPC.PyEigenIPCExt"
def load(repo, symbolic):
    """fresh copies of the repository's Python modules, bound to the models above"""
    sys.dont_write_bytecode = True
    def mod(name, **k):
        m = types.ModuleType(name); m.__dict__.update(k); return m
    ipc = mod("EigenIPC.PyEigenIPC", ServerFactory=ServerFactory, ClientFactory=ClientFactory, Server=Server, Client=Client, StringTensorServer=StringTensorServer, StringTensorClient=StringTensorClient, Journal=Journal, LogType=LogType, VLevel=VLevel, dtype=dtype, RowMajor=RowMajor, ColMajor=ColMajor, toNumpyDType=toNumpyDType)
    root = os.path.join(repo, "EigenIPC/bindings/PyEigenIPC"); ext = mod(PKG); ext.__path__ = [root]; top = mod("EigenIPC"); top.__path__ = []; top.PyEigenIPC = ipc
    msgs = mod("std_msgs.msg", Bool=Bool, Int32=Int32, Float32=Float32, Float64=Float64, Int32MultiArray=Int32MultiArray, Float32MultiArray=Float32MultiArray, Float64MultiArray=Float64MultiArray)
    sm = mod("std_msgs", msg=msgs); pp = mod("perf_sleep.pyperfsleep", PerfSleep=PerfSleep); ps = mod("perf_sleep", pyperfsleep=pp)
    pol = lambda: types.SimpleNamespace(RELIABLE="RELIABLE", BEST_EFFORT="BEST_EFFORT", TRANSIENT_LOCAL="TRANSIENT_LOCAL", VOLATILE="VOLATILE", KEEP_LAST="KEEP_LAST", KEEP_ALL="KEEP_ALL", AUTOMATIC="AUTOMATIC")
    qos = mod("rclpy.qos", QoSProfile=QoSProfile, ReliabilityPolicy=pol(), DurabilityPolicy=pol(), HistoryPolicy=pol(), LivelinessPolicy=pol()); node = mod("rclpy.node", Node=Node); rclpy = mod("rclpy", qos=qos, node=node)
    fake = {"EigenIPC": top, "EigenIPC.PyEigenIPC": ipc, PKG: ext, "torch": torch, "rospy": rospy, "std_msgs": sm, "std_msgs.msg": msgs, "perf_sleep": ps, "perf_sleep.pyperfsleep": pp, "rclpy": rclpy, "rclpy.qos": qos, "rclpy.node": node}
    fake["time"] = FakeTime("time")
    if symbolic: fake["numpy"] = NumpyProxy("numpy")
    for k in [k for k in sys.modules if k.startswith(PKG)]: del sys.modules[k]
    saved = {k: sys.modules.get(k) for k in fake}; sys.modules.update(fake); RepoFinder.root = root
    if symbolic: sys.meta_path.insert(0, RepoFinder)
    try:
        out = {n: importlib.import_module(PKG + "." + n) for n in ("wrappers.shared_data_view", "wrappers.shared_tensor_dict", "extensions.ros_bridge.defs", "extensions.ros_bridge.abstractions", "extensions.ros_bridge.ros1_utils", "extensions.ros_bridge.ros2_utils", "extensions.ros_bridge.to_ros", "extensions.ros_bridge.from_ros", "extensions.ros_bridge.bridge")}
    finally:
        if symbolic:
            sys.meta_path.remove(RepoFinder)
            if saved["numpy"] is not None: sys.modules["numpy"] = saved["numpy"]
        sys.modules["time"] = real_time
    return types.SimpleNamespace(**{k.split(".")[-1]: v for k, v in out.items()})
