"""A small symbolic executor for the repository's Python code.

The real source files are imported and executed by CPython; inputs are symbolic objects: SymInt (z3 Int), SymScalar and
array cells (z3 bit-vectors holding the element's bit pattern), SymStr (list of z3 code points). Array structure (shape, strides,
views, aliasing, broadcasting) is real numpy over object arrays. Control flow that depends on a symbolic value forks; the feasible
side(s) are decided by z3, and paths are explored depth-first by re-execution. Assertions are z3 validity queries under the path
condition. The same scenario can be run concretely (real numpy dtypes, values of a model), which is how counterexamples and
witnesses are replayed.
"""
import os, sys, time, types, struct
import z3
import numpy as real_np

class Cut(BaseException): pass                 # this path ends here without a verdict (assumed away, or waits for ever)
class Unsupported(BaseException): pass         # the executor cannot represent an operation: reported as an error, never as a pass
class Failed(BaseException): pass              # a violated assertion ends the path
class Stuck(BaseException): pass               # step budget exhausted

B8, I32, F32, F64, I64 = (real_np.dtype(x) for x in ("bool", "int32", "float32", "float64", "int64"))
BITS = {B8: 8, I32: 32, F32: 32, F64: 64, I64: 64}
WINDOW = 8

def own_fault(x):
    """an exception that the repository's code can only blame on itself (never one that an incomplete model could have caused)"""
    t = x.__traceback__; up = None
    while t.tb_next: up, t = t, t.tb_next
    # a call the scenario expects to succeed is refused through the library's journal, or passes None where the bindings take an integer
    if up and "/EigenIPC/bindings/" in up.tb_frame.f_code.co_filename and os.path.basename(t.tb_frame.f_code.co_filename) == "world.py": return isinstance(x, RuntimeError) and t.tb_frame.f_code.co_name == "log"
    if isinstance(x, TypeError) and t.tb_frame.f_code.co_name == "cint" and t.tb_frame.f_locals.get("x", 0) is None: return True
    if "/EigenIPC/bindings/" not in t.tb_frame.f_code.co_filename: return False
    if isinstance(x, AttributeError): return type(getattr(x, "obj", ...)) in (type(None), str, int, float, bool, list, tuple, dict) or all("/EigenIPC/bindings/" in getattr(sys.modules.get(c.__module__), "__file__", "") or c.__module__ in ("abc", "builtins") for c in type(getattr(x, "obj", ...)).__mro__)
    if isinstance(x, TypeError): return "NoneType'" in str(x)
    return isinstance(x, (NameError, ZeroDivisionError, IndexError, KeyError))

class Engine:
    """one exploration; also the concrete replayer (values != None)"""
    cur = None
    def __init__(self, values=None, time_limit=600, max_paths=2000000, step_limit=60000):
        self.values = values; self.concrete = values is not None
        self.time_limit = time_limit; self.max_paths = max_paths; self.step_limit = step_limit
        self.stat = dict(paths=0, infeasible=0, cut=0, forks=0, queries=0, sat=0, unsat=0, unknown=0, seconds=0.0, obligations=0, folded=0, outside_window=0, picks=0)
        self.labels = {}; self.reached = {}; self.viol = []; self.witness = []; self.functions = set(); self.fails = []; self.error = None
        self._want = {}
    # ---------------------------------------------------------------- exploration
    def explore(self, scenario, max_viol=3, nwitness=1):
        t0 = time.time(); stack = [[]]; Engine.cur = self; seen_labels = set(); unsup = 0
        while stack:
            if time.time() - t0 > self.time_limit: self.error = "time limit: %d prefixes left" % len(stack); break
            if self.stat["paths"] > self.max_paths: self.error = "path limit"; break
            self.prefix = stack.pop(); self.pos = 0; self.dec = []; self.alts = []; self.begin()
            try: self.runmon(scenario); self.stat["paths"] += 1
            except Cut: self.stat["cut"] += 1
            except Failed as e:
                self.stat["paths"] += 1
                if str(e) not in seen_labels: seen_labels.add(str(e))
                if len(self.viol) >= max_viol: break
            except Unsupported as e:      # reported as an error, but the other paths may still show a violation
                self.error = "unsupported by the executor: %s" % e; unsup += 1
                if unsup > 40: break
            for i, alts in self.alts:
                for a in alts: stack.append(self.dec[:i] + [a])
        self.wall = time.time() - t0
        return self
    def begin(self):
        self.solver = z3.Solver(); self.solver.set("timeout", 60000); self.names = {}; self.vars = []; self.steps = 0; self.notes = []; self.local_reach = []; del APPS[:]
    def replay(self, scenario):
        """run the scenario on the real types with the values of a model"""
        Engine.cur = self; self.begin()
        try: self.runmon(scenario)
        except (Failed, Cut): pass
        return self
    def runmon(self, scenario):
        mon = sys.monitoring; tid = mon.DEBUGGER_ID
        eng = self
        def jump(code, off, dst):
            if "/EigenIPC/bindings/" not in code.co_filename: return mon.DISABLE
            eng.steps += 1
            if eng.steps > eng.step_limit: eng.steps = 0; raise Stuck("step budget")
        def start(code, off):
            if "/EigenIPC/bindings/" in code.co_filename: eng.functions.add("%s:%s" % (code.co_filename.split("/EigenIPC/bindings/")[1], code.co_qualname))
            else: return mon.DISABLE
        mon.use_tool_id(tid, "pysx")
        try:
            mon.register_callback(tid, mon.events.JUMP, jump); mon.register_callback(tid, mon.events.BRANCH, jump); mon.register_callback(tid, mon.events.PY_START, start)
            mon.set_events(tid, mon.events.JUMP | mon.events.BRANCH | mon.events.PY_START)
            try: scenario(self)
            except Stuck: self.fail("the call returns (no endless loop)")
            except Exception as x:
                if not own_fault(x): raise
                self.note("raised %r" % (x,)); self.fail("the code does not fail on its own (%s)" % type(x).__name__)
        finally:
            mon.set_events(tid, 0); mon.free_tool_id(tid)
    # ---------------------------------------------------------------- decisions
    def check(self, *extra):
        t = time.time(); r = self.solver.check(*extra); self.stat["seconds"] += time.time() - t; self.stat["queries"] += 1; self.stat[str(r)] = self.stat.get(str(r), 0) + 1
        if r == z3.unknown: raise Unsupported("solver answered unknown")
        return r == z3.sat
    def branch(self, cond):
        if isinstance(cond, bool): return cond
        if self.concrete: raise Unsupported("symbolic condition in a concrete run")
        c = z3.simplify(cond)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = self.pos; self.pos += 1
        if i < len(self.prefix): b = bool(self.prefix[i])
        else:
            t = self.check(c); f = self.check(z3.Not(c)) if t else True
            if t and f: self.alts.append((i, [0])); self.stat["forks"] += 1
            b = t
        self.dec.append(1 if b else 0); self.solver.add(c if b else z3.Not(c))
        return b
    def pick(self, name, n):
        """a choice 0..n-1 (which operation, which configuration, whether the lock is free)"""
        if n == 1: return 0
        key = self.fresh(name)
        if self.concrete: return int(self.values.get(key, 0))
        i = self.pos; self.pos += 1; self.stat["picks"] += 1
        if i < len(self.prefix): v = self.prefix[i]
        else: v = 0; self.alts.append((i, list(range(n - 1, 0, -1)))); self.stat["forks"] += n - 1
        self.dec.append(v); self.vars.append((key, None, v)); return v
    def choose(self, name, xs): return xs[self.pick(name, len(xs))]
    def fresh(self, name):
        k = self.names.get(name, 0); self.names[name] = k + 1
        return "%s#%d" % (name, k)
    def assume(self, cond):
        if self.concrete:
            if not cond: raise Cut()
            return
        cond = tob(cond)
        if isinstance(cond, bool):
            if not cond: raise Cut()
            return
        self.solver.add(cond)
        if not self.check(): self.stat["infeasible"] += 1; raise Cut()
    # ---------------------------------------------------------------- inputs
    def int(self, name, lo=None, hi=None):
        key = self.fresh(name)
        if self.concrete: return int(self.values.get(key, 0))
        v = z3.Int(key); self.vars.append((key, v, "int"))
        if lo is not None: self.solver.add(v >= lo)
        if hi is not None: self.solver.add(v <= hi)
        return SymInt(v)
    def bits(self, name, dt):
        """the bit pattern of one fresh element"""
        key = self.fresh(name)
        if self.concrete: return int(self.values.get(key, 0))
        v = z3.BitVec(key, BITS[dt]); self.vars.append((key, v, "bits"))
        if dt == B8: self.solver.add(z3.ULE(v, 1))
        return v
    def cells(self, name, shape, dt, order="C"):
        n = int(real_np.prod(shape)); bs = [self.bits(name, dt) for _ in range(n)]
        if self.concrete:
            a = real_np.array(bs, dtype={8: "uint8", 32: "uint32", 64: "uint64"}[BITS[dt]]).view(dt).reshape(shape)
            return real_np.array(a, order=order)
        a = real_np.empty(n, dtype=object)
        for i, b in enumerate(bs): a[i] = Cell(b, dt)
        return wrap(real_np.array(a.reshape(shape), order=order), dt)
    def scalar(self, name, kind):
        """a fresh scalar argument: kind in float, int, bool, np.float32, np.float64"""
        if kind == "int": return self.int(name, -2**31, 2**31 - 1)
        dt = {"float": F64, "bool": B8, "f32": F32, "f64": F64}[kind]; b = self.bits(name, dt)
        if self.concrete:
            v = frombits(b, dt); return v if kind in ("f32", "f64") else v.item()
        return SymScalar(b, dt, {"float": float, "bool": bool, "f32": real_np.float32, "f64": real_np.float64}[kind])
    # ---------------------------------------------------------------- verdicts
    def model_values(self, m):
        out = {}
        for key, v, kind in self.vars:
            if v is None: out[key] = kind; continue
            x = m.eval(v, model_completion=True); out[key] = x.as_long()
        return out
    def require(self, cond, label, detail=""):
        """assert that cond holds for every value on this path"""
        self.labels[label] = self.labels.get(label, 0) + 1
        if self.concrete:
            if not cond: self.fails.append(label); raise Failed(label)
            return
        self.stat["obligations"] += 1; cond = tob(cond)
        if isinstance(cond, bool):
            self.stat["folded"] += 1
            if cond: return
            self.fail(label, detail)
        if self.check(z3.Not(cond)):
            m = self.realistic(z3.Not(cond))
            if m is None: self.stat["spurious_casts"] = self.stat.get("spurious_casts", 0) + 1; return
            self.record(label, detail, m); raise Failed(label)
    def realistic(self, *extra):
        """a model in which numpy's uninterpreted element conversions have their real values; None if there is none"""
        self.solver.push()
        try:
            for x in extra: self.solver.add(x)
            if not self.check(): return None
            m = self.solver.model(); last = None
            for attempt in range(12):
                bad = False; pins = []
                for f, arg, a, b in APPS:
                    av = m.eval(arg, model_completion=True)
                    if attempt > 0: av = z3.BitVecVal(NICE[a][(attempt + len(pins)) % len(NICE[a])], BITS[a])
                    with real_np.errstate(all="ignore"): rv = tobits(frombits(av.as_long(), a), b)
                    pins += [arg == av, f(av) == rv]
                    if attempt or m.eval(f(arg), model_completion=True).as_long() != rv: bad = True
                if not bad: return m
                self.solver.push()
                try:
                    self.solver.add(pins)
                    if self.check(): return self.solver.model()
                finally: self.solver.pop()
            raise Unsupported("no model agrees with numpy's conversions (12 attempts)")
        finally: self.solver.pop()
    def fail(self, label, detail=""):
        if self.concrete: self.fails.append(label); raise Failed(label)
        m = self.realistic()
        if m is None: raise Cut()
        self.record(label, detail, m); raise Failed(label)
    def record(self, label, detail, m):
        if any(v["label"] == label for v in self.viol): return
        self.viol.append(dict(label=label, detail=detail, values=self.model_values(m), notes=list(self.notes)))
    def reach(self, label):
        self.local_reach.append(label); self.reached[label] = self.reached.get(label, 0) + 1
        if not self.concrete and self._want.get(label, 0) < 1:
            m = self.realistic()
            if m is not None: self._want[label] = 1; self.witness.append(dict(label=label, values=self.model_values(m), notes=list(self.notes)))
    def note(self, s): self.notes.append(s)

def E(): return Engine.cur
def tob(c):
    if isinstance(c, (bool, real_np.bool_)): return bool(c)
    if isinstance(c, SymBool): return c.t
    return c

# ---------------------------------------------------------------- integers
def iterm(x):
    if type(x) is SymInt: return x.t
    if isinstance(x, (bool, int, real_np.integer, real_np.bool_)): return z3.IntVal(int(x))
    return None
class SymBool:
    __slots__ = ("t",)
    def __init__(self, t): self.t = t
    def __bool__(self): return E().branch(self.t)
    __class__ = property(lambda s: bool)
    def __and__(a, b): return SymBool(z3.And(a.t, tob(b)))
    def __or__(a, b): return SymBool(z3.Or(a.t, tob(b)))
    __rand__ = __and__; __ror__ = __or__
    def __invert__(a): return SymBool(z3.Not(a.t))
    def __eq__(a, b): return SymBool(a.t == tob(b))
    __hash__ = None
def cmp(f):
    def g(a, b):
        t = iterm(b)
        if t is None: return NotImplemented
        return SymBool(f(a.t, t))
    return g
def ari(f):
    def g(a, b):
        t = iterm(b)
        if t is None: return NotImplemented
        return SymInt(f(a.t, t))
    return g
class SymInt:
    __slots__ = ("t", "origin")
    def __init__(self, t, origin=None): self.t = z3.simplify(t); self.origin = origin     # origin: the array element it was read from
    __class__ = property(lambda s: int)
    __eq__ = cmp(lambda a, b: a == b); __ne__ = cmp(lambda a, b: a != b)
    __lt__ = cmp(lambda a, b: a < b); __le__ = cmp(lambda a, b: a <= b); __gt__ = cmp(lambda a, b: a > b); __ge__ = cmp(lambda a, b: a >= b)
    __add__ = ari(lambda a, b: a + b); __radd__ = ari(lambda a, b: b + a); __sub__ = ari(lambda a, b: a - b); __rsub__ = ari(lambda a, b: b - a)
    __mul__ = ari(lambda a, b: a * b); __rmul__ = ari(lambda a, b: b * a)
    def __floordiv__(a, b):
        if not (isinstance(b, int) and type(b) is not SymInt and b > 0): raise Unsupported("division by a symbolic or non-positive number")
        return SymInt(a.t / b)
    def __mod__(a, b):
        if not (isinstance(b, int) and type(b) is not SymInt and b > 0): raise Unsupported("modulo a symbolic or non-positive number")
        return SymInt(a.t % b)
    def __neg__(a): return SymInt(-a.t)
    def __pos__(a): return a
    def __abs__(a): return SymInt(z3.If(a.t < 0, -a.t, a.t))
    def __bool__(a): return E().branch(a.t != 0)
    def __index__(a):
        t = a.t
        if z3.is_int_value(t): return t.as_long()
        e = E()
        for v in sorted(range(-WINDOW, WINDOW + 1), key=abs):
            if e.branch(t == v): return v
        e.stat["outside_window"] += 1; raise Cut()
    __int__ = __index__
    def __float__(a): return float(a.__index__())
    def __hash__(a): return hash(a.__index__())
    def __format__(a, s): return "<int>"
    def __repr__(a): return "<int>"
    __str__ = __repr__
    def item(a): return a
def min_(*a):
    if len(a) == 1: a = list(a[0])
    r = a[0]
    for x in a[1:]:
        if x < r: r = x
    return r

# ---------------------------------------------------------------- element values
def tobits(v, dt):
    a = real_np.asarray(v).astype(dt) if not isinstance(v, real_np.generic) else v.astype(dt)
    return int(real_np.array(a, dtype=dt).reshape(1).view({8: "uint8", 32: "uint32", 64: "uint64"}[BITS[dt]])[0])
def frombits(b, dt): return real_np.array([b], dtype={8: "uint8", 32: "uint32", 64: "uint64"}[BITS[dt]]).view(dt)[0]
class Cell:
    __slots__ = ("t", "dt")
    def __init__(self, t, dt): self.t = t if not isinstance(t, int) else z3.BitVecVal(t, BITS[dt]); self.dt = dt
    def const(self): s = z3.simplify(self.t); return frombits(s.as_long(), self.dt) if z3.is_bv_value(s) else None
    def _no(self, *a): raise Unsupported("arithmetic on tensor elements")
    __add__ = __radd__ = __sub__ = __mul__ = __rmul__ = __truediv__ = __lt__ = __gt__ = __le__ = __ge__ = __neg__ = __bool__ = __float__ = __int__ = _no
    __eq__ = _no; __ne__ = _no; __hash__ = None
    def __repr__(self): return "<cell>"
UF = {}; APPS = []
NICE = {}
def nice():
    for dt, vs in ((F64, [1.0, 2.0, 0.5, -3.0, 0.0]), (F32, [1.0, 2.0, 0.5, -3.0, 0.0]), (I32, [1, 2, 3, -1, 0]), (I64, [1, 2, 3, -1, 0]), (B8, [1, 0])): NICE[dt] = [tobits(real_np.array(v, dtype=dt), dt) for v in vs]
def uf(a, b):
    if (a, b) not in UF: UF[(a, b)] = z3.Function("cast_%s_%s" % (a, b), z3.BitVecSort(BITS[a]), z3.BitVecSort(BITS[b]))
    return UF[(a, b)]
LOSSLESS = {(F32, F64), (I32, F64), (I32, I64), (B8, I32), (B8, I64), (B8, F32), (B8, F64)}
def cast(c, dt):
    """numpy's conversion of one element"""
    if c.dt == dt: return c
    k = c.const()
    if k is not None:
        with real_np.errstate(all="ignore"): return Cell(tobits(k, dt), dt)
    a = c.dt
    if a == B8 and dt in (I32, I64): return Cell(z3.simplify(z3.ZeroExt(BITS[dt] - 8, c.t)), dt)
    if a in (I32, I64) and dt == B8: return Cell(z3.If(c.t == 0, z3.BitVecVal(0, 8), z3.BitVecVal(1, 8)), dt)
    if a == I32 and dt == I64: return Cell(z3.simplify(z3.SignExt(32, c.t)), dt)
    if a == I64 and dt == I32: return Cell(z3.simplify(z3.Extract(31, 0, c.t)), dt)
    if a == B8: return Cell(z3.If(c.t == 0, z3.BitVecVal(tobits(False, dt), BITS[dt]), z3.BitVecVal(tobits(True, dt), BITS[dt])), dt)
    if z3.is_app(c.t) and c.t.num_args() == 1:
        for (x, y), f in UF.items():
            if f.eq(c.t.decl()) and y == a and x == dt and (x, y) in LOSSLESS: return Cell(c.t.arg(0), dt)   # there and back again
    f = uf(a, dt); APPS.append((f, c.t, a, dt)); return Cell(f(c.t), dt)
nice()
class SymScalar:
    """a Python or numpy scalar whose value is symbolic"""
    __slots__ = ("t", "dt", "k")
    def __init__(self, t, dt, k): self.t = t; self.dt = dt; self.k = k
    __class__ = property(lambda s: s.k)
    def item(self): return self if self.k in (float, bool) else SymScalar(cast(Cell(self.t, self.dt), F64).t, F64, float) if self.dt in (F32, F64) else topy(Cell(self.t, self.dt))
    dtype = property(lambda s: s.dt)
    def _no(self, *a): raise Unsupported("arithmetic on tensor elements")
    __truediv__ = __float__ = _no
    def _i(a):
        """an integer element as a Python integer"""
        if a.dt in (I32, I64): return SymInt(z3.BV2Int(a.t, True), Cell(a.t, a.dt))
        if a.dt == B8: return SymInt(z3.If(a.t == 0, z3.IntVal(0), z3.IntVal(1)))
        raise Unsupported("arithmetic on tensor elements")
    def __eq__(a, b):
        if isinstance(b, (str, tuple, list, dict)) or b is None: return False
        return SymBool(cell_cmp(Cell(a.t, a.dt), tocell(b), "eq"))
    def __ne__(a, b):
        if isinstance(b, (str, tuple, list, dict)) or b is None: return True
        return SymBool(z3.Not(cell_cmp(Cell(a.t, a.dt), tocell(b), "eq")))
    def __hash__(a): return hash(a.__index__())
    def __bool__(a): return E().branch(nonzero(Cell(a.t, a.dt)))
    def __index__(a):
        if a.dt == B8: return 1 if E().branch(a.t != 0) else 0
        if a.dt in (I32, I64): return a._i().__index__()
        raise TypeError("float is not an integer")
    def __int__(a): return a.__index__() if a.dt in (B8, I32, I64) else a._no()
    def _np(a, v):
        if a.k in (float, bool, int): raise AttributeError("a Python number has no such attribute")
        return v
    shape = property(lambda a: a._np(())); ndim = property(lambda a: a._np(0)); size = property(lambda a: a._np(1))
    def __pysx_array__(a):
        o = real_np.empty((), dtype=object); o[()] = Cell(a.t, a.dt); return wrap(o, a.dt)
    def astype(a, dt, **k): c = cast(Cell(a.t, a.dt), real_np.dtype(dt)); return SymScalar(c.t, c.dt, NPK[c.dt])
    def __format__(a, s): return "<value>"
    def __repr__(a): return "<value>"
    __str__ = __repr__
NPK = {B8: real_np.bool_, I32: real_np.int32, I64: real_np.int64, F32: real_np.float32, F64: real_np.float64}
def _fwd(n, flt=False):
    def g(a, b):
        if type(b) is SymScalar:
            if flt and (a.dt in (F32, F64) or b.dt in (F32, F64)): return SymBool(cell_cmp(Cell(a.t, a.dt), Cell(b.t, b.dt), n.strip("_")))
            b = b._i()
        elif flt and (a.dt in (F32, F64) or isinstance(b, (float, real_np.floating))): return SymBool(cell_cmp(Cell(a.t, a.dt), tocell(b), n.strip("_")))
        return getattr(a._i(), n)(b)
    return g
for _n in ("__add__", "__radd__", "__sub__", "__rsub__", "__mul__", "__rmul__", "__floordiv__", "__mod__"): setattr(SymScalar, _n, _fwd(_n))
for _n in ("__lt__", "__le__", "__gt__", "__ge__"): setattr(SymScalar, _n, _fwd(_n, True))
SymScalar.__neg__ = lambda a: -a._i(); SymScalar.__abs__ = lambda a: abs(a._i())
FPS = {F32: lambda: z3.Float32(), F64: lambda: z3.Float64()}
def nonzero(c):
    return (c.t & ~(1 << (BITS[c.dt] - 1))) != 0 if c.dt in (F32, F64) else c.t != 0
def cell_cmp(a, b, op):
    """an element-wise comparison with numpy's promotions, as a z3 condition"""
    dt = real_np.promote_types(a.dt, b.dt)
    if a.const() is not None and b.dt.kind == "f" and a.dt.kind in "fiub" and tobits(a.const(), b.dt) is not None and b.dt != dt and a.dt == F64: dt = b.dt      # a Python float meets a narrower array type
    if b.const() is not None and a.dt.kind == "f" and b.dt == F64 and a.dt != dt: dt = a.dt
    if dt not in BITS: dt = F64
    x, y = cast(a, dt), cast(b, dt)
    if dt in FPS:
        f, g = z3.fpBVToFP(x.t, FPS[dt]()), z3.fpBVToFP(y.t, FPS[dt]())
        return {"eq": z3.fpEQ, "lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ}[op](f, g)
    if dt == B8: return {"eq": lambda: (x.t != 0) == (y.t != 0), "lt": lambda: z3.ULT(x.t, y.t), "le": lambda: z3.ULE(x.t, y.t), "gt": lambda: z3.UGT(x.t, y.t), "ge": lambda: z3.UGE(x.t, y.t)}[op]()
    return {"eq": lambda: x.t == y.t, "lt": lambda: x.t < y.t, "le": lambda: x.t <= y.t, "gt": lambda: x.t > y.t, "ge": lambda: x.t >= y.t}[op]()
def bcell(t): return Cell(z3.simplify(z3.If(t, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))) if not isinstance(t, bool) else int(t), B8)
def is_nan(c): return z3.fpIsNaN(z3.fpBVToFP(c.t, FPS[c.dt]())) if c.dt in FPS else z3.BoolVal(False)
def topy(c):
    """what .item() gives"""
    k = c.const()
    if k is not None: return k.item()
    if c.dt in (I32, I64): return SymInt(z3.BV2Int(c.t, True), c)
    if c.dt == B8: return SymScalar(c.t, B8, bool)
    return SymScalar(cast(c, F64).t, F64, float)
def tocell(v):
    """the element a Python value stands for"""
    if type(v) is Cell: return v
    if type(v) is SymScalar: return Cell(v.t, v.dt)
    if type(v) is SymInt:
        if z3.is_int_value(v.t): return Cell(tobits(v.t.as_long(), I64), I64)
        if v.origin is not None: return cast(v.origin, I64)
        return Cell(z3.Int2BV(v.t, 64), I64)
    if isinstance(v, (bool, real_np.bool_)): return Cell(tobits(v, B8), B8)
    if isinstance(v, (int, real_np.integer)): return Cell(tobits(v, I64), I64)
    if isinstance(v, real_np.float32): return Cell(tobits(v, F32), F32)
    if isinstance(v, (float, real_np.floating)): return Cell(tobits(v, F64), F64)
    raise TypeError("cannot convert %r to an array element" % type(v))

# ---------------------------------------------------------------- arrays
def wrap(a, dt):
    r = a.view(SymArray); r._dt = real_np.dtype(dt); return r
def const_array(a):
    """a numeric numpy array as constants"""
    a = real_np.asarray(a)
    if a.dtype not in BITS: a = a.astype(I64 if a.dtype.kind in "iu" else F64)
    o = real_np.empty(a.shape, dtype=object)
    for i in real_np.ndindex(*a.shape): o[i] = Cell(tobits(a[i], a.dtype), a.dtype)
    return wrap(o, a.dtype)
base = real_np.ndarray
class SymArray(base):
    def __array_finalize__(self, obj): self._dt = getattr(obj, "_dt", None)
    dtype = property(lambda s: s._dt if s._dt is not None else base.dtype.__get__(s))
    itemsize = property(lambda s: s._dt.itemsize)
    nbytes = property(lambda s: s._dt.itemsize * s.size)
    strides = property(lambda s: tuple(x // 8 * s._dt.itemsize for x in base.strides.__get__(s)))
    def raw(self): return self.view(base)
    def _key(self, k):
        if not isinstance(k, tuple): k = (k,)
        out = []; ax = 0
        n = len([x for x in k if x is not None and x is not Ellipsis])
        for x in k:
            if x is None: out.append(x); continue
            if x is Ellipsis: out.append(x); ax += self.ndim - n; continue
            if isinstance(x, SymArray) and x._dt == B8:         # a mask
                m = real_np.empty(x.shape, dtype=bool)
                for i in real_np.ndindex(*x.shape): m[i] = E().branch(base.__getitem__(x.view(base), i).t != 0) if x.ndim else False
                out.append(m); ax += x.ndim; continue
            if isinstance(x, (list, tuple)) or isinstance(x, SymArray): x = real_np.array([y.__index__() for y in x], dtype=int)
            dim = self.shape[ax] if ax < self.ndim else 0; ax += 1
            if type(x) is SymInt: out.append(self._scalar_index(x, dim))
            elif type(x) is SymScalar: out.append(x.__index__())
            elif isinstance(x, slice): out.append(slice(self._clamp(x.start, dim), self._clamp(x.stop, dim), x.step.__index__() if type(x.step) is SymInt else x.step))
            else: out.append(x)
        return tuple(out)
    def _scalar_index(self, x, dim):
        e = E()
        if z3.is_int_value(x.t): return x.t.as_long()
        if e.branch(z3.Or(x.t < -dim, x.t >= dim)): raise IndexError("index is out of bounds for axis with size %d" % dim)
        for v in range(-dim, dim - 1):
            if e.branch(x.t == v): return v
        return dim - 1
    def _clamp(self, x, dim):
        if type(x) is SymScalar: return x.__index__()
        if type(x) is not SymInt: return x
        e = E()
        if z3.is_int_value(x.t): return x.t.as_long()
        if e.branch(x.t >= dim): return dim
        if e.branch(x.t <= -dim): return -dim
        for v in range(-dim + 1, dim - 1):
            if e.branch(x.t == v): return v
        return dim - 1
    def __getitem__(self, k):
        r = base.__getitem__(self, self._key(k))
        if type(r) is Cell:
            return SymScalar(r.t, r.dt, NPK[r.dt])
        return r
    def __setitem__(self, k, v):
        k = self._key(k); src = toarray(v, self._dt)
        base.__setitem__(self.view(base), k, src.view(base) if src.ndim else src.view(base)[()])
    def __iter__(self):
        for i in range(len(self)): yield self[i]
    def item(self, *a):
        x = self.view(base)
        if a: return topy(x.__getitem__(a if len(a) > 1 else a[0]) if self.ndim == len(a) else x.ravel()[a[0]])
        if self.size != 1: raise ValueError("can only convert an array of size 1 to a Python scalar")
        return topy(x.ravel()[0])
    def tolist(self):
        if self.ndim == 0: return topy(self.view(base)[()])
        return [topy(x) if type(x) is Cell else wrap(x, self._dt).tolist() for x in self.view(base)]
    def astype(self, dt, order="K", casting=None, subok=True, copy=True):
        dt = real_np.dtype(dt); x = self.view(base)
        o = real_np.empty_like(x) if order == "K" else real_np.empty(x.shape, dtype=object, order="F" if order == "F" else "C")
        for i in real_np.ndindex(*x.shape): o[i] = cast(x[i], dt)
        return wrap(o, dt)
    def fill(self, v): self[...] = v
    def tobytes(self, *a): raise Unsupported("tobytes")
    tostring = dump = dumps = tofile = byteswap = put = itemset = choose = argsort = sort = searchsorted = partition = tobytes
    def view(self, *a, **k):
        if k or (a and not (isinstance(a[0], type) and issubclass(a[0], base))): raise Unsupported("reinterpretation of elements")
        return base.view(self, *a)
    def flatten(self, order="C"): return self.copy(order).reshape(-1, order=order) if order in "CF" else self.copy().reshape(-1)
    flat = property(lambda s: Flat(s))
    @flat.setter
    def flat(s, v): Flat(s)[:] = v
    def __array_ufunc__(self, ufunc, method, *a, out=None, where=True, dtype=None, **k):
        n = ufunc.__name__
        if method == "__call__" and where is True:
            r = None
            if n in CMPS: r = elementwise(a[0], a[1], CMPS[n])
            elif n in ("logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or", "bitwise_xor") and all(toarray(x).dtype == B8 for x in a): r = elementwise(a[0], a[1], lambda x, y: {"and": z3.And, "or": z3.Or, "xor": z3.Xor}[n.split("_")[1]](x.t != 0, y.t != 0))
            elif n in ("logical_not", "invert", "bitwise_invert") and toarray(a[0]).dtype == B8: r = elementwise(a[0], a[0], lambda x, y: x.t == 0)
            elif n == "isnan": r = elementwise(a[0], a[0], lambda x, y: is_nan(x))
            elif n in ("add", "subtract", "multiply") and all(toarray(x).dtype.kind in "iu" for x in a):
                dt = common([toarray(x).dtype if isinstance(x, real_np.ndarray) else I32 for x in a]); dt = dt if dt in BITS else I64
                r = elementwise(toarray(a[0], dt), toarray(a[1], dt), lambda x, y: Cell(z3.simplify({"add": x.t + y.t, "subtract": x.t - y.t, "multiply": x.t * y.t}[n]), dt), dt)
            elif n in ("positive",): r = toarray(a[0]).copy()
            if r is not None:
                if out is not None: out[0][...] = r; return out[0]
                return r if r.ndim or any(isinstance(x, real_np.ndarray) and x.ndim == 0 for x in a) and False else r[()]
        if method == "reduce" and n == "add" and self.dtype.kind in "iu": return m_sum(self, axis=k.get("axis", 0))
        raise Unsupported("element-wise numpy operation %s.%s" % (n, method))
    def __array_function__(self, f, ty, a, k):
        h = HANDLED.get(f.__name__)
        if h: return h(*a, **k)
        if f.__name__ in STRUCTURAL: return base.__array_function__(self, f, ty, a, k)
        raise Unsupported("numpy.%s" % f.__name__)
    __hash__ = None
    def all(self, axis=None, **k): return m_all(self, axis)
    def any(self, axis=None, **k): return m_any(self, axis)
    def sum(self, axis=None, dtype=None, **k): return m_sum(self, axis)
    def cumsum(self, axis=None, dtype=None, **k): return m_cumsum(self, axis)
    def min(self, *a, **k): raise Unsupported("reduction of elements")
    max = mean = prod = std = argmin = argmax = min
    def __bool__(self):
        if self.size != 1: raise ValueError("The truth value of an array with more than one element is ambiguous")
        return E().branch(nonzero(self.view(base).ravel()[0]))
    def __index__(self):
        if self.size != 1 or self.ndim: raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return self[()].__index__()
    def __int__(self):
        if self.size != 1: raise TypeError("only length-1 arrays can be converted to Python scalars")
        v = topy(self.view(base).ravel()[0]); return v.__int__()
    def __repr__(self): return "<array %s>" % (self.shape,)
    __str__ = __repr__
    def __format__(self, s): return repr(self)
    def __deepcopy__(self, memo): return self.copy()
STRUCTURAL = {"reshape", "ravel", "transpose", "atleast_2d", "atleast_1d", "squeeze", "expand_dims", "shape", "ndim", "size", "shares_memory", "may_share_memory", "broadcast_to", "moveaxis", "swapaxes", "flip", "rollaxis", "fliplr", "flipud", "repeat", "tile", "roll", "split", "array_split", "vsplit", "hsplit", "take", "diagonal", "atleast_3d", "rot90", "delete", "iscontiguous"}
CMPS = {"equal": lambda x, y: cell_cmp(x, y, "eq"), "not_equal": lambda x, y: z3.Not(cell_cmp(x, y, "eq")), "less": lambda x, y: cell_cmp(x, y, "lt"), "less_equal": lambda x, y: cell_cmp(x, y, "le"), "greater": lambda x, y: cell_cmp(x, y, "gt"), "greater_equal": lambda x, y: cell_cmp(x, y, "ge")}
def elementwise(a, b, f, dt=B8):
    a, b = toarray(a), toarray(b); x, y = real_np.broadcast_arrays(a.view(base), b.view(base)); o = real_np.empty(x.shape, dtype=object)
    for i in real_np.ndindex(*x.shape): r = f(x[i], y[i]); o[i] = r if type(r) is Cell else bcell(r)
    return wrap(o, dt)
def _axis(a, axis, f):
    x = real_np.moveaxis(a.view(base), axis, -1); o = [f([x[i + (j,)] for j in range(x.shape[-1])]) for i in real_np.ndindex(*x.shape[:-1])]
    r = real_np.empty(len(o), dtype=object)
    for i, c in enumerate(o): r[i] = c
    return r.reshape(x.shape[:-1])
def m_all(a, axis=None, **k):
    if not isinstance(a, real_np.ndarray) and not isinstance(a, (list, tuple)): return bool(a)
    a = toarray(a); g = lambda cs: bcell(z3.And([nonzero(c) for c in cs]) if cs else True)
    if axis is None: c = g(list(a.view(base).ravel())); return SymScalar(c.t, B8, real_np.bool_)
    return wrap(_axis(a, axis, g), B8)
def m_any(a, axis=None, **k):
    if not isinstance(a, real_np.ndarray) and not isinstance(a, (list, tuple)): return bool(a)
    a = toarray(a); g = lambda cs: bcell(z3.Or([nonzero(c) for c in cs]) if cs else False)
    if axis is None: c = g(list(a.view(base).ravel())); return SymScalar(c.t, B8, real_np.bool_)
    return wrap(_axis(a, axis, g), B8)
def ints(a):
    """integer elements as Python integers (symbolic or not)"""
    a = toarray(a)
    if a.size == 0: return []
    if a.dtype.kind not in "iub": raise Unsupported("arithmetic on tensor elements")
    return [topy(c) if c.dt != B8 else SymScalar(c.t, B8, bool)._i() for c in a.view(base).ravel()]
def m_sum(a, axis=None, dtype=None, **k):
    if not isinstance(a, real_np.ndarray): a = list(a)
    arr = toarray(a)
    if axis is not None and arr.ndim > 1: raise Unsupported("sum along an axis")
    if not arr.size: return 0
    return sum(ints(arr), 0)
def m_cumsum(a, axis=None, dtype=None, **k):
    arr = toarray(a)
    if axis is not None and arr.ndim > 1: raise Unsupported("cumsum along an axis")
    out, t = [], 0
    for x in ints(arr): t = t + x; out.append(t)
    return toarray(out) if out else wrap(real_np.empty((0,), dtype=object), I64)
def m_where(c, *xy):
    if len(xy) != 2: raise Unsupported("where")
    c, x, y = (toarray(v) for v in (c,) + xy); dt = common([x.dtype, y.dtype]); x, y = x.astype(dt), y.astype(dt); cb, xb, yb = real_np.broadcast_arrays(c.view(base), x.view(base), y.view(base)); o = real_np.empty(cb.shape, dtype=object)
    for i in real_np.ndindex(*cb.shape): o[i] = Cell(z3.simplify(z3.If(nonzero(cb[i]), xb[i].t, yb[i].t)), dt)
    return wrap(o, dt)
class Flat:
    """a.flat"""
    def __init__(s, a): s.a = a
    def _idx(s): return list(real_np.ndindex(*s.a.shape))
    def __len__(s): return s.a.size
    def __iter__(s): return iter([s.a[i] for i in s._idx()])
    def __getitem__(s, k):
        if isinstance(k, slice): return stack_cells([s.a.view(base)[i] for i in s._idx()[k]], s.a.dtype)
        return s.a[s._idx()[k.__index__()]]
    def __setitem__(s, k, v):
        if not isinstance(k, slice): s.a[s._idx()[k.__index__()]] = v; return
        ix = s._idx()[k]; v = toarray(v, s.a.dtype).view(base).ravel()
        for n, i in enumerate(ix): s.a.view(base)[i] = v[n % v.size]
    def __pysx_array__(s): return s[:]
def stack_cells(cs, dt):
    o = real_np.empty(len(cs), dtype=object)
    for i, c in enumerate(cs): o[i] = c
    return wrap(o, dt)
def m_fromiter(it, dtype, count=-1, **k):
    xs = list(it)
    if count >= 0:
        if len(xs) < count: raise ValueError("iterator too short")
        xs = xs[:count]
    return m_array(xs, dtype) if xs else wrap(real_np.empty((0,), dtype=object), real_np.dtype(dtype))
def m_isnan(a): return toarray(a).__array_ufunc__(real_np.isnan, "__call__", toarray(a))
def m_stack(xs, axis=0, **k): return wrap(real_np.stack([toarray(x).astype(common([toarray(y).dtype for y in xs])).view(base) for x in xs], axis=axis), common([toarray(y).dtype for y in xs]))
def m_column_stack(xs, **k): return m_cat([toarray(x)[:, None] if toarray(x).ndim == 1 else toarray(x) for x in xs], 1)
def m_append(a, v, axis=None): return m_cat([toarray(a).ravel(), toarray(v).ravel()]) if axis is None else m_cat([a, v], axis)
def toarray(v, dt=None):
    """any value as a symbolic array, converted to dt"""
    if isinstance(v, SymArray): r = v
    elif hasattr(v, "__pysx_array__"): r = v.__pysx_array__()
    elif isinstance(v, real_np.ndarray):
        if v.dtype == object: raise Unsupported("object array")
        r = const_array(v)
    elif type(v) in (SymScalar, SymInt, Cell) or isinstance(v, (bool, int, float, real_np.generic)):
        o = real_np.empty((), dtype=object); o[()] = tocell(v); r = wrap(o, o[()].dt)
    elif isinstance(v, (list, tuple)) or type(v).__name__ == "array":
        r = stack([toarray(x) for x in v])
    else: raise TypeError("cannot convert %r to an array" % type(v))
    if dt is not None and r.dtype != dt: r = r.astype(dt)
    return r
RANK = [B8, I32, I64, F32, F64]
def common(dts):
    r = dts[0]
    for d in dts[1:]: r = real_np.promote_types(r, d)
    return r
def stack(xs):
    if not xs: return wrap(real_np.empty((0,), dtype=object), F64)
    dt = common([x.dtype for x in xs])
    if any(x.shape != xs[0].shape for x in xs): raise ValueError("setting an array element with a sequence (inhomogeneous shape)")
    o = real_np.empty((len(xs),) + xs[0].shape, dtype=object)
    for i, x in enumerate(xs):
        y = x.astype(dt).view(base); o[i] = y if y.ndim else y[()]
    return wrap(o, dt)
def order_of(order, like=None): return "F" if order == "F" or (order in ("K", "A") and like is not None and like.flags.f_contiguous and not like.flags.c_contiguous) else "C"
def m_array(obj, dtype=None, *, copy=True, order="K", subok=False, ndmin=0, like=None):
    if not copy:
        r = m_asarray(obj, dtype, None if order == "K" else order)
        while r.ndim < ndmin: r = r[None]
        return r
    if isinstance(obj, (str, bytes)) or obj is None: raise Unsupported("array of strings")
    r = toarray(obj, real_np.dtype(dtype) if dtype is not None else None)
    out = wrap(real_np.array(r.view(base), order=order_of(order, r), copy=True), r.dtype)
    while out.ndim < ndmin: out = out[None]
    return out
def m_asarray(obj, dtype=None, order=None, **k):
    dtype = real_np.dtype(dtype) if dtype is not None else None
    if isinstance(obj, SymArray) and (dtype is None or obj.dtype == dtype) and (order in (None, "K", "A") or (order == "C" and obj.flags.c_contiguous) or (order == "F" and obj.flags.f_contiguous)): return obj
    return m_array(obj, dtype, order=order or "K")
def ashape(s):
    if isinstance(s, (tuple, list)): return tuple(x.__index__() for x in s)
    return (s.__index__(),)
def m_full(shape, fill_value, dtype=None, order="C", **k):
    f = toarray(fill_value); dt = real_np.dtype(dtype) if dtype is not None else f.dtype
    r = wrap(real_np.empty(ashape(shape), dtype=object, order=order), dt); r[...] = f; return r
def m_zeros(shape, dtype=float, order="C", **k): return m_full(shape, 0, dtype, order)
def m_ones(shape, dtype=float, order="C", **k): return m_full(shape, 1, dtype, order)
def m_empty(shape, dtype=float, order="C", **k):
    sh = ashape(shape); dt = real_np.dtype(dtype); r = wrap(real_np.empty(sh, dtype=object, order=order), dt)
    for i in real_np.ndindex(*sh): r.view(base)[i] = Cell(E().bits("uninitialised", dt), dt)
    return r
def m_like(f):
    def g(a, *args, dtype=None, order="K", shape=None, **k):
        a = toarray(a); return f(a.shape if shape is None else shape, *args, dtype=dtype or a.dtype, order=order_of(order, a))
    return g
def m_copyto(dst, src, casting="same_kind", where=True):
    if where is not True: raise Unsupported("copyto with a mask")
    s = toarray(src)
    if not isinstance(src, (bool, int, float)) and not real_np.can_cast(s.dtype, dst.dtype, casting): raise TypeError("Cannot cast array data from %s to %s according to the rule '%s'" % (s.dtype, dst.dtype, casting))
    dst[...] = src
def m_copy(a, order="K", subok=False): return m_array(a, order=order)
def m_cat(xs, axis=0, **k):
    xs = [toarray(x) for x in xs]; dt = common([x.dtype for x in xs]); return wrap(real_np.concatenate([x.astype(dt).view(base) for x in xs], axis=axis), dt)
def m_array_equal(a, b, **k):
    a, b = toarray(a), toarray(b)
    if a.shape != b.shape: return False
    return bool(m_all(elementwise(a, b, CMPS["equal"])))
HANDLED = {"all": m_all, "any": m_any, "sum": m_sum, "cumsum": m_cumsum, "where": m_where, "stack": m_stack, "column_stack": m_column_stack, "append": m_append, "asarray": m_asarray, "copyto": m_copyto, "copy": m_copy, "concatenate": m_cat, "vstack": lambda xs, **k: m_cat([toarray(x) if toarray(x).ndim > 1 else toarray(x)[None, :] for x in xs], 0), "hstack": lambda xs, **k: m_cat(xs, 1), "array_equal": m_array_equal,
           "full_like": m_like(lambda shape, fill_value, dtype=None, order="C": m_full(shape, fill_value, dtype, order)), "zeros_like": m_like(m_zeros), "ones_like": m_like(m_ones), "empty_like": m_like(m_empty)}
def m_atleast_2d(*a):
    r = [m_asarray(x) for x in a]; r = [x if x.ndim >= 2 else x[None, :] if x.ndim == 1 else x.reshape(1, 1) for x in r]
    return r[0] if len(r) == 1 else r
class NumpyProxy(types.ModuleType):
    """numpy as the loaded modules see it: array creation gives symbolic arrays, everything else is numpy itself"""
    array = staticmethod(m_array); asarray = staticmethod(m_asarray); asanyarray = staticmethod(m_asarray); ascontiguousarray = staticmethod(lambda a, dtype=None: m_asarray(a, dtype, "C")); asfortranarray = staticmethod(lambda a, dtype=None: m_asarray(a, dtype, "F"))
    full = staticmethod(m_full); zeros = staticmethod(m_zeros); ones = staticmethod(m_ones); empty = staticmethod(m_empty); copy = staticmethod(m_copy); copyto = staticmethod(m_copyto)
    full_like = staticmethod(HANDLED["full_like"]); zeros_like = staticmethod(HANDLED["zeros_like"]); ones_like = staticmethod(HANDLED["ones_like"]); empty_like = staticmethod(HANDLED["empty_like"])
    concatenate = staticmethod(m_cat); vstack = staticmethod(HANDLED["vstack"]); hstack = staticmethod(HANDLED["hstack"]); atleast_2d = staticmethod(m_atleast_2d); stack = staticmethod(m_stack); column_stack = staticmethod(m_column_stack); append = staticmethod(m_append); fromiter = staticmethod(m_fromiter)
    all = staticmethod(m_all); any = staticmethod(m_any); sum = staticmethod(m_sum); cumsum = staticmethod(m_cumsum); isnan = staticmethod(m_isnan); where = staticmethod(m_where); array_equal = staticmethod(m_array_equal)
    reshape = staticmethod(lambda a, shape=None, order="C", newshape=None, **k: m_asarray(a).reshape(shape if shape is not None else newshape, order=order)); ravel = staticmethod(lambda a, order="C": m_asarray(a).ravel(order)); squeeze = staticmethod(lambda a, axis=None: m_asarray(a).squeeze(axis)); expand_dims = staticmethod(lambda a, axis: real_np.expand_dims(m_asarray(a), axis)); transpose = staticmethod(lambda a, axes=None: m_asarray(a).transpose(axes))
    ndim = staticmethod(lambda a: toarray(a).ndim); shape = staticmethod(lambda a: toarray(a).shape); size = staticmethod(lambda a, axis=None: toarray(a).size if axis is None else toarray(a).shape[axis]); isscalar = staticmethod(lambda x: type(x) in (SymInt, SymScalar, SymBool) or real_np.isscalar(x)); atleast_1d = staticmethod(lambda a: m_asarray(a) if toarray(a).ndim else m_asarray(a).reshape(1)); require = staticmethod(lambda a, dtype=None, requirements=None: m_asarray(a, dtype, "C" if requirements and "C" in str(requirements) else "F" if requirements and "F" in str(requirements) else None)); tile = staticmethod(lambda a, n: real_np.tile(toarray(a), n)); repeat = staticmethod(lambda a, n, axis=None: real_np.repeat(toarray(a), n, axis)); arange = staticmethod(lambda *a, **k: real_np.arange(*[x.__index__() if type(x) in (SymInt, SymScalar) else x for x in a], **k)); prod = staticmethod(lambda a, **k: real_np.prod([x for x in a], **k))
    def frombuffer(*a, **k): raise Unsupported("numpy.frombuffer")
    def __getattr__(self, n): return getattr(real_np, n)

# ---------------------------------------------------------------- strings
WHITE = "".join(chr(c) for c in range(0x110000) if chr(c).isspace())
class SymStr:
    """a string of symbolic code points (the length is concrete on each path)"""
    def __init__(self, cs): self.cs = list(cs)
    __class__ = property(lambda s: str)
    @staticmethod
    def of(x):
        if type(x) is SymStr: return x
        if isinstance(x, str): return SymStr([z3.IntVal(ord(c)) for c in x])
        raise TypeError("expected a string")
    def __len__(s): return len(s.cs)
    def __add__(a, b): return SymStr(a.cs + SymStr.of(b).cs)
    def __radd__(a, b): return SymStr(SymStr.of(b).cs + a.cs)
    def __getitem__(s, k): return SymStr(s.cs[k] if isinstance(k, slice) else [s.cs[k]])
    def __iter__(s): return iter([SymStr([c]) for c in s.cs])
    def eqterm(a, b):
        b = SymStr.of(b)
        if len(a.cs) != len(b.cs): return z3.BoolVal(False)
        return z3.And([x == y for x, y in zip(a.cs, b.cs)] or [z3.BoolVal(True)])
    def __eq__(a, b):
        if not isinstance(b, str): return False
        return SymBool(a.eqterm(b))
    def __ne__(a, b): return SymBool(z3.Not(a.eqterm(b))) if isinstance(b, str) else True
    __hash__ = None
    def __contains__(s, x):
        x = SymStr.of(x); n = len(x)
        return any(E().branch(SymStr(s.cs[i:i + n]).eqterm(x)) for i in range(len(s) - n + 1))
    def join(s, xs):
        out = []
        for i, x in enumerate(xs):
            if i: out += s.cs
            out += SymStr.of(x).cs
        return SymStr(out)
    def split(s, sep=None, maxsplit=-1):
        if sep is None: raise Unsupported("split on whitespace")
        sep = SymStr.of(sep); n = len(sep)
        if n == 0: raise ValueError("empty separator")
        out, cur, i = [], [], 0
        while i < len(s.cs):
            if (maxsplit < 0 or len(out) < maxsplit) and i + n <= len(s.cs) and E().branch(SymStr(s.cs[i:i + n]).eqterm(sep)): out.append(SymStr(cur)); cur = []; i += n
            else: cur.append(s.cs[i]); i += 1
        out.append(SymStr(cur)); return out
    def find(s, x, start=0):
        x = SymStr.of(x); n = len(x)
        for i in range(start, len(s) - n + 1):
            if E().branch(SymStr(s.cs[i:i + n]).eqterm(x)): return i
        return -1
    def _at(s, x, i): return i >= 0 and i + len(x) <= len(s) and E().branch(SymStr(s.cs[i:i + len(x)]).eqterm(x))
    def rfind(s, x, start=0):
        x = SymStr.of(x)
        for i in range(len(s) - len(x), start - 1, -1):
            if s._at(x, i): return i
        return -1
    def index(s, x, start=0):
        i = s.find(x, start)
        if i < 0: raise ValueError("substring not found")
        return i
    def rindex(s, x):
        i = s.rfind(x)
        if i < 0: raise ValueError("substring not found")
        return i
    def count(s, x):
        x = SymStr.of(x); n = i = 0
        if not len(x): return len(s) + 1
        while i + len(x) <= len(s):
            if s._at(x, i): n += 1; i += len(x)
            else: i += 1
        return n
    def startswith(s, x, start=0): return any(s._at(SymStr.of(y), start) for y in (x if isinstance(x, tuple) else (x,)))
    def endswith(s, x): return any(s._at(SymStr.of(y), len(s) - len(y)) for y in (x if isinstance(x, tuple) else (x,)))
    def removeprefix(s, x): return SymStr(s.cs[len(x):]) if s.startswith(x) else s
    def removesuffix(s, x): return SymStr(s.cs[:len(s) - len(x)]) if len(x) and s.endswith(x) else s
    def partition(s, x):
        i = s.find(x)
        return (s, "", "") if i < 0 else (SymStr(s.cs[:i]), x, SymStr(s.cs[i + len(x):]))
    def rpartition(s, x):
        i = s.rfind(x)
        return ("", "", s) if i < 0 else (SymStr(s.cs[:i]), x, SymStr(s.cs[i + len(x):]))
    def replace(s, a, b, count=-1):
        if not len(a): raise Unsupported("replace of an empty string")
        return SymStr.of(b).join(s.split(a, count))
    def rsplit(s, sep=None, maxsplit=-1):
        if maxsplit < 0: return s.split(sep)
        out = []; r = s
        while len(out) < maxsplit:
            i = r.rfind(sep)
            if i < 0: break
            out.append(SymStr(r.cs[i + len(sep):])); r = SymStr(r.cs[:i])
        return [r] + out[::-1]
    def _inset(s, c, xs): return any(E().branch(SymStr([c]).eqterm(SymStr([y]))) for y in SymStr.of(xs).cs)
    def lstrip(s, xs=None):
        if xs is None: xs = WHITE
        i = 0
        while i < len(s.cs) and s._inset(s.cs[i], xs): i += 1
        return SymStr(s.cs[i:])
    def rstrip(s, xs=None):
        if xs is None: xs = WHITE
        i = len(s.cs)
        while i > 0 and s._inset(s.cs[i - 1], xs): i -= 1
        return SymStr(s.cs[:i])
    def strip(s, xs=None): return s.lstrip(xs).rstrip(xs)
    def format(s, *a, **k): raise Unsupported("format of a symbolic string")
    def __mul__(s, n): return SymStr(s.cs * n.__index__())
    __rmul__ = __mul__
    def __mod__(s, a): raise Unsupported("formatting with a symbolic string")
    def __lt__(s, o): raise Unsupported("ordering of symbolic strings")
    __gt__ = __le__ = __ge__ = __lt__
    def __format__(s, f): raise Unsupported("formatting of a symbolic string")
    def __repr__(s): return "<str>"
    def __str__(s): raise Unsupported("str() of a symbolic string")
    def __getattr__(s, n): raise Unsupported("str.%s" % n) if hasattr(str, n) else AttributeError(n)

# ---------------------------------------------------------------- conditions used by scenarios (work symbolically and concretely)
def eq_arrays(a, b):
    """bitwise equality of two arrays of the same shape and element type"""
    if tuple(a.shape) != tuple(b.shape) or a.dtype != b.dtype: return False
    if not isinstance(a, SymArray) and not isinstance(b, SymArray):
        return real_np.ascontiguousarray(a).tobytes() == real_np.ascontiguousarray(b).tobytes()
    a, b = toarray(a), toarray(b)
    ts = [x.t == y.t for x, y in zip(a.view(base).ravel(), b.view(base).ravel())]
    return z3.And(ts) if ts else True
def all_of(*cs):
    cs = [tob(c) for c in cs]
    if any(c is False for c in cs): return False
    cs = [c for c in cs if c is not True]
    return z3.And(cs) if cs else True
def value_as(v, dt):
    """the 1x1 array a scalar argument becomes in an array of type dt"""
    if Engine.cur.concrete:
        with real_np.errstate(all="ignore"): return real_np.full((1, 1), v, dtype=dt)
    r = toarray(v, real_np.dtype(dt)); return r.reshape(1, 1)
def as_dtype(a, dt):
    if isinstance(a, SymArray): return a.astype(dt)
    with real_np.errstate(all="ignore"): return a.astype(dt)
def eq_value(x, arr1):
    """the Python value x is what arr1 (1x1).item() must be"""
    if Engine.cur.concrete:
        y = arr1.reshape(-1)[0].item(); return type(x) is type(y) and (x == y or (x != x and y != y))
    y = topy(arr1.view(base).ravel()[0])
    if type(y) is SymScalar: return type(x) is SymScalar and x.dt == y.dt and (x.t == y.t)
    if isinstance(y, int) and isinstance(x, int) and not isinstance(y, bool): return iterm(x) == iterm(y)
    return type(x) is type(y) and (x == y or (x != x and y != y))
