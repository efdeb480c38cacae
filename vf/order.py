"""Which collections are in hash order, and what depends on that order.

A set of strings or objects is iterated in an order that differs from one run of the same conversion to the next.  `Order` finds, for every
expression of the package, whether it may be such a set ("S"), a sequence ("L") or dictionary ("D") filled in the order of one, or a container of
such ("e:S" ...); flow insensitive across functions, through reaching definitions inside them.  `Uses` then reports each construct whose effect
depends on the order.
"""
import ast

from .flow import Flow, UNBOUND
from .project import walk_own

E = frozenset()
S, L, D = frozenset("S"), frozenset("L"), frozenset("D")
FREE = {"sorted", "len", "any", "all", "sum", "set", "frozenset", "max", "min", "bool", "isinstance", "type", "print", "id"}
KEEP = {"list", "tuple", "iter", "reversed", "enumerate", "zip", "map", "filter"}
SETOPS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
ADDERS = {"append", "extend", "insert", "appendleft"}
SCALAR = {"int", "bool", "float", "NoneType"}
COMMUTE = {"add", "discard", "remove", "update", "difference_update", "intersection_update"}      # on sets
QUIET_EXT = ("logging", "builtins.isinstance", "builtins.len", "builtins.str", "builtins.print", "builtins.id", "builtins.sorted", "builtins.any", "builtins.all")


class Facts:
    """client of Flow.report: what calls, attributes and names refer to"""

    def __init__(self):
        self.calls, self.recv, self.scope = {}, {}, {}
        self.sets = {}

    def call(self, flow, e, fn, args, kw):
        self.calls.setdefault(e, set()).update(fn)
        self.scope[e] = flow.cur

    def attr(self, flow, e, b):
        self.recv.setdefault(e, set()).update(b)

    def setattr(self, flow, e, b, v):
        self.recv.setdefault(e, set()).update(b)


class Order:
    def __init__(self, proj, skip=("tf2onnx.tflite",), prefix="tf2onnx", seeds=None):
        self.proj = proj
        f = Flow(proj, skip=skip, seeds=seeds)
        f.proj_name = prefix
        f.run()
        self.flow = f
        self.facts = Facts()
        f.report(self.facts)
        self.k = {}
        self.work = {}
        self.kept = {}              # sequences in hash order stored where others find them: (scope, text) -> node
        self.readers = {}
        self.cur = None
        self.parents = {}
        for m in f.mods:
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    self.parents[c] = n
        self.settle()

    # ---- lattice
    def get(self, key):
        return self.k.get(key, E)

    def add(self, key, v):
        if v and not v <= self.k.get(key, E):
            self.k[key] = self.k.get(key, E) | v
            self.changed = True

    @staticmethod
    def elem(v):
        return frozenset(x[2:] for x in v if x.startswith("e:"))

    @staticmethod
    def nest(v):
        return frozenset("e:" + x for x in v if x.endswith("S") and x.count("e:") < 2)

    @staticmethod
    def unordered(v):
        return bool(v & {"S", "L", "D"})

    def settle(self):
        for _ in range(40):
            self.changed = False
            for s in self.flow.scopes.values():
                self.cur = s
                self.scope(s)
            if not self.changed:
                return
        raise RuntimeError("order facts do not settle")

    def own(self, s):
        if isinstance(s.node, ast.Lambda):
            return list(ast.walk(s.node.body))
        if isinstance(s.node, ast.Module):
            out, todo = [], list(s.node.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    continue
                out.append(n)
                todo.extend(ast.iter_child_nodes(n))
            return out
        return list(walk_own(s.node))

    def scope(self, s):
        if isinstance(s.node, ast.Lambda):
            self.add(("r", s.node), self.ev(s.node.body))
            return
        if s.defs is not None:
            a = s.node.args
            for p in a.posonlyargs + a.args + a.kwonlyargs:
                pass
        for n in self.own(s):
            if isinstance(n, ast.Assign):
                v = self.ev(n.value)
                for t in n.targets:
                    self.assign(t, v, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.assign(n.target, self.ev(n.value), n.value)
            elif isinstance(n, ast.AugAssign):
                v = self.ev(n.value)
                cur = self.ev(n.target)
                r = cur
                if isinstance(n.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
                    r = cur | (v & S if isinstance(n.op, ast.BitOr) else E)
                elif isinstance(n.op, ast.Add):
                    r = cur | (L if self.unordered(v) else E) | frozenset(x for x in v if x.startswith("e:"))
                    if self.sequence(n.target) and self.in_hash_loop(n):
                        r = r | L
                self.assign(n.target, r, None)
                self.store_loc(n.target, r)
            elif isinstance(n, ast.NamedExpr):
                self.assign(n.target, self.ev(n.value), n.value)
            elif isinstance(n, ast.For):
                self.assign(n.target, self.elem(self.ev(n.iter)), n.iter, loop=True)
            elif isinstance(n, ast.comprehension):
                self.assign(n.target, self.elem(self.ev(n.iter)), n.iter, loop=True)
            elif isinstance(n, ast.Return) and n.value is not None:
                self.add(("r", s.node), self.ev(n.value))
                if isinstance(n.value, (ast.Tuple, ast.List)):
                    for i, x in enumerate(n.value.elts):
                        self.add(("ri", s.node, i), self.ev(x))
            elif isinstance(n, (ast.Yield,)) and n.value is not None:
                self.add(("r", s.node), self.nest(self.ev(n.value)) | (L if self.in_hash_loop(n) else E))
            elif isinstance(n, ast.Call):
                self.call_args(n)
                self.call_effect(n)

    def sequence(self, t):
        saved = self.flow.cur
        self.flow.cur = self.cur
        try:
            v = self.flow.ev(t, load=True) if not isinstance(t, ast.Name) else self.flow.name(t)
        finally:
            self.flow.cur = saved
        return any(o[0] in ("list", "tuple") for o in v) or any(o == ("py", "str") for o in v)

    # the loops (for, comprehensions) around n inside its function that run in hash order
    def in_hash_loop(self, n):
        p, c = self.parents.get(n), n
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.Module, ast.ClassDef)):
            if isinstance(p, ast.For) and (c in p.body) and self.unordered(self.ev(p.iter)):
                return p
            if isinstance(p, ast.While) and c in p.body and any(self.unordered(self.ev(x)) for x in self.taken(p)):
                return p
            p, c = self.parents.get(p), p
        return None

    def taken(self, w):
        """collections a while loop takes its next element from"""
        if w not in self.work:
            out = []
            for st in w.body:
                if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and st.value.func.attr in ("pop", "popitem", "popleft"):
                    out.append(st.value.func.value)
            self.work[w] = out
        return self.work[w]

    # ---- storing
    def locs(self, t):
        """places the container expression t denotes"""
        if isinstance(t, ast.Name):
            s = self.cur
            if s.defs is not None and t.id in s.defs.locals:
                ds = s.defs.loads.get(t)
                if ds is None:
                    ds = s.defs.defs_of.get(t.id, ())
                return [("d", x) for x in ds if x is not UNBOUND]
            p = s.parent
            while p is not None and p.defs is not None:
                if t.id in p.defs.locals:
                    return [("d", x) for x in p.defs.defs_of.get(t.id, ())]
                p = p.parent
            return [("g", s.mod, t.id)]
        if isinstance(t, ast.Attribute):
            return [("f", c, t.attr) for c in self.owners(t)]
        return []

    def owners(self, t):
        out = set()
        for o in self.facts.recv.get(t, ()):
            if o[0] in ("inst", "cls"):
                out.update(o[1].mro())
            elif o[0] == "mod":
                out.add(o[1].name)
            elif o[0] == "super":
                out.update(o[1].mro())
        return out

    def store_loc(self, t, v):
        for k in self.locs(t):
            if k[0] != "d" and v & {"L", "D"}:
                self.kept.setdefault((self.cur, ast.unparse(t)), t)
                self.add(k, v - {"L", "D"})
            else:
                self.add(k, v)

    def assign(self, t, v, src, loop=False):
        if isinstance(t, ast.Name):
            s = self.cur
            if s.defs is not None and t.id in s.defs.locals or getattr(t, "_comp", None):
                self.add(("d", t), v)
            else:
                self.store_loc(t, v)
        elif isinstance(t, ast.Attribute):
            self.store_loc(t, v)
        elif isinstance(t, ast.Subscript):
            r = self.nest(v) if not isinstance(t.slice, ast.Slice) else v
            if not isinstance(t.slice, (ast.Constant, ast.Slice)) and self.in_hash_loop(t) and self.mapping(t.value):
                r = r | D
            self.store_loc(t.value, r)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                w = E
                if isinstance(src, (ast.Tuple, ast.List)) and not loop and i < len(src.elts):
                    w = self.ev(src.elts[i])
                elif isinstance(src, ast.Call) and not loop:
                    for o in self.facts.calls.get(src, ()):
                        n = o[1] if o[0] == "func" else o[2].node if o[0] == "bound" else None
                        if n is not None:
                            w |= self.get(("ri", n, i))
                elif loop and isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and src.func.attr == "items" and i == 1:
                    w = self.elem(self.ev(src.func.value))
                self.assign(x, w, None)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, E, None)

    def mapping(self, e):
        saved = self.flow.cur
        self.flow.cur = self.cur
        try:
            v = self.flow.ev(e)
        finally:
            self.flow.cur = saved
        return not v or any(o[0] in ("dict", "extinst", "?") for o in v)

    # ---- expressions
    def ev(self, e):
        m = getattr(self, "x_" + type(e).__name__, None)
        return m(e) if m is not None else E

    def x_Name(self, e):
        c = getattr(e, "_comp", None)
        if c is not None:
            out = E
            for t in c:
                out |= self.get(("d", t))
            return out
        out = E
        for k in self.locs(e):
            out |= self.get(k)
        return out

    def x_Attribute(self, e):
        out = E
        for c in self.owners(e):
            out |= self.get(("f", c, e.attr))
        for o in self.facts.recv.get(e, ()):
            if o[0] == "inst":
                fi = o[1].find(e.attr)
                if fi is not None and fi.kind == "property":
                    out |= self.get(("r", fi.node))
            elif o[0] == "mod":
                out |= self.get(("g", o[1], e.attr))
        return out

    def x_Set(self, e):
        return S if any(not isinstance(x, ast.Constant) or isinstance(x.value, (str, bytes)) for x in e.elts) and len(e.elts) > 1 else E

    def x_SetComp(self, e):
        return E if self.scalars(e) else S

    def scalars(self, e):
        """all elements of the set built here are numbers"""
        es = self.flow.pts.get(("e", ("set", e)), E)
        return bool(es) and all(o[0] == "py" and o[1] in SCALAR for o in es)

    def x_ListComp(self, e):
        v = L if any(self.unordered(self.ev(g.iter)) for g in e.generators) else E
        return v | self.nest(self.ev(e.elt))

    x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        v = D if any(self.unordered(self.ev(g.iter)) for g in e.generators) else E
        return v | self.nest(self.ev(e.value))

    def x_Dict(self, e):
        out = E
        for v in e.values:
            out |= self.nest(self.ev(v))
        return out

    def x_List(self, e):
        out = E
        for x in e.elts:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                out |= (L if self.unordered(v) else E)
            else:
                out |= self.nest(self.ev(x))
        return out

    x_Tuple = x_List

    def x_IfExp(self, e):
        return self.ev(e.body) | self.ev(e.orelse)

    def x_BoolOp(self, e):
        out = E
        for v in e.values:
            out |= self.ev(v)
        return out

    def x_NamedExpr(self, e):
        return self.ev(e.value)

    def x_Starred(self, e):
        return self.ev(e.value)

    def x_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if isinstance(e.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            r = (a | b) & S
            for x in (e.left, e.right):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("keys", "items") and not x.args:
                    r = S
            return r
        if isinstance(e.op, ast.Add):
            return (L if self.unordered(a | b) else E) | frozenset(x for x in a | b if x.startswith("e:"))
        return E

    def x_Subscript(self, e):
        v = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            return v
        return self.elem(v)

    def ext_name(self, e):
        """builtin or library function called"""
        for o in self.facts.calls.get(e, ()):
            if o[0] == "ext":
                return o[1]
        return None

    def targets(self, e):
        out = []
        for o in self.facts.calls.get(e, ()):
            if o[0] == "func":
                out.append((o[1], 0))
            elif o[0] == "bound":
                out.append((o[2].node, 1))
            elif o[0] == "cls":
                fi = o[1].find("__init__")
                if fi is not None:
                    out.append((fi.node, 1))
        return [t for t in out if t[0] in self.flow.scopes]

    def call_args(self, e):
        for node, off in self.targets(e):
            a = node.args
            ps = (a.posonlyargs + a.args)[off:]
            for p, x in zip(ps, e.args):
                if isinstance(x, ast.Starred):
                    break
                self.add(("d", p), self.ev(x) & S)
            names = {p.arg: p for p in a.posonlyargs + a.args + a.kwonlyargs}
            for kw in e.keywords:
                if kw.arg in names:
                    self.add(("d", names[kw.arg]), self.ev(kw.value) & S)

    def call_effect(self, e):
        """methods that fill containers"""
        f = e.func
        if not isinstance(f, ast.Attribute):
            return
        if self.targets(e):
            return
        if f.attr in ADDERS and e.args:
            v = self.ev(e.args[-1])
            r = E
            if f.attr == "extend":
                r = (L if self.unordered(v) else E) | frozenset(x for x in v if x.startswith("e:"))
            else:
                r = self.nest(v)
            if self.in_hash_loop(e):
                r = r | L
            self.store_loc(f.value, r)
        elif f.attr == "setdefault" and len(e.args) > 1:
            self.store_loc(f.value, self.nest(self.ev(e.args[1])) | (D if self.in_hash_loop(e) else E))
        elif f.attr == "update" and e.args:
            v = self.ev(e.args[0])
            if self.unordered(v) and not self.unordered(self.ev(f.value) & S):
                self.store_loc(f.value, D)

    def x_Call(self, e):
        f = e.func
        out = E
        for node, off in self.targets(e):
            if isinstance(f, ast.Name) and f.id in KEEP | FREE:
                break
            out |= self.get(("r", node))
        n = self.ext_name(e) or ""
        b = n[9:] if n.startswith("builtins.") else None
        if b in ("set", "frozenset"):
            if not e.args:
                return out | S
            return out | (E if self.scalars(e) else S)
        if b in KEEP or n.startswith("itertools."):
            for x in e.args:
                v = self.ev(x)
                if b in ("map", "filter") and x is e.args[0]:
                    continue
                if self.unordered(v):
                    out |= L
                if b in ("list", "tuple", "iter", "reversed"):
                    out |= frozenset(y for y in v if y.startswith("e:"))
            return out
        if b == "dict" and e.args:
            v = self.ev(e.args[0])
            return out | (D if self.unordered(v) else E) | frozenset(y for y in v if y.startswith("e:"))
        if n.endswith("defaultdict") and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == "set":
            return out | {"e:S"}
        if n in ("copy.copy", "copy.deepcopy") and e.args:
            return out | self.ev(e.args[0])
        if isinstance(f, ast.Attribute) and not self.targets(e):
            r = self.ev(f.value)
            if f.attr in SETOPS and "S" in r:
                out |= S
            elif f.attr == "copy":
                out |= r
            elif f.attr in ("keys", "values", "items"):
                if self.unordered(r):
                    out |= L
                if f.attr != "keys":
                    out |= frozenset(y for y in r if y.startswith("e:"))
            elif f.attr in ("get", "pop", "setdefault", "popitem", "popleft"):
                out |= self.elem(r)
                if f.attr == "setdefault" and len(e.args) > 1:
                    out |= self.ev(e.args[1])
        return out


class Uses:
    """constructs whose effect depends on hash order"""

    def __init__(self, order):
        self.o = order
        self.hits = {}
        self.counts = {"expressions in hash order": 0, "loops in hash order": 0, "sets": 0}
        self.loud = {}
        self.run()

    def hit(self, s, n, what):
        key = (s.mod.rel, s.name(), what)
        self.hits.setdefault(key, (s, n))

    def run(self):
        o = self.o
        for (s, text), n in o.kept.items():
            self.hit(s, n, "keeps a sequence in hash order in " + text)
        for s in o.flow.scopes.values():
            o.cur = s
            nodes = o.own(s)
            for n in nodes:
                if isinstance(n, ast.Call):
                    self.unstable(s, n)
                if isinstance(n, ast.expr):
                    v = o.ev(n)
                    if o.unordered(v):
                        self.counts["expressions in hash order"] += 1
                        if isinstance(n, (ast.Set, ast.SetComp)) or isinstance(n, ast.Call) and "S" in v:
                            self.counts["sets"] += 1
                        self.use(s, n, v)
                if isinstance(n, ast.For) and o.unordered(o.ev(n.iter)):
                    self.counts["loops in hash order"] += 1
                    self.loop(s, n)

    def text(self, n):
        return ast.unparse(n)[:70]

    def use(self, s, n, v):
        o = self.o
        p = o.parents.get(n)
        seq = v & {"L"}
        if isinstance(p, ast.Subscript) and p.value is n and seq and isinstance(p.ctx, ast.Load):
            if isinstance(p.slice, ast.Slice) and p.slice.lower is None and p.slice.upper is None and p.slice.step is None:
                return
            if not self.guard_len(s, n):
                self.hit(s, n, "picks an element of %s by position" % self.text(n))
        elif isinstance(p, ast.Call):
            name = o.ext_name(p) or ""
            if n is p.func:
                return
            b = name[9:] if name.startswith("builtins.") else None
            if b == "next":
                self.hit(s, n, "takes the first element of %s" % self.text(n))
            elif b in FREE or b in KEEP or name.startswith(("logging", "itertools.")) or name in ("copy.copy", "copy.deepcopy") or b in ("dict", "str", "repr"):
                if b in ("max", "min") and any(k.arg == "key" for k in p.keywords):
                    self.hit(s, n, "takes an extreme element of %s by a key that several may share" % self.text(n))
            elif isinstance(p.func, ast.Attribute) and p.func.attr in ("join",) and not o.targets(p):
                if not self.message(p):
                    self.hit(s, n, "joins the elements of %s into a text" % self.text(n))
            elif o.targets(p):
                if v & {"L", "D"} and not self.message(p) and not all(self.harmless(t, off, p, n, ()) for t, off in o.targets(p)):
                    self.hit(s, n, "hands %s to %s" % (self.text(n), self.text(p.func)))
            elif isinstance(p.func, ast.Attribute) and (p.func.attr in COMMUTE | SETOPS | ADDERS | {"issubset", "issuperset", "isdisjoint", "format", "get", "pop", "setdefault", "index", "count"} or self.logger(p)):
                pass
            elif seq and not self.raising(p):
                self.hit(s, n, "hands %s to %s" % (self.text(n), self.text(p.func)))
        elif isinstance(p, ast.Attribute) and p.value is n and p.attr in ("pop", "popitem", "popleft"):
            c = o.parents.get(p)
            if isinstance(c, ast.Call) and c.func is p and not (c.args and "D" in v) and not self.worklist(s, n, c):
                self.hit(s, n, "takes an arbitrary element of %s" % self.text(n))
        elif isinstance(p, (ast.Assign,)) and p.value is n and isinstance(p.targets[0], (ast.Tuple, ast.List)):
            if len(p.targets[0].elts) > 1 and not isinstance(n, (ast.Tuple, ast.List)) and not self.tuple_of(n):
                self.hit(s, n, "unpacks %s" % self.text(n))
        elif isinstance(p, ast.Starred):
            self.hit(s, n, "spreads %s" % self.text(n))

    def tuple_of(self, n):
        return isinstance(n, ast.Call) and any(("ri", t, 0) in self.o.k or ("ri", t, 1) in self.o.k for t, _ in self.o.targets(n))

    def logger(self, c):
        return isinstance(c.func, ast.Attribute) and c.func.attr in ("debug", "info", "warning", "error", "verbose", "log", "exception", "warn")

    def message(self, c):
        """part of the text of an exception, an assertion or a log record"""
        p, ch = self.o.parents.get(c), c
        while p is not None and not isinstance(p, ast.stmt):
            if isinstance(p, ast.Call) and (self.logger(p) or isinstance(p.func, ast.Attribute) and p.func.attr == "make_sure" or isinstance(p.func, ast.Name) and p.func.id in ("make_sure", "print")):
                return True
            p, ch = self.o.parents.get(p), p
        return isinstance(p, ast.Raise) or isinstance(p, ast.Assert)

    def harmless(self, fn, off, call, arg, stack):
        """the function does not care for the order of what it gets here"""
        if isinstance(fn, ast.Lambda) or fn in stack:
            return fn in stack
        ps = (fn.args.posonlyargs + fn.args.args)[off:]
        par = None
        if arg in call.args:
            i = call.args.index(arg)
            par = ps[i] if i < len(ps) else None
        else:
            par = next((q for k in call.keywords if k.value is arg for q in ps + fn.args.kwonlyargs if q.arg == k.arg), None)
        if par is None:
            return False
        o = self.o
        sc = o.flow.scopes[fn]
        keyed = "D" in o.ev(arg) or bool(stack)
        saved, o.cur = o.cur, sc
        try:
            for x in ast.walk(fn):
                if not (isinstance(x, ast.Name) and x.id == par.arg and isinstance(x.ctx, ast.Load)):
                    continue
                p = o.parents.get(x)
                if isinstance(p, ast.Compare) and x in p.comparators or isinstance(p, ast.Subscript) and p.value is x and not isinstance(p.slice, ast.Slice) and keyed:
                    continue
                if isinstance(p, ast.Call) and p.func is not x:
                    n = o.ext_name(p) or ""
                    if n in ("builtins.len", "builtins.set", "builtins.frozenset", "builtins.sorted", "builtins.bool", "builtins.any", "builtins.all") or self.message(x):
                        continue
                    ts = o.targets(p)
                    if ts and all(self.harmless(t, of, p, x, stack + (fn,)) for t, of in ts):
                        continue
                    return False
                if isinstance(p, ast.Attribute) and p.attr in ("get", "copy"):
                    continue
                if isinstance(p, ast.For) and p.iter is x:
                    if not self.effects(sc, p, p.body, {y.id for y in ast.walk(p.target) if isinstance(y, ast.Name)}):
                        continue
                    return False
                if isinstance(p, (ast.If, ast.BoolOp, ast.UnaryOp, ast.IfExp)):
                    continue
                return False
            return True
        finally:
            o.cur = saved

    UNSTABLE = {"builtins.id", "builtins.hash", "uuid.uuid4", "uuid.uuid1", "os.getpid", "time.time", "time.time_ns", "random.random", "random.randint", "secrets.token_hex",
                "os.listdir", "glob.glob", "os.scandir", "datetime.datetime.now"}

    def unstable(self, s, n):
        """a number of the run (an address, a clock, a random value) goes into a text or an order"""
        o = self.o
        if o.ext_name(n) == "builtins.sorted" or isinstance(n.func, ast.Attribute) and n.func.attr == "sort":
            for k in n.keywords:
                if k.arg == "key" and isinstance(k.value, ast.Name) and k.value.id in ("id", "hash"):
                    self.hit(s, n, "sorts by " + k.value.id)
        if (o.ext_name(n) or "") not in self.UNSTABLE or self.message(n):
            return
        self.counts["values of the run"] = self.counts.get("values of the run", 0) + 1
        if s.fi is not None and s.fi.qual.split(".")[-1] in ("__repr__", "__str__", "__hash__"):
            return
        if o.ext_name(n) in ("os.listdir", "glob.glob", "os.scandir"):
            p = o.parents.get(n)
            if not (isinstance(p, ast.Call) and o.ext_name(p) in ("builtins.sorted", "builtins.len", "builtins.set")):
                self.hit(s, n, "takes files in the order of the directory")
            return
        p, c = o.parents.get(n), n
        while p is not None and not isinstance(p, ast.stmt):
            if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) and isinstance(p.left, ast.Constant) and isinstance(p.left.value, str) or \
                    isinstance(p, ast.JoinedStr) or isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "format":
                self.hit(s, n, "puts %s into a text" % self.text(n))
                return
            if isinstance(p, ast.Call) and (o.ext_name(p) == "builtins.sorted" or isinstance(p.func, ast.Attribute) and p.func.attr == "sort"):
                self.hit(s, n, "sorts by " + self.text(n))
                return
            if isinstance(p, (ast.Subscript, ast.Compare, ast.Lambda)) and not isinstance(p, ast.Lambda):
                return
            p, c = o.parents.get(p), p

    def raising(self, c):
        p = c
        while p is not None and not isinstance(p, ast.stmt):
            p = self.o.parents.get(p)
        return isinstance(p, ast.Raise)

    def guard_len(self, s, n):
        """dominated by a test that there is one element"""
        t = ast.unparse(n)
        p, c = self.o.parents.get(n), n
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.Module)):
            if isinstance(p, (ast.If, ast.IfExp)) and c is not p.test:
                body = p.body if isinstance(p.body, list) else [p.body]
                if c in body and ("len(%s) == 1" % t) in ast.unparse(p.test):
                    return True
                if c not in body and ("len(%s) != 1" % t) in ast.unparse(p.test):
                    return True
            if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.And):
                for x in p.values[:p.values.index(c)] if c in p.values else ():
                    if "len(%s) == 1" % t in ast.unparse(x):
                        return True
            if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.Or):
                for x in p.values[:p.values.index(c)] if c in p.values else ():
                    if "len(%s) != 1" % t in ast.unparse(x):
                        return True
            # an earlier statement of the block leaves when there is not exactly one
            for blk in (getattr(p, f, None) for f in ("body", "orelse", "finalbody")):
                if isinstance(blk, list) and c in blk:
                    for st in blk[:blk.index(c)]:
                        u = ast.unparse(st)
                        if isinstance(st, ast.If) and st.body and isinstance(st.body[-1], (ast.Return, ast.Continue, ast.Raise, ast.Break)) and \
                                ("len(%s) != 1" % t in ast.unparse(st.test) or "len(%s) > 1" % t in ast.unparse(st.test)):
                            return True
                        if isinstance(st, (ast.Expr, ast.Assert)) and "len(%s) == 1" % t in u:
                            return True
            p, c = self.o.parents.get(p), p
        if isinstance(p, ast.FunctionDef) and c in p.body:
            for st in p.body[:p.body.index(c)]:
                if isinstance(st, ast.If) and st.body and isinstance(st.body[-1], (ast.Return, ast.Raise)) and \
                        ("len(%s) != 1" % t in ast.unparse(st.test) or "len(%s) > 1" % t in ast.unparse(st.test)):
                    return True
                if isinstance(st, (ast.Expr, ast.Assert)) and "len(%s) == 1" % t in ast.unparse(st):
                    return True
        return False

    def worklist(self, s, n, c):
        """while work: x = work.pop() ... : judged like a loop over it"""
        p = self.o.parents.get(c)
        st = c
        while st is not None and not isinstance(st, ast.stmt):
            st = self.o.parents.get(st)
        w = self.o.parents.get(st)
        while w is not None and not isinstance(w, (ast.While, ast.FunctionDef)):
            w = self.o.parents.get(w)
        if isinstance(w, ast.While):
            return not self.effects(s, w, w.body, {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)})
        return False

    # ---- loops
    def loop(self, s, n):
        names = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        for what, at in self.effects(s, n, n.body, names):
            self.hit(s, at, "loop over %s %s" % (self.text(n.iter), what))

    def effects(self, s, loop, body, names):
        """what the iterations do that does not commute: [(text, node)]"""
        o = self.o
        out = []
        inner = set()
        for st in body:
            for x in ast.walk(st):
                inner.add(x)
        assigned = {x.id for st in body for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        varying = set(names) | assigned
        uses = lambda e: any(isinstance(x, ast.Name) and x.id in varying for x in ast.walk(e))
        nested = set()
        for st in body:
            for x in ast.walk(st):
                if isinstance(x, (ast.For, ast.While)):
                    for y in ast.walk(x):
                        if y is not x:
                            nested.add(y)
        for x in sorted(inner, key=lambda y: (getattr(y, "lineno", 0), getattr(y, "col_offset", 0))):
            if isinstance(x, ast.Return) and x.value is not None and uses(x.value):
                out.append(("returns the first match", x))
            elif isinstance(x, ast.Call):
                w = self.loud_call(s, x)
                if w:
                    out.append((w, x))
            elif isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                        w = self.store(s, loop, x, y, inner, uses)
                        if w:
                            out.append((w, x))
            elif isinstance(x, ast.AugAssign) and isinstance(x.target, (ast.Attribute, ast.Subscript)) and not uses(x.target) and isinstance(x.op, ast.Add) and o.sequence(x.target):
                pass        # becomes a sequence in hash order
        return out

    def store(self, s, loop, st, t, inner, uses):
        o = self.o
        if isinstance(t, ast.Name):
            if s.defs is None:
                return None
            later = [n for n, ds in s.defs.loads.items() if t in ds and (n not in inner)]
            # read after the loop: which iteration wrote it last?
            later = [n for n in later if not self.same_iter(n, loop)]
            if later and uses(st.value):
                return "leaves the last match in " + t.id
            return None
        if isinstance(t, ast.Attribute) and not uses(t.value) and uses(st.value):
            return "overwrites " + self.text(t)
        return None

    def same_iter(self, n, loop):
        return False

    def loud_call(self, s, c):
        """does the call do something whose order matters?"""
        o = self.o
        f = c.func
        if self.logger(c):
            return None
        ts = o.targets(c)
        if not ts and isinstance(f, ast.Name) and o.facts.calls.get(c) and all(x[0] == "?" for x in o.facts.calls[c]):
            return "calls %s, which may be anything" % self.text(f)
        for node, off in ts:
            w = self.loud_fn(node, ())
            if w:
                return "calls %s, which %s" % (self.text(f), w)
        return None

    # a constant is put under the name it is given; where the name is numbered, make_name has been called
    QUIET_FN = {"make_const"}
    SINKS = {"make_node": "adds nodes", "make_name": "numbers names", "insert_new_node_on_input": "adds nodes",
             "insert_new_node_on_output": "adds nodes", "insert_node_on_output": "adds nodes", "add_graph_input": "adds an input", "add_graph_output": "adds an output",
             "copy_const": "adds nodes"}

    def loud_fn(self, node, stack):
        """function reached that adds nodes, names or other things in sequence"""
        if node in self.loud:
            return self.loud[node]
        if node in stack or len(stack) > 30:
            return None
        sc = self.o.flow.scopes.get(node)
        nm = getattr(node, "name", "")
        if nm in self.SINKS:
            self.loud[node] = self.SINKS[nm]
            return self.loud[node]
        res = None
        if nm in self.QUIET_FN:
            return None
        saved = self.o.cur
        self.o.cur = sc
        for x in self.o.own(sc):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Attribute) and x.func.attr == "make_node" and x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value == "Identity":
                    continue        # placeholders: the optimizers take them out again
                for t, _ in self.o.targets(x):
                    res = res or self.loud_fn(t, stack + (node,))
            if res:
                break
        self.o.cur = saved
        if not stack or res:
            self.loud[node] = res
        return res
