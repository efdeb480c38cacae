"""What each function may modify: its parameters (the object itself, or something inside it), module variables, fields, members of libraries.

A value is a set of roots (r, k): r names an object of the function's caller ("p", parameter), of a module ("g", module, name), of a class
field ("a", class, field) or of a library ("x", name); k says whether the value is that object (0), something inside it (1), or a container
made here that holds it or something inside it (-1).  Summaries are computed per function and instantiated at each call, so a helper
modifies what its caller hands it and nothing else.
"""
import ast

from .flow import Flow
from .order import Facts
from .project import walk_own

E = frozenset()
MUT = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "appendleft", "popleft",
       "difference_update", "intersection_update", "symmetric_difference_update",
       "CopyFrom", "MergeFrom", "ClearField", "Clear", "ParseFromString", "MergeFromString", "SetInParent", "__setitem__", "__delitem__", "__setattr__", "fill", "resize", "itemset"}
SHALLOW = {"list", "tuple", "set", "frozenset", "dict", "sorted", "reversed", "enumerate", "zip", "map", "filter", "iter"}
INSIDE = {"get", "items", "values", "keys", "pop", "popitem", "setdefault", "popleft", "group", "__getitem__"}
# what TensorFlow makes anew at every access
FRESH = {"node_def", "op_def", "graph_def"}
# process-wide settings of libraries
STATE = {"os.environ", "sys.path", "sys.modules"}
SWITCH = {"os.chdir", "os.putenv", "sys.setrecursionlimit", "numpy.seterr", "numpy.random.seed", "random.seed", "warnings.filterwarnings", "warnings.simplefilter",
          "logging.disable", "gc.disable", "gc.enable", "locale.setlocale", "signal.signal", "tensorflow.compat.v1.disable_eager_execution",
          "tensorflow.compat.v1.disable_v2_behavior", "tensorflow.compat.v1.reset_default_graph", "tensorflow.compat.v1.enable_eager_execution",
          "tensorflow.random.set_seed", "tensorflow.compat.v1.set_random_seed", "tensorflow.config.run_functions_eagerly", "numpy.set_printoptions",
          "tensorflow.compat.v1.enable_resource_variables", "socket.setdefaulttimeout", "os.umask", "tensorflow.keras.backend.clear_session",
          "tensorflow.keras.backend.set_floatx"}
PLAIN = {"str", "int", "float", "bool", "bytes", "NoneType"}


class Effects:
    def __init__(self, proj, flow=None, seeds=None):
        self.proj = proj
        if flow is None:
            flow = Flow(proj, seeds=seeds)
            flow.proj_name = "tf2onnx"
            flow.run()
        self.flow = flow
        self.facts = Facts()
        flow.report(self.facts)
        self.parents = {}
        for m in flow.mods:
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    self.parents[c] = n
        self.defval = {}            # definition (Name store, alias) -> [(expression, how)]
        self.owner = {}             # node of a parameter -> scope
        self.free = {}
        self.mut = {}               # scope node -> {(root, k): set of (how, node, scope node, via)}
        self.ret = {}               # scope node -> roots
        self.cells = {}             # ("a", class, field) -> roots stored there, in terms of parameters of the storing function
        self.memo = {}
        self.cur = None
        self.prepare()
        self.solve()

    # ---- definitions
    def own(self, s):
        n = s.node
        if isinstance(n, ast.Lambda):
            return list(ast.walk(n.body))
        if isinstance(n, ast.Module):
            out, todo = [], list(n.body)
            while todo:
                x = todo.pop()
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    continue
                out.append(x)
                todo.extend(ast.iter_child_nodes(x))
            return out
        return list(walk_own(n))

    def bind(self, t, e, how):
        if isinstance(t, ast.Name):
            self.defval.setdefault(t, []).append((e, how))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(e, (ast.Tuple, ast.List)) and how == "is" and len(e.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in t.elts + e.elts):
                for x, y in zip(t.elts, e.elts):
                    self.bind(x, y, "is")
            else:
                for i, x in enumerate(t.elts):
                    self.bind(x.value if isinstance(x, ast.Starred) else x, e, ("item", i) if how == "is" else "in")
        elif isinstance(t, ast.Starred):
            self.bind(t.value, e, how)

    def prepare(self):
        self.nodes = {}
        self.imports = {}           # alias -> (dotted name, None), inside functions
        self.modimports = {}        # (module, name) -> dotted name
        for m in self.flow.mods:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        self.alias(m, n, a, a.name if a.asname else a.name.split(".")[0], a.asname or a.name.split(".")[0])
                elif isinstance(n, ast.ImportFrom):
                    base = self.resolve_from(m, n)
                    for a in n.names:
                        self.alias(m, n, a, base + "." + a.name, a.asname or a.name)
        for s in self.flow.scopes.values():
            ns = self.nodes[s.node] = self.own(s)
            a = getattr(s.node, "args", None)
            if a is not None:
                for p in a.posonlyargs + a.args + a.kwonlyargs + [x for x in (a.vararg, a.kwarg) if x]:
                    self.owner[p] = s
            for n in ns:
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        self.bind(t, n.value, "is")
                elif isinstance(n, ast.AnnAssign) and n.value is not None:
                    self.bind(n.target, n.value, "is")
                elif isinstance(n, ast.NamedExpr):
                    self.bind(n.target, n.value, "is")
                elif isinstance(n, (ast.For, ast.comprehension)):
                    self.bind(n.target, n.iter, "in")
                elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                    self.bind(n.optional_vars, n.context_expr, "is")

    def alias(self, m, n, a, dotted, name):
        p = self.parents.get(n)
        while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
            p = self.parents.get(p)
        if p is None:
            self.modimports[(m.name, name)] = dotted
        else:
            self.imports[a] = (dotted, None)

    # ---- values
    @staticmethod
    def inside(v):
        return frozenset((r, 1) for r, k in v)

    @staticmethod
    def held(v):
        return frozenset((r, -1) for r, k in v)

    def ev(self, e):
        key = (self.cur.node, e)
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = E          # cycles through loops
        m = getattr(self, "x_" + type(e).__name__, None)
        v = m(e) if m else E
        if v and self.plain(e):
            v = E
        self.memo[key] = v
        return v

    def plain(self, e):
        """a number or a text: nothing can be done to it"""
        return isinstance(e, (ast.Constant, ast.JoinedStr, ast.Compare))

    def x_Name(self, e):
        s = self.cur
        if s.defs is not None and e in s.defs.loads:
            return self.of_defs(s.defs.loads[e])
        p = self.enclosing(s, e.id)
        if p is not None:
            return self.of_defs(p.defs.defs_of.get(e.id, ()), p)
        return self.global_(s.mod, e.id)

    def enclosing(self, s, name):
        if s.defs is not None and name in s.defs.locals:
            return s
        p = s.parent
        while p is not None:
            if p.defs is not None and name in p.defs.locals:
                return p
            p = p.parent
        return None

    def global_(self, mod, name):
        r = self.flow.global_name(mod, name) if hasattr(self.flow, "global_name") else E
        if any(o[0] in ("cls", "func", "mod") for o in r):
            for o in r:
                if o[0] == "cls":
                    return frozenset([(("c", o[1].full), 0)])
            return E
        lib = self.modimports.get((mod.name, name))
        if lib is not None and not (lib == "tf2onnx" or lib.startswith("tf2onnx.")):
            return frozenset([(("x", lib), 0)])
        m, nm = self.definer(mod, name)
        if m is not None:
            return frozenset([(("g", m.name, nm), 0)])
        return E

    def definer(self, mod, name, depth=0):
        """module whose variable this is"""
        if depth > 5:
            return None, None
        for n in mod.tree.body:
            if isinstance(n, ast.ImportFrom):
                for a in n.names:
                    if (a.asname or a.name) == name:
                        t = self.proj.modules.get(self.resolve_from(mod, n))
                        if t is not None:
                            r = self.definer(t, a.name, depth + 1)
                            if r[0] is not None:
                                return r
        for n in self.own_module(mod):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == name:
                return mod, name
        return None, None

    def own_module(self, mod):
        s = self.flow.scopes.get(mod.tree)
        return self.nodes.get(mod.tree, ()) if s is not None else ()

    @staticmethod
    def resolve_from(mod, n):
        if not n.level:
            return n.module or ""
        parts = mod.name.split(".")
        if not mod.rel.endswith("__init__.py"):
            parts = parts[:-1]
        parts = parts[:len(parts) - (n.level - 1)] if n.level > 1 else parts
        return ".".join(parts + ([n.module] if n.module else []))

    def of_defs(self, defs, scope=None):
        out = E
        saved = self.cur
        if scope is not None:
            self.cur = scope
        try:
            for d in defs:
                if isinstance(d, ast.arg):
                    out |= frozenset([(("p", d), 0)])
                elif isinstance(d, ast.Name):
                    for e, how in self.defval.get(d, ()):
                        v = self.ev(e)
                        if how == "is":
                            out |= v
                        elif isinstance(how, tuple):
                            out |= self.item(e, how[1], v)
                        else:
                            out |= self.inside(v)
        finally:
            self.cur = saved
        return out

    def item(self, e, i, v):
        """one place of a tuple a function returns"""
        out = set()
        if isinstance(e, ast.Call):
            ts = self.targets(e)
            if ts and all(t in self.rets for t, _ in ts):
                for t, off in ts:
                    for items in self.rets[t]:
                        if items is None or i >= len(items):
                            return self.inside(v)
                        out |= self.at_call(e, t, off, items[i])
                return frozenset(out)
        return self.inside(v)

    def x_Attribute(self, e):
        v = self.ev(e.value)
        out = set()
        if e.attr in FRESH:
            return E
        known = False
        for o in self.recv(e.value):
            if o[0] in ("inst", "cls", "super"):
                known = True
                ci = o[1]
                fi = ci.find(e.attr)
                if fi is not None:
                    if "property" in fi.decos:
                        out |= set(self.ret.get(fi.node, ())) and {(r, k) for r, k in self.ret[fi.node] if r[0] != "p"}
                    continue
                out.add((("a", self.field_class(ci, e.attr), e.attr), 0))
            elif o[0] == "mod":
                known = True
                m = o[1]
                if e.attr in m.functions or e.attr in m.classes:
                    continue
                out |= self.global_(m, e.attr)
        lib = self.library(e)
        if lib is not None:
            return frozenset([(("x", lib), 0)])
        if known:
            return frozenset(out)
        for r, k in v:
            if r[0] != "x":
                out.add((r, 1))
        return frozenset(out)

    def library(self, e):
        """dotted name of a member of a library, through imports"""
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if not isinstance(e, ast.Name):
            return None
        s = self.cur
        scope = self.enclosing(s, e.id)
        if scope is not None:
            names = {(n, a) for d in scope.defs.defs_of.get(e.id, ()) for n, a in [self.imports.get(d, (None, None))] if n}
            if not names:
                return None
            base = sorted(names)[0][0]
        else:
            base = self.modimports.get((s.mod.name, e.id))
            if base is None:
                return None
        if base == "tf2onnx" or base.startswith("tf2onnx."):
            return None
        return ".".join([base] + parts[::-1])

    def field_class(self, ci, attr):
        """the class of the hierarchy that assigns the field first"""
        for c in ci.mro():
            if (c.full, attr) in self.fields:
                return c.full
        return ci.full

    def recv(self, e):
        return self.types(e)

    def types(self, e):
        fl = self.flow
        saved, fl.cur = fl.cur, self.cur
        try:
            if isinstance(e, ast.Name):
                return fl.name(e)
            return fl.ev(e, load=True)
        finally:
            fl.cur = saved

    def x_Subscript(self, e):
        src = self.kwarg_of(e.value)
        if src and isinstance(e.slice, ast.Constant):
            return frozenset([(("p", src, e.slice.value), 0)])
        v = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            return self.held(v)
        return self.inside(v)

    def x_Starred(self, e):
        return self.held(self.ev(e.value))

    def x_List(self, e):
        out = E
        for x in e.elts:
            out |= self.held(self.ev(x))
        return out

    x_Tuple = x_Set = x_List

    def x_Dict(self, e):
        out = E
        for k, x in zip(e.keys, e.values):
            out |= self.held(self.ev(x))
        return out

    def x_ListComp(self, e):
        return self.held(self.ev(e.elt))

    x_SetComp = x_GeneratorExp = x_ListComp

    def x_DictComp(self, e):
        return self.held(self.ev(e.value))

    def x_IfExp(self, e):
        return self.ev(e.body) | self.ev(e.orelse)

    def x_BoolOp(self, e):
        out = E
        for x in e.values:
            out |= self.ev(x)
        return out

    def x_NamedExpr(self, e):
        return self.ev(e.value)

    def x_Await(self, e):
        return self.ev(e.value)

    def x_BinOp(self, e):
        if isinstance(e.op, (ast.Add, ast.BitOr)):
            return self.held(self.ev(e.left) | self.ev(e.right))
        return E

    # ---- calls
    def targets(self, e):
        out = []
        for o in self.facts.calls.get(e, ()):
            if o[0] == "func":
                out.append((o[1], 0))
            elif o[0] == "bound":
                out.append((o[2].node, 1))
            elif o[0] == "cls":
                fi = o[1].find("__init__")
                if fi is not None:
                    out.append((fi.node, 2))
            elif o[0] == "inst":
                fi = o[1].find("__call__")
                if fi is not None:
                    out.append((fi.node, 3))
        return [t for t in out if t[0] in self.flow.scopes]

    def ext_name(self, e):
        for o in self.facts.calls.get(e, ()):
            if o[0] == "ext":
                return o[1]
        return None

    def actuals(self, e, node, off):
        """{parameter: value} of a call"""
        a = node.args
        params = a.posonlyargs + a.args
        out = {}
        pos = []
        if off == 1:
            pos.append(self.ev(e.func.value) if isinstance(e.func, ast.Attribute) else E)
        elif off in (2, 3):
            pos.append(E)
        star = None
        for x in e.args:
            if isinstance(x, ast.Starred):
                star = self.inside(self.ev(x.value))
                break
            pos.append(self.ev(x))
        for p, v in zip(params, pos):
            out[p] = out.get(p, E) | v
        if a.vararg and len(pos) > len(params):
            for v in pos[len(params):]:
                out[a.vararg] = out.get(a.vararg, E) | self.held(v)
        if star:
            for p in params[len(pos):]:
                out[p] = out.get(p, E) | star
            if a.vararg:
                out[a.vararg] = out.get(a.vararg, E) | self.held(star)
        names = {p.arg: p for p in params + a.kwonlyargs}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                src = self.kwarg_of(k.value)
                given = {x.arg for x in e.keywords if x.arg}
                for p in params[len(pos):] + a.kwonlyargs:
                    if p.arg not in given:
                        out[p] = out.get(p, E) | (frozenset([(("p", src, p.arg), 0)]) if src else self.inside(v))
                if a.kwarg:
                    out[a.kwarg] = out.get(a.kwarg, E) | self.held(v)
                    if src:
                        out[("**", a.kwarg)] = src
                    else:
                        out[("rest", a.kwarg)] = self.inside(v)
            elif k.arg in names:
                out[names[k.arg]] = out.get(names[k.arg], E) | v
            elif a.kwarg:
                out[a.kwarg] = out.get(a.kwarg, E) | self.held(v)
                out[(a.kwarg, k.arg)] = v
        return out

    def kwarg_of(self, e):
        """the ** parameter an expression is"""
        s = self.cur
        a = getattr(s.node, "args", None)
        if isinstance(e, ast.Name) and a is not None and a.kwarg and e.id == a.kwarg.arg and s.defs is not None and all(d is a.kwarg for d in s.defs.loads.get(e, ())):
            return a.kwarg
        return None

    @staticmethod
    def act(act, r):
        """value of a parameter, or of one key of a ** parameter"""
        if len(r) == 2:
            return act.get(r[1], E)
        got = act.get((r[1], r[2]))
        if got is not None:
            return got
        src = act.get(("**", r[1]))
        if src is not None:
            return frozenset([(("p", src, r[2]), 0)])
        return act.get(("rest", r[1]), E)

    def at_call(self, e, node, off, roots):
        """roots of a callee in terms of the caller"""
        if not roots:
            return E
        act = None
        out = set()
        for r, k in roots:
            if r[0] != "p":
                out.add((r, k))
                continue
            if self.owner.get(r[1]) is not self.flow.scopes[node]:
                out.add((r, k))     # of an enclosing function
                continue
            if act is None:
                act = self.actuals(e, node, off)
            for r2, k2 in self.act(act, r):
                if k == 0:
                    out.add((r2, k2))
                elif k == 1:
                    out.add((r2, 1))
                else:
                    out.add((r2, -1))
        return frozenset(out)

    def x_Call(self, e):
        f = e.func
        ts = self.targets(e)
        out = set()
        for node, off in ts:
            if off == 2:
                continue
            out |= self.at_call(e, node, off, self.ret.get(node, E))
        if ts:
            return frozenset(out)
        n = self.ext_name(e) or ""
        b = n[9:] if n.startswith("builtins.") else None
        if b in SHALLOW or n in ("copy.copy", "collections.OrderedDict", "collections.defaultdict", "itertools.chain") or n.startswith("itertools."):
            for x in e.args:
                out |= self.held(self.ev(x))
            return frozenset(out)
        if b == "getattr" and e.args:
            return self.inside(self.ev(e.args[0]))
        if b in ("next", "max", "min") and e.args:
            return self.inside(self.ev(e.args[0]))
        if n in ("numpy.asarray", "typing.cast") and e.args:
            return self.ev(e.args[0])
        if isinstance(f, ast.Attribute):
            v = self.ev(f.value)
            if any(r[0] == "x" for r, k in v):
                v = frozenset((r, k) for r, k in v if r[0] != "x")
            if f.attr == "copy":
                return self.held(v)
            if f.attr in INSIDE:
                src = self.kwarg_of(f.value)
                if src and e.args and isinstance(e.args[0], ast.Constant):
                    return frozenset([(("p", src, e.args[0].value), 0)])
                return self.inside(v)
            if f.attr == "add" and isinstance(self.parents.get(e), ast.expr):
                return self.inside(v)
        return E

    # ---- effects
    def solve(self):
        self.fields = set()
        for s in self.flow.scopes.values():
            for n in self.nodes[s.node]:
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and s.fi is not None and s.fi.cls is not None and isinstance(n.value, ast.Name):
                    a = s.node.args.args
                    if a and n.value.id == a[0].arg:
                        self.fields.add((s.fi.cls.full, n.attr))
        for m in self.flow.mods:
            for c in m.classes.values():
                for st in c.node.body:
                    for t in getattr(st, "targets", [getattr(st, "target", None)]):
                        if isinstance(t, ast.Name):
                            self.fields.add((c.full, t.id))
        self.rets = {}
        for s in self.flow.scopes.values():
            if isinstance(s.node, ast.FunctionDef):
                self.rets[s.node] = []
        for it in range(12):
            before = (sum(len(x) for x in self.ret.values()), sum(len(x) for x in self.mut.values()), sum(len(x) for x in self.cells.values()))
            self.memo = {}
            for s in self.flow.scopes.values():
                self.cur = s
                self.returns(s)
            for s in self.flow.scopes.values():
                self.cur = s
                self.effects(s)
            after = (sum(len(x) for x in self.ret.values()), sum(len(x) for x in self.mut.values()), sum(len(x) for x in self.cells.values()))
            if before == after and it:
                break
        else:
            raise RuntimeError("effects do not settle")
        self.rounds = it + 1

    def returns(self, s):
        if isinstance(s.node, ast.Lambda):
            self.ret[s.node] = self.ret.get(s.node, E) | self.ev(s.node.body)
            return
        items = []
        for n in self.nodes[s.node]:
            if isinstance(n, ast.Return) and n.value is not None:
                self.ret[s.node] = self.ret.get(s.node, E) | self.ev(n.value)
                items.append([self.ev(x) for x in n.value.elts] if isinstance(n.value, ast.Tuple) else None)
            elif isinstance(n, ast.Yield) and n.value is not None:
                self.ret[s.node] = self.ret.get(s.node, E) | self.held(self.ev(n.value))
        if s.node in self.rets:
            self.rets[s.node] = items

    def did(self, s, roots, how, n, via=None, label=None):
        """via: (function called, what of its own it modifies); label: the attribute that holds what is modified"""
        for r, k in roots:
            if k < 0:
                continue
            self.mut.setdefault(s.node, {}).setdefault((r, k), {})[(n, how, label)] = via

    def label(self, e, depth=0):
        """name of the attribute an expression reads its value from"""
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, ast.Attribute):
            return e.attr
        if isinstance(e, ast.Name) and depth < 4 and self.cur.defs is not None:
            for d in self.cur.defs.loads.get(e, ()):
                for x, how in self.defval.get(d, ()):
                    got = self.label(x, depth + 1)
                    if got:
                        return got
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in INSIDE:
            return self.label(e.func.value, depth + 1)
        return None

    def local_field(self, e):
        """is this an attribute of an object of the project?"""
        return any(o[0] in ("inst", "cls", "super") for o in self.recv(e))

    def effects(self, s):
        for n in self.nodes[s.node]:
            if isinstance(n, (ast.Assign, ast.AnnAssign, ast.Delete, ast.For, ast.With)):
                ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if not isinstance(n, ast.With) else [i.optional_vars for i in n.items if i.optional_vars is not None]
                for t in ts:
                    for y in ast.walk(t) if isinstance(t, (ast.Tuple, ast.List)) else (t,):
                        self.store(s, n, y, getattr(n, "value", None) if y is t else None)
            elif isinstance(n, ast.AugAssign):
                if isinstance(n.target, ast.Name):
                    self.rebind(s, n, n.target)
                    if self.mutable(n):
                        self.did(s, self.load(n.target), "extends in place", n, label=self.label(n.target))
                else:
                    self.store(s, n, n.target, None)
            elif isinstance(n, ast.Call):
                self.call(s, n)

    def load(self, t):
        """value of the variable an augmented assignment changes"""
        s = self.cur
        if s.defs is not None and t.id in s.defs.locals:
            ds = [d for d in s.defs.defs_of.get(t.id, ()) if d is not t]
            return self.of_defs(ds)
        return self.x_Name(t)

    def mutable(self, n):
        v = n.value
        if isinstance(v, (ast.List, ast.ListComp, ast.Set, ast.SetComp, ast.Dict)):
            return True
        if isinstance(n.op, ast.Add):
            return any(o[0] in ("list", "set", "dict") for o in self.types(v))
        return isinstance(n.op, (ast.BitOr, ast.Sub, ast.BitAnd)) and any(o[0] == "set" for o in self.types(v))

    def rebind(self, s, n, t):
        if s.defs is not None and t.id in s.defs.outer and self.enclosing(s.parent, t.id) is None:
            m, nm = self.definer(s.mod, t.id)
            if m is not None:
                self.did(s, [(("g", m.name, nm), 0)], "assigns", n)

    def store(self, s, n, t, value):
        if isinstance(t, ast.Name):
            if isinstance(t.ctx, (ast.Store, ast.Del)):
                self.rebind(s, n, t)
        elif isinstance(t, ast.Subscript) and isinstance(t.ctx, (ast.Store, ast.Del)):
            self.did(s, self.ev(t.value), "sets items of", n, label=self.label(t.value))
        elif isinstance(t, ast.Attribute) and isinstance(t.ctx, (ast.Store, ast.Del)):
            cls = [o for o in self.recv(t.value) if o[0] in ("inst", "cls", "super")]
            mods = [o for o in self.recv(t.value) if o[0] == "mod"]
            for o in cls:
                c = ("a", self.field_class(o[1], t.attr), t.attr)
                if value is not None:
                    v = self.ev(value)
                    self.cells.setdefault(c, set()).update((r, k, s.node) for r, k in v)
                if o[0] == "cls":
                    self.did(s, [(c, 0)], "assigns", n)
            for o in self.recv(t.value):
                if o[0] == "func" and o[1] in self.flow.scopes:
                    fs = self.flow.scopes[o[1]]
                    self.did(s, [(("g", fs.mod.name, fs.name() + "." + t.attr), 0)], "sets attribute", n)
            for o in mods:
                self.did(s, [(("g", o[1].name, t.attr), 0)], "assigns", n)
            if not cls and not mods:
                v = self.ev(t.value)
                lib = self.library(t.value)
                if lib is not None:
                    v = frozenset([(("x", lib), 0)])
                self.did(s, [(("x", r[1] + "." + t.attr), 0) if r[0] == "x" else (r, k) for r, k in v if r[0] != "x" or lib], "sets %s of" % t.attr, n, label=t.attr)

    def call(self, s, e):
        f = e.func
        ts = self.targets(e)
        for node, off in ts:
            m = self.mut.get(node)
            if not m:
                continue
            for (r, k), sites in list(m.items()):
                if r[0] == "p" and self.owner.get(r[1]) is not self.flow.scopes[node]:
                    continue
                labels = {l for _, _, l in sites}
                if r[0] != "p":
                    for l in labels:
                        self.did(s, [(r, k)], "calls", e, (node, (r, k)), l)
                    continue
                act = self.actuals(e, node, off)
                out = set()
                for r2, k2 in self.act(act, r):
                    if k == 0 and k2 >= 0:
                        out.add((r2, k2))
                    elif k == 1:
                        out.add((r2, 1))
                for l in labels:
                    self.did(s, out, "calls", e, (node, (r, k)), l)
        if ts:
            return
        n = self.ext_name(e) or ""
        if n in ("builtins.setattr", "builtins.delattr") and e.args:
            a = e.args[1] if len(e.args) > 1 else None
            self.did(s, self.ev(e.args[0]), "sets attributes of", e, label=a.value if isinstance(a, ast.Constant) else None)
        elif n in ("random.shuffle", "numpy.put", "numpy.copyto", "numpy.place", "heapq.heappush", "heapq.heappop", "numpy.random.shuffle") and e.args:
            self.did(s, self.ev(e.args[0]), "changes", e, label=self.label(e.args[0]))
        elif isinstance(f, ast.Attribute) and f.attr in MUT:
            v = self.ev(f.value)
            self.did(s, [(r, k) for r, k in v if r[0] != "x" or r[1] in STATE], "calls %s of" % f.attr, e, label=self.label(f.value))
        elif n in SWITCH:
            self.did(s, [(("x", n), 0)], "calls", e)
        # functions defined here modify what they enclose when they are called or handed on
        for x in [f] + e.args + [k.value for k in e.keywords]:
            if isinstance(x, (ast.Name, ast.Lambda)):
                for o in ([("func", x)] if isinstance(x, ast.Lambda) else self.types(x)):
                    if o[0] == "func" and o[1] in self.mut:
                        for (r, k), sites in list(self.mut[o[1]].items()):
                            if r[0] == "p" and self.owner.get(r[1]) is s:
                                for l in {l for _, _, l in sites}:
                                    self.did(s, [(r, k)], "calls", e, (o[1], (r, k)), l)

    # ---- what is kept in fields
    def storing(self):
        """{function: {(parameter root, k): {field: site}}}"""
        st = {}
        for c, vals in self.cells.items():
            for r, k, node in vals:
                if r[0] == "p":
                    st.setdefault(node, {}).setdefault((r, k), {}).setdefault(c, None)
        changed = True
        while changed:
            changed = False
            for s in self.flow.scopes.values():
                self.cur = s
                for e in self.nodes[s.node]:
                    if not isinstance(e, ast.Call):
                        continue
                    for node, off in self.targets(e):
                        got = st.get(node)
                        if not got:
                            continue
                        act = self.actuals(e, node, off)
                        for (r, k), cs in list(got.items()):
                            if self.owner.get(r[1]) is not self.flow.scopes[node]:
                                continue
                            for r2, k2 in self.act(act, r):
                                if r2[0] != "p":
                                    continue
                                kk = k2 if k == 0 else 1 if k == 1 else -1
                                d = st.setdefault(s.node, {}).setdefault((r2, kk), {})
                                for c in cs:
                                    if c not in d:
                                        d[c] = (e, node, (r, k))
                                        changed = True
        return st

    # ---- explanations
    def trail(self, node, root, label=None, keep=None, depth=0, seen=None):
        """one chain of sites by which node modifies root (what it keeps in the attribute); keep: sites that count"""
        seen = seen or set()
        if (node, root) in seen or depth > 14:
            return []
        seen.add((node, root))
        sites = self.mut.get(node, {}).get(root, {})
        best = None
        for (n, how, l), via in sorted(sites.items(), key=lambda x: (x[1] is not None, x[0][0].lineno, x[0][1], x[0][2] or "")):
            if label is not None and l != label or keep is not None and (node, n) in keep:
                continue
            step = (self.flow.scopes[node], n, how)
            if via is None:
                return [step]
            t = self.trail(via[0], via[1], label, keep, depth + 1, seen)
            if t and (best is None or len(t) + 1 < len(best)):
                best = [step] + t
        return best or []

    # ---- what is put back
    def statement(self, n):
        while not isinstance(n, ast.stmt):
            n = self.parents[n]
        return n

    @staticmethod
    def quiet(st):
        """a statement that does not raise"""
        if isinstance(st, (ast.Pass, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.Global, ast.Nonlocal)):
            return True
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
            return True
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            f = st.value.func
            return isinstance(f, ast.Attribute) and f.attr in ("debug", "info", "warning", "error", "verbose") and isinstance(f.value, ast.Name)
        if isinstance(st, (ast.Assign, ast.AnnAssign)) and st.value is not None:
            ts = st.targets if isinstance(st, ast.Assign) else [st.target]
            return all(isinstance(t, ast.Name) for t in ts) and not any(isinstance(x, (ast.Call, ast.Subscript, ast.BinOp, ast.Yield, ast.Await)) for x in ast.walk(st.value))
        return False

    def guards(self, n):
        """try statements with a finally that run it whatever happens after n"""
        st = self.statement(n)
        out = []
        first = True
        while isinstance(st, ast.stmt):
            p = self.parents[st]
            for name in ("body", "orelse", "finalbody"):
                block = getattr(p, name, None)
                if isinstance(block, list) and st in block:
                    if isinstance(p, ast.Try) and name == "finalbody":
                        return out
                    # set up right before the try statement, at the same level
                    i = block.index(st)
                    for nxt in block[i + 1:]:
                        if isinstance(nxt, ast.Try) and nxt.finalbody:
                            out.append(nxt)
                            break
                        if not self.quiet(nxt) and not (first and self.setup(nxt)):
                            break
            if isinstance(p, ast.ExceptHandler):
                t = self.parents[p]
                if t.finalbody:
                    out.append(t)
                st = t
                continue
            if isinstance(p, ast.Try) and p.finalbody and st not in p.finalbody:
                out.append(p)
            if isinstance(p, (ast.FunctionDef, ast.Lambda, ast.Module)):
                break
            st = p
        return out

    def setup(self, st):
        """another member set in the same place"""
        return isinstance(st, ast.Assign) and all(isinstance(t, ast.Attribute) for t in st.targets) and not any(isinstance(x, ast.Call) for x in ast.walk(st.value))

    # ---- what a finally puts back
    def given(self, node, r, l, site=None, seen=None):
        """roots, in the function's own terms, of what its assignments to attribute l of root r put there; None for changes in place"""
        memo = self.__dict__.setdefault("_given", {})
        key = (node, r, l, site)
        if key in memo:
            return memo[key]
        seen = seen or frozenset()
        if key in seen:
            return frozenset()
        seen |= {key}
        out = set()
        keep = self.cur
        for (r2, k), sites in self.mut.get(node, {}).items():
            if r2 != r:
                continue
            for (n, how, l2), via in sites.items():
                if l2 != l or site is not None and n is not site:
                    continue
                if via is None:
                    if not how.startswith("sets ") or how == "sets items of" or how.startswith("sets attributes"):
                        out.add(None)
                        continue
                    self.cur = self.flow.scopes[node]
                    v = getattr(n, "value", None)
                    out |= set(self.ev(v)) if v is not None and isinstance(n, ast.Assign) else set()
                    continue
                got = self.given(via[0], via[1][0], l, None, seen)
                self.cur = self.flow.scopes[node]
                for cn, off in self.targets(n):
                    if cn is not via[0]:
                        continue
                    act = self.actuals(n, cn, off)
                    for g in got:
                        if g is None:
                            out.add(None)
                        elif g[0][0] != "p":
                            out.add(g)
                        else:
                            for r3, k3 in self.act(act, g[0]):
                                out.add((r3, max(k3, -1) if g[1] == 0 else -1 if g[1] < 0 else 1))
        self.cur = keep
        memo[key] = frozenset(out)
        return memo[key]

    def puts_back(self, node, r, l, n, sites):
        """do these statements of a finally undo what statement n does to attribute l of r"""
        if None not in self.given(node, r, l, n):
            return True             # another value was assigned: any value can be put back
        for b in sites:
            v = self.given(node, r, l, b)
            if None in v or not any(g[0] == r and g[1] >= 0 for g in v):
                return True         # changed in place: what is put back must be a copy
        return False

    def restored(self):
        """{(function, site)} of modifications a finally undoes, and of those that undo them.  The attribute modified has to be one the finally sets."""
        undone = set()
        for node, roots in self.mut.items():
            if isinstance(node, ast.Module):
                continue
            back = {}               # try -> {(root, label)} its finally modifies
            for (r, k), sites in roots.items():
                for n, how, l in sites:
                    t = self.finally_of(n)
                    if t is not None:
                        back.setdefault(t, {}).setdefault((r, l), set()).add(n)
            if not back:
                continue
            for (r, k), sites in roots.items():
                for n, how, l in sites:
                    for t in self.guards(n):
                        if (r, l) in back.get(t, ()) and self.puts_back(node, r, l, n, back[t][(r, l)]):
                            undone.add((node, n, r, l))
                            for b in back[t][(r, l)]:
                                undone.add((node, b, r, l))
        return undone

    def finally_of(self, n):
        st = n
        while st in self.parents and not isinstance(st, (ast.FunctionDef, ast.Lambda, ast.Module)):
            p = self.parents[st]
            if isinstance(p, ast.Try) and st in p.finalbody:
                return p
            st = p
        return None

    def escaping(self):
        """{function: {(root, label): {(k, site): via}}}: what it leaves modified"""
        undone = self.restored()
        self.undone = undone
        out = {}
        live = {}                   # (function, root, k, label) that remain
        todo = []
        for node, roots in self.mut.items():
            for (r, k), sites in roots.items():
                for (n, how, l), via in sites.items():
                    if (node, n, r, l) in undone:
                        continue
                    if via is None:
                        live.setdefault((node, r, k, l), {})[(n, how)] = None
        changed = True
        while changed:
            changed = False
            for node, roots in self.mut.items():
                for (r, k), sites in roots.items():
                    for (n, how, l), via in sites.items():
                        if via is None or (node, n, r, l) in undone:
                            continue
                        key = (node, r, k, l)
                        if (via[0], via[1][0], via[1][1], l) in live and (n, how) not in live.get(key, ()):
                            live.setdefault(key, {})[(n, how)] = via
                            changed = True
        return live

    def path(self, live, key, depth=0, seen=None):
        seen = seen or set()
        if key in seen or depth > 14 or key not in live:
            return []
        seen.add(key)
        best = None
        for (n, how), via in sorted(live[key].items(), key=lambda x: (x[1] is not None, x[0][0].lineno, x[0][1])):
            step = (self.flow.scopes[key[0]], n, how)
            if via is None:
                return [step]
            t = self.path(live, (via[0], via[1][0], via[1][1], key[3]), depth + 1, seen)
            if t and (best is None or len(t) + 1 < len(best)):
                best = [step] + t
        return best or []
