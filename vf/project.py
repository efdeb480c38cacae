"""Static project model of /repo's Python sources: modules, classes, functions, import resolution.

Nothing here imports or runs code of the repository; everything is read with ast from the current working tree.
"""
import ast
import builtins
import os

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """An anchor the rules rely on is gone: the check must end with an error, never pass silently."""


class Module:
    def __init__(self, proj, name, path, is_pkg):
        self.proj = proj
        self.name = name
        self.path = path
        self.is_pkg = is_pkg
        with open(path, "rb") as f:
            self.src = f.read()
        self.tree = ast.parse(self.src, path)
        self.defs = {}       # name -> list of binding ast nodes / import tuples, in source order
        self._collect(self.tree.body, False)
        self.functions = {}
        self.classes = {}
        for node in ast.walk(self.tree):
            for ch in ast.iter_child_nodes(node):
                ch._parent = node
        self._index(self.tree.body, "", None)

    @property
    def rel(self):
        return os.path.relpath(self.path, self.proj.root)

    def _collect(self, body, cond):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                self.defs.setdefault(st.name, []).append(st)
            elif isinstance(st, ast.Import):
                for a in st.names:
                    nm = a.asname or a.name.split(".")[0]
                    tgt = a.name if a.asname else a.name.split(".")[0]
                    self.defs.setdefault(nm, []).append(("mod", tgt))
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(st)
                for a in st.names:
                    self.defs.setdefault(a.asname or a.name, []).append(("from", base, a.name))
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                            self.defs.setdefault(n.id, []).append(st)
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.defs.setdefault(st.target.id, []).append(st)
            elif isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name):
                self.defs.setdefault(st.target.id, []).append(st)
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With)):
                self._collect(st.body, True)
                self._collect(getattr(st, "orelse", []), True)
                if isinstance(st, ast.For):
                    for n in ast.walk(st.target):
                        if isinstance(n, ast.Name):
                            self.defs.setdefault(n.id, []).append(st)
            elif isinstance(st, ast.Try):
                # the first binding (the try body) wins over the fallbacks
                self._collect(st.body, True)
                before = set(self.defs)
                saved = {k: list(v) for k, v in self.defs.items()}
                for h in st.handlers:
                    self._collect(h.body, True)
                for k in saved:
                    self.defs[k] = saved[k]
                self._collect(st.orelse, True)
                self._collect(st.finalbody, True)

    def _abs(self, st):
        if not st.level:
            return st.module or ""
        parts = self.name.split(".")
        if not self.is_pkg:
            parts = parts[:-1]
        if st.level > 1:
            parts = parts[:len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def _index(self, body, prefix, cls):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = prefix + st.name
                fi = FuncInfo(self, st, q, cls)
                self.functions[q] = fi
                st._finfo = fi
                self._index_nested(st, q + ".<locals>.", None)
                if cls is not None:
                    cls.methods[st.name] = fi
            elif isinstance(st, ast.ClassDef):
                ci = ClassInfo(self, st, prefix + st.name)
                self.classes[prefix + st.name] = ci
                st._cinfo = ci
                self._index(st.body, prefix + st.name + ".", ci)
            elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fld in ("body", "orelse", "finalbody"):
                    self._index(getattr(st, fld, []) or [], prefix, cls)
                for h in getattr(st, "handlers", []):
                    self._index(h.body, prefix, cls)

    def _index_nested(self, fn, prefix, cls):
        def rec(n):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    fi = FuncInfo(self, ch, prefix + ch.name, None)
                    self.functions.setdefault(prefix + ch.name, fi)
                    ch._finfo = fi
                    self._index_nested(ch, prefix + ch.name + ".<locals>.", None)
                elif isinstance(ch, ast.ClassDef):
                    ci = ClassInfo(self, ch, prefix + ch.name)
                    self.classes[prefix + ch.name] = ci
                    ch._cinfo = ci
                    self._index(ch.body, prefix + ch.name + ".", ci)
                else:
                    rec(ch)
        rec(fn)


class FuncInfo:
    def __init__(self, mod, node, qual, cls):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.cls = cls
        self.full = mod.name + ":" + qual
        decos = []
        for d in node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            if isinstance(t, ast.Name):
                decos.append(t.id)
            elif isinstance(t, ast.Attribute):
                decos.append(t.attr)
        self.decos = decos
        self.is_gen = False
        for n in walk_own(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)):
                self.is_gen = True
        self._lastuse = None

    @property
    def kind(self):
        if "staticmethod" in self.decos:
            return "static"
        if "classmethod" in self.decos:
            return "class"
        if "property" in self.decos:
            return "property"
        return "inst" if self.cls is not None else "func"

    def locals(self):
        """names this function binds (parameters and comprehension variables aside)"""
        if not hasattr(self, "_locals"):
            own, outer = set(), set()

            def rec(n):
                for ch in ast.iter_child_nodes(n):
                    if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                        own.add(ch.name)
                        continue
                    if isinstance(ch, ast.Lambda):
                        continue
                    if isinstance(ch, (ast.Global, ast.Nonlocal)):
                        outer.update(ch.names)
                    if isinstance(ch, ast.comprehension):
                        rec(ast.Expr(ch.iter))
                        for c in ch.ifs:
                            rec(ast.Expr(c))
                        continue
                    if isinstance(ch, ast.Name) and isinstance(ch.ctx, ast.Store):
                        own.add(ch.id)
                    elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                        own.update(a.asname or a.name.split(".")[0] for a in ch.names)
                    rec(ch)
            for st in self.node.body:
                rec(ast.Module([st], []))
            self._locals = own - outer
        return self._locals

    def lastuse(self):
        """var -> last line it may be read (uses inside loops extend to the loop's end; nested functions pin)."""
        if self._lastuse is None:
            res = {}

            def rec(n, loop_end):
                for ch in ast.iter_child_nodes(n):
                    le = loop_end
                    if isinstance(ch, (ast.For, ast.While, ast.AsyncFor)):
                        le = max(loop_end, ch.end_lineno + 0.5)      # still read after the body's last statement
                    if isinstance(ch, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                        for x in ast.walk(ch):
                            if isinstance(x, ast.Name):
                                res[x.id] = 10 ** 9
                        continue
                    if isinstance(ch, ast.Name):
                        res[ch.id] = max(res.get(ch.id, 0), ch.lineno, le)
                    rec(ch, le)
            rec(self.node, 0)
            self._lastuse = res
        return self._lastuse


def walk_own(fn):
    """Walk a function body without descending into nested functions/classes."""
    stack = list(fn.body) if not isinstance(fn, ast.Lambda) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        for ch in ast.iter_child_nodes(n):
            if not isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
                stack.append(ch)


class ClassInfo:
    def __init__(self, mod, node, qual):
        self.mod = mod
        self.node = node
        self.qual = qual
        self.full = mod.name + ":" + qual
        self.methods = {}

    def bases(self):
        res = []
        for b in self.node.bases:
            r = self.mod.proj.resolve_expr(self.mod, b)
            if isinstance(r, ClassInfo):
                res.append(r)
        return res

    def mro(self):
        # C3 is not needed here: single inheritance plus object everywhere; depth-first is the same.
        out = [self]
        for b in self.bases():
            for c in b.mro():
                if c not in out:
                    out.append(c)
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def find_assign(self, name):
        for c in self.mro():
            for st in c.node.body:
                if isinstance(st, ast.Assign):
                    for t in st.targets:
                        if isinstance(t, ast.Name) and t.id == name:
                            return c, st.value
                elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name) and st.target.id == name and st.value is not None:
                    return c, st.value
        return None

    def has_external_base(self):
        for c in self.mro():
            for b in c.node.bases:
                r = self.mod.proj.resolve_expr(c.mod, b)
                if not isinstance(r, ClassInfo):
                    d = dotted(b)
                    if d != "object":
                        return True
        return False


class Ext:
    """A name outside the project, e.g. numpy.transpose."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, Ext) and o.name == self.name

    def __hash__(self):
        return hash(("Ext", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class Global:
    """A module-level assignment."""
    __slots__ = ("mod", "name")

    def __init__(self, mod, name):
        self.mod = mod
        self.name = name

    def __repr__(self):
        return "Global(%s.%s)" % (self.mod.name, self.name)


def dotted(e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        parts.append(e.id)
        return ".".join(reversed(parts))
    return None


class Project:
    def __init__(self, root=None, packages=("tf2onnx",), fixtures=()):
        """fixtures: names of files in /verif/fixtures loaded as modules tf2onnx.vf_fixture_<name> (rule self tests)"""
        self.root = root or REPO
        self.modules = {}
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        for f in fixtures:
            name = "tf2onnx.vf_fixture_" + f
            self.modules[name] = Module(self, name, os.path.join(here, "fixtures", f + ".py"), False)
        for pkg in packages:
            base = os.path.join(self.root, pkg)
            if not os.path.isdir(base):
                raise AnalysisBroken("package directory %s not found" % base)
            for dp, dn, fn in os.walk(base):
                dn[:] = sorted(d for d in dn if d != "__pycache__")
                for f in sorted(fn):
                    if f.endswith(".py"):
                        p = os.path.join(dp, f)
                        rel = os.path.relpath(p, self.root)[:-3].replace(os.sep, ".")
                        is_pkg = rel.endswith(".__init__")
                        if is_pkg:
                            rel = rel[:-9]
                        self.modules[rel] = Module(self, rel, p, is_pkg)

    def mod(self, name):
        if name not in self.modules:
            raise AnalysisBroken("module %s not found" % name)
        return self.modules[name]

    def func(self, modname, qual):
        m = self.mod(modname)
        if qual not in m.functions:
            raise AnalysisBroken("function %s:%s not found" % (modname, qual))
        return m.functions[qual]

    def cls(self, modname, qual):
        m = self.mod(modname)
        if qual not in m.classes:
            raise AnalysisBroken("class %s:%s not found" % (modname, qual))
        return m.classes[qual]

    def member(self, modname, name, seen=()):
        """Resolve attribute `name` of project module `modname`; None if it does not exist."""
        m = self.modules[modname]
        if (modname, name) in seen:
            return None
        if name in m.defs:
            d = m.defs[name][-1]
            if isinstance(d, tuple):
                if d[0] == "mod":
                    return self.modules.get(d[1]) or Ext(d[1])
                base, nm = d[1], d[2]
                if nm == "*":
                    return None
                if base in self.modules:
                    r = self.member(base, nm, seen + ((modname, name),))
                    if r is not None:
                        return r
                    sub = base + "." + nm
                    if sub in self.modules:
                        return self.modules[sub]
                    return None
                sub = base + "." + nm
                if sub in self.modules:
                    return self.modules[sub]
                return Ext(base + "." + nm)
            if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return getattr(d, "_finfo", None)
            if isinstance(d, ast.ClassDef):
                return getattr(d, "_cinfo", None)
            return Global(m, name)
        sub = modname + "." + name
        if sub in self.modules:
            return self.modules[sub]
        for d in m.defs.get("*", []):
            if d[0] == "from" and d[1] in self.modules:
                r = self.member(d[1], name, seen + ((modname, name),))
                if r is not None:
                    return r
        return None

    def resolve_expr(self, mod, e):
        """Resolve a Name/Attribute chain at module scope. Returns Module/FuncInfo/ClassInfo/Global/Ext or None."""
        if isinstance(e, ast.Name):
            r = self.member(mod.name, e.id)
            if r is None and hasattr(builtins, e.id):
                return Ext("builtins." + e.id)
            return r
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(mod, e.value)
            if isinstance(b, Module):
                return self.member(b.name, e.attr)
            if isinstance(b, Ext):
                full = b.name + "." + e.attr
                return self.modules.get(full) or Ext(full)
            if isinstance(b, ClassInfo):
                return b.find(e.attr)
        return None

    def all_functions(self, skip=("tf2onnx.tflite",), fixtures=False):
        """functions of the package (or those of the fixtures)"""
        for mn in sorted(self.modules):
            if any(mn == s or mn.startswith(s + ".") for s in skip) or is_fixture(self.modules[mn]) != fixtures:
                continue
            m = self.modules[mn]
            for q in m.functions:
                yield m.functions[q]


def is_fixture(mod):
    return mod.name.startswith("tf2onnx.vf_fixture_")


def loc(mod, node):
    return "%s:%d" % (mod.rel, getattr(node, "lineno", 0))
