"""Where the value of an expression can come from: a def-use closure over the locals of a function, followed into the callers for parameters."""
import ast

from .project import walk_own


class Scope:
    """what a function assigns to each of its names"""

    def __init__(self, fi):
        self.fi = fi
        self.defs = {}          # name -> [(expression, how)]
        a = fi.node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in walk_own(fi.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(t, n.value)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)) and n.value is not None:
                self.bind(n.target, n.value)
            elif isinstance(n, (ast.For, ast.AsyncFor)):
                self.bind(n.target, n.iter, "elem")
            elif isinstance(n, ast.comprehension):
                self.bind(n.target, n.iter, "elem")
            elif isinstance(n, ast.With):
                for i in n.items:
                    if i.optional_vars is not None:
                        self.bind(i.optional_vars, i.context_expr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.attr in ("append", "extend", "update", "add", "insert", "setdefault"):
                for x in list(n.args) + [k.value for k in n.keywords]:
                    self.defs.setdefault(n.func.value.id, []).append((x, "part"))

    def bind(self, t, v, how=""):
        if isinstance(t, (ast.Tuple, ast.List)):
            vs = v.elts if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts) and how == "" else None
            for i, x in enumerate(t.elts):
                self.bind(x, vs[i] if vs else v, how if vs else (how or "part"))
        elif isinstance(t, ast.Starred):
            self.bind(t.value, v, "part")
        elif isinstance(t, ast.Name):
            self.defs.setdefault(t.id, []).append((v, how))
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            b = t.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name) and isinstance(t, ast.Subscript):
                self.defs.setdefault(b.id, []).append((v, "part"))

    def single(self, e, depth=0):
        """an expression with locals assigned once replaced by what they are assigned"""
        while isinstance(e, ast.Name) and depth < 10 and e.id not in self.params and len(self.defs.get(e.id, ())) == 1 and self.defs[e.id][0][1] == "":
            e = self.defs[e.id][0][0]
            depth += 1
        return e

    def mentions(self, e, depth=0, seen=None):
        """every expression node the value of e may be computed from"""
        seen = set() if seen is None else seen
        for n in ast.walk(e):
            if id(n) in seen:
                continue
            seen.add(id(n))
            yield n
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and ("name", n.id) not in seen:
                seen.add(("name", n.id))
                for v, _ in self.defs.get(n.id, ()):
                    yield from self.mentions(v, depth + 1, seen)


class Ctx:
    """a function as called from one of its call sites (links: parameter -> (Ctx of the caller, argument)), or on its own"""

    def __init__(self, scope, links=None):
        self.s = scope
        self.links = links or {}

    def single(self, e):
        """-> (Ctx, expression) the value stands for, through locals assigned once and parameters of a known caller"""
        c = self
        for _ in range(12):
            e2 = c.s.single(e)
            if isinstance(e2, ast.Name) and e2.id in c.links and not c.s.defs.get(e2.id):
                c, e = c.links[e2.id]
                continue
            return c, e2
        return c, e

    def mentions(self, e):
        for n in self.s.mentions(e):
            yield self, n
            if isinstance(n, ast.Name) and n.id in self.links:
                c, x = self.links[n.id]
                yield from c.mentions(x)

    def base(self, e):
        """a key for the object an expression denotes"""
        c, e = self.single(e)
        if isinstance(e, ast.Attribute) and e.attr in ("op", "_op"):
            return c.base(e.value)      # the proto of a node stands for the node
        return (c.s.fi.full, ast.dump(e))


class Calls:
    """call sites by the name of what is called"""

    def __init__(self, proj, fixtures):
        self.by = {}
        self.scopes = {}
        for fi in proj.all_functions(fixtures=fixtures):
            for n in walk_own(fi.node):
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm:
                        self.by.setdefault(nm, []).append((fi, n))

    def scope(self, fi):
        if fi.full not in self.scopes:
            self.scopes[fi.full] = Scope(fi)
        return self.scopes[fi.full]

    def contexts(self, fi, depth=2):
        """the function on its own and from each of its callers"""
        yield Ctx(self.scope(fi))
        if depth == 0:
            return
        a = fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if fi.cls is not None and "staticmethod" not in fi.decos:
            ps = ps[1:]
        for cf, call in self.by.get(fi.node.name, ()):
            if cf is fi or any(isinstance(x, ast.Starred) for x in call.args):
                continue
            for up in self.contexts(cf, depth - 1):
                links = {p: (up, x) for p, x in zip(ps, call.args)}
                links.update({k.arg: (up, k.value) for k in call.keywords if k.arg})
                if a.kwarg is not None:
                    rest = [k for k in call.keywords if k.arg not in ps and k.arg not in [x.arg for x in a.kwonlyargs]]
                    links[a.kwarg.arg] = (up, ast.Dict(keys=[ast.Constant(k.arg) if k.arg else None for k in rest], values=[k.value for k in rest]))
                yield Ctx(self.scope(fi), links)
