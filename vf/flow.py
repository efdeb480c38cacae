"""Whole-program value flow over the repository's source.

`Defs`   reaching definitions of local variables (flow sensitive, per function).
`Flow`   which objects (instances of project classes, functions, classes, modules, containers by allocation site, values of Python
         types, labelled inputs) every expression may evaluate to: an inclusion-based analysis, context insensitive, with locals made
         flow sensitive through `Defs`.
"""
import ast
import builtins
from collections import deque

from .project import FuncInfo, ClassInfo, Module, Ext, Global, walk_own

UNBOUND = "unbound"
E = frozenset()


# ------------------------------------------------------------------------------------------------ reaching definitions
class Defs:
    """loads: Name node -> frozenset of definitions (Name/arg/alias/def nodes, or UNBOUND); only for names local to the function"""

    def __init__(self, fn):
        self.fn = fn
        self.loads = {}
        self.locals = set()
        self.defs_of = {}
        self.outer = set()          # global / nonlocal
        self.scan()
        env = {v: frozenset([UNBOUND]) for v in self.locals}
        args = getattr(fn, "args", None)
        if args is not None:
            for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
                env[a.arg] = frozenset([a])
        self.brk, self.cont, self.exc = [], [], []
        if isinstance(fn, ast.Lambda):
            self.expr(fn.body, env)
        else:
            self.block(fn.body, env)

    def local(self, name, node):
        if name in self.outer:
            return
        self.locals.add(name)
        self.defs_of.setdefault(name, []).append(node)

    def scan(self):
        fn = self.fn
        if not isinstance(fn, ast.Lambda):
            for n in walk_own(fn):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    self.outer.update(n.names)
        args = getattr(fn, "args", None)
        if args is not None:
            for a in args.posonlyargs + args.args + args.kwonlyargs + [x for x in (args.vararg, args.kwarg) if x]:
                self.local(a.arg, a)

        def rec(n, comp):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                    self.local(ch.name, ch)
                    for d in ch.decorator_list:
                        rec(d, comp)
                    continue
                if isinstance(ch, ast.Lambda):
                    continue
                if isinstance(ch, ast.Name) and isinstance(ch.ctx, (ast.Store, ast.Del)) and not comp:
                    self.local(ch.id, ch)
                elif isinstance(ch, (ast.Import, ast.ImportFrom)):
                    for a in ch.names:
                        self.local(a.asname or a.name.split(".")[0], a)
                elif isinstance(ch, ast.ExceptHandler) and ch.name:
                    self.local(ch.name, ch)
                if isinstance(ch, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    rec(ch, True)
                elif isinstance(ch, ast.NamedExpr):
                    self.local(ch.target.id, ch.target)
                    rec(ch.value, comp)
                else:
                    rec(ch, comp)
        if isinstance(fn, ast.Lambda):
            rec(ast.Expr(fn.body), False)
        else:
            for st in fn.body:
                rec(ast.Module([st], []), False)

    # env is None when the point is unreachable
    @staticmethod
    def join(a, b):
        if a is None:
            return b
        if b is None:
            return a
        return {k: a.get(k, E) | b.get(k, E) for k in set(a) | set(b)}

    def bind(self, t, env):
        """targets of assignments, in place"""
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                if n.id in self.locals:
                    env[n.id] = frozenset([n])
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.load(n, env)

    def load(self, n, env):
        if n.id in self.locals:
            self.loads[n] = self.loads.get(n, E) | env.get(n.id, E)

    def expr(self, e, env, own=frozenset()):
        if e is None or env is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in own:
                self.load(e, env)
        elif isinstance(e, ast.Lambda):
            for d in e.args.defaults + [x for x in e.args.kw_defaults if x]:
                self.expr(d, env, own)
        elif isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            o = set(own)
            for g in e.generators:
                self.expr(g.iter, env, frozenset(o))
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        o.add(n.id)
                for c in g.ifs:
                    self.expr(c, env, frozenset(o))
            o = frozenset(o)
            if isinstance(e, ast.DictComp):
                self.expr(e.key, env, o)
                self.expr(e.value, env, o)
            else:
                self.expr(e.elt, env, o)
        elif isinstance(e, ast.NamedExpr):
            self.expr(e.value, env, own)
            if e.target.id in self.locals:
                env[e.target.id] = frozenset([e.target])
        else:
            for ch in ast.iter_child_nodes(e):
                if isinstance(ch, (ast.expr, ast.keyword, ast.Slice, ast.FormattedValue)):
                    self.expr(ch.value if isinstance(ch, ast.keyword) else ch, env, own)

    def block(self, body, env):
        for st in body:
            if env is None:
                break
            env = self.stmt(st, env)
        return env

    def note_exc(self, env):
        if self.exc and env is not None:
            self.exc[-1] = self.join(self.exc[-1], env)

    def stmt(self, st, env):
        self.note_exc(env)
        env = dict(env)
        if isinstance(st, ast.Assign):
            self.expr(st.value, env)
            for t in st.targets:
                self.bind(t, env)
        elif isinstance(st, ast.AugAssign):
            self.expr(st.value, env)
            if isinstance(st.target, ast.Name):
                if st.target.id in self.locals:
                    self.loads[st.target] = self.loads.get(st.target, E) | env.get(st.target.id, E)
                    env[st.target.id] = frozenset([st.target])
            else:
                self.expr(st.target, env)
        elif isinstance(st, ast.AnnAssign):
            self.expr(st.value, env)
            if st.value is not None:
                self.bind(st.target, env)
        elif isinstance(st, ast.If):
            self.expr(st.test, env)
            a = self.block(st.body, dict(env)) if not self.const(st.test) is False else None
            b = self.block(st.orelse, dict(env)) if not self.const(st.test) is True else None
            env = self.join(a, b)
        elif isinstance(st, (ast.For, ast.AsyncFor, ast.While)):
            env = self.loop(st, env)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                self.expr(it.context_expr, env)
                if it.optional_vars is not None:
                    self.bind(it.optional_vars, env)
            env = self.block(st.body, env)
        elif isinstance(st, ast.Try):
            env = self.try_(st, env)
        elif isinstance(st, ast.Return):
            self.expr(st.value, env)
            return None
        elif isinstance(st, ast.Raise):
            self.expr(st.exc, env)
            self.expr(st.cause, env)
            return None
        elif isinstance(st, ast.Break):
            self.brk[-1] = self.join(self.brk[-1], env)
            return None
        elif isinstance(st, ast.Continue):
            self.cont[-1] = self.join(self.cont[-1], env)
            return None
        elif isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in st.decorator_list:
                self.expr(d, env)
            if not isinstance(st, ast.ClassDef):
                for d in st.args.defaults + [x for x in st.args.kw_defaults if x]:
                    self.expr(d, env)
            if st.name in self.locals:
                env[st.name] = frozenset([st])
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            for a in st.names:
                nm = a.asname or a.name.split(".")[0]
                if nm in self.locals:
                    env[nm] = frozenset([a])
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    if t.id in self.locals:
                        env[t.id] = frozenset([UNBOUND])
                else:
                    self.expr(t, env)
        elif isinstance(st, ast.Expr):
            self.expr(st.value, env)
        elif isinstance(st, ast.Assert):
            self.expr(st.test, env)
            self.expr(st.msg, dict(env))
            if self.const(st.test) is False:
                return None
        elif isinstance(st, (ast.Global, ast.Nonlocal, ast.Pass)):
            pass
        else:
            for ch in ast.iter_child_nodes(st):
                if isinstance(ch, ast.expr):
                    self.expr(ch, env)
        self.note_exc(env)
        return env

    @staticmethod
    def const(t):
        if isinstance(t, ast.Constant):
            return bool(t.value)
        return None

    def loop(self, st, env):
        if isinstance(st, ast.While):
            pass
        else:
            self.expr(st.iter, env)
        out = None
        entry = env
        for _ in range(20):
            e = dict(entry)
            if isinstance(st, ast.While):
                self.expr(st.test, e)
            done = None if isinstance(st, ast.While) and self.const(st.test) is True else dict(e)
            if not isinstance(st, ast.While):
                self.bind(st.target, e)
            self.brk.append(None)
            self.cont.append(None)
            end = self.block(st.body, e)
            b, c = self.brk.pop(), self.cont.pop()
            end = self.join(end, c)
            if done is not None and st.orelse:
                done = self.block(st.orelse, done)
            out = self.join(out, self.join(done, b))
            new = self.join(entry, end)
            if new == entry:
                break
            entry = new
        return out

    def try_(self, st, env):
        self.exc.append(dict(env))
        a = self.block(st.body, dict(env))
        at = self.exc.pop()
        if a is not None and st.orelse:
            a = self.block(st.orelse, a)
        out = a
        for h in st.handlers:
            e = dict(at)
            self.expr(h.type, e)
            if h.name and h.name in self.locals:
                e[h.name] = frozenset([h])
            e = self.block(h.body, e)
            if e is not None and h.name and h.name in self.locals:
                e[h.name] = frozenset([UNBOUND])
            out = self.join(out, e)
        if st.finalbody:
            # also entered on exceptions and returns: its loads see any of the states
            self.block(st.finalbody, self.join(dict(at), out))
            if out is not None:
                out = self.block(st.finalbody, out)
        self.note_exc(at)
        return out


# ------------------------------------------------------------------------------------------------ value flow
UNK = ("?",)
NONEV = ("py", "NoneType")
PYT = {"str": str, "int": int, "float": float, "bool": bool, "bytes": bytes, "NoneType": type(None), "list": list, "dict": dict, "set": set,
       "tuple": tuple, "slice": slice, "ellipsis": type(...), "complex": complex}


def py(name):
    return ("py", name)


class Scope:
    """a function, lambda, class body or module body whose code is evaluated"""
    __slots__ = ("mod", "node", "fi", "parent", "defs", "key")

    def __init__(self, mod, node, fi, parent):
        self.mod, self.node, self.fi, self.parent = mod, node, fi, parent
        self.defs = Defs(node) if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)) else None
        self.key = (mod.name, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__)

    def name(self):
        if self.fi is not None:
            return self.fi.qual
        return self.parent.name() + ".<lambda>" if isinstance(self.node, ast.Lambda) and self.parent else "<module>"


class Flow:
    """objects:
    ("inst", ClassInfo) ("func", node) ("bound", obj, FuncInfo) ("cls", ClassInfo) ("mod", Module) ("ext", dotted) ("extinst", dotted)
    ("list"|"dict"|"set"|"tuple", site) ("py", type) ("label", x) ("super", ClassInfo, obj) ("builtin", obj, method) ("?",)"""

    def __init__(self, proj, skip=("tf2onnx.tflite",), seeds=None, follow_labels=False):
        self.proj = proj
        self.pts = {}
        self.full = set()
        self.readers = {}
        self.scopes = {}
        self.queue = deque()
        self.queued = set()
        self.cur = None
        self.seeds = seeds or {}
        self.taint = follow_labels
        self.client = None          # in the last pass: object with optional methods attr/call/mutate
        self.called = set()
        self.mods = [m for n, m in sorted(proj.modules.items()) if not any(n == s or n.startswith(s + ".") for s in skip)]
        self.modset = set(self.mods)
        self.method_names = {}
        for m in self.mods:
            self.add_scopes(m, m.tree, None)
        for s in list(self.scopes.values()):
            self.push(s)
        for (fi, param), objs in self.seeds.items():
            self.add(("d", self.arg(fi, param)), objs)

    # ---- scopes
    def add_scopes(self, mod, tree, parent):
        s = Scope(mod, tree, getattr(tree, "_finfo", None), parent)
        self.scopes[tree] = s

        def rec(n, par):
            for ch in ast.iter_child_nodes(n):
                if isinstance(ch, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                    s2 = Scope(mod, ch, getattr(ch, "_finfo", None), par)
                    self.scopes[ch] = s2
                    rec(ch, s2)
                else:
                    rec(ch, par)
        rec(tree, s)

    def arg(self, fi, param):
        a = fi.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]:
            if x.arg == param:
                return x
        return None

    def push(self, s):
        if s.node not in self.queued:
            self.queued.add(s.node)
            self.queue.append(s)

    # ---- points-to sets
    def get(self, key):
        if self.cur is not None:
            self.readers.setdefault(key, set()).add(self.cur.node)
        return self.pts.get(key, E)

    def add(self, key, objs):
        if not objs:
            return
        old = self.pts.get(key, E)
        if key in self.full:
            objs = frozenset(o for o in objs if o[0] in ("label", "inst"))
        new = old | objs
        if len(new) != len(old):
            if len(new) > 60 and key[0] not in ("ks", "k"):           # too many to be of use
                self.full.add(key)
                new = frozenset(o for o in new if o[0] in ("label", "inst")) | {UNK}
                if new == old:
                    return
            self.pts[key] = new
            for r in self.readers.get(key, ()):
                self.push(self.scopes[r])

    def run(self, limit=60000):
        n = 0
        while self.queue:
            s = self.queue.popleft()
            self.queued.discard(s.node)
            self.eval_scope(s)
            n += 1
            if n > limit:
                raise RuntimeError("value flow does not settle")
        # parameters of what nobody in the project calls are unknown
        again = False
        for s in list(self.scopes.values()):
            if s.fi is None and not isinstance(s.node, ast.Lambda):
                continue
            if s.node not in self.called:
                a = s.node.args
                params = a.posonlyargs + a.args + a.kwonlyargs
                for i, x in enumerate(params):
                    if i == 0 and s.fi is not None and s.fi.cls is not None and s.fi.kind != "static":
                        continue
                    k = ("d", x)
                    if not self.pts.get(k):
                        self.add(k, frozenset([UNK]))
                        again = True
        self.evals = n
        if again or self.queue:
            return self.run(limit)
        return n

    def report(self, client):
        self.client = client
        for s in list(self.scopes.values()):
            self.eval_scope(s)
        self.client = None

    # ---- scopes evaluation
    def eval_scope(self, s):
        saved, self.cur = self.cur, s
        try:
            n = s.node
            if isinstance(n, ast.Lambda):
                self.add(("r", n), self.ev(n.body))
            elif isinstance(n, ast.Module):
                self.stmts(n.body)
            else:
                a = n.args
                if s.fi is not None and s.fi.cls is not None and a.args:
                    first = ("d", (a.posonlyargs + a.args)[0])
                    if s.fi.kind == "class":
                        self.add(first, frozenset([("cls", s.fi.cls)]))
                    elif s.fi.kind in ("inst", "property"):
                        self.add(first, frozenset([("inst", s.fi.cls)]))
                params = a.posonlyargs + a.args
                for x, d in zip(params[len(params) - len(a.defaults):], a.defaults):
                    self.add(("d", x), self.ev(d))
                for x, d in zip(a.kwonlyargs, a.kw_defaults):
                    if d is not None:
                        self.add(("d", x), self.ev(d))
                if a.vararg:
                    self.add(("d", a.vararg), frozenset([("tuple", a.vararg)]))
                if a.kwarg:
                    self.add(("d", a.kwarg), frozenset([("dict", a.kwarg)]))
                self.stmts(n.body)
        finally:
            self.cur = saved

    def stmts(self, body):
        for st in body:
            self.stmt(st)

    def stmt(self, st):
        if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in st.decorator_list:
                self.deco(d, st)
            fi = getattr(st, "_finfo", None)
            wrapped = fi is not None and any(d not in ("staticmethod", "classmethod", "property", "contextmanager") for d in fi.decos)
            self.store_name(st.name, st, frozenset([("func", st)] + ([UNK] if wrapped else [])))
        elif isinstance(st, ast.ClassDef):
            for b in st.bases + [k.value for k in st.keywords] + st.decorator_list:
                self.ev(b)
            ci = getattr(st, "_cinfo", None)
            if ci is not None:
                self.store_name(st.name, st, frozenset([("cls", ci)]))
                for x in st.body:
                    if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        for d in x.decorator_list:
                            self.deco(d, x)
                        continue
                    if isinstance(x, ast.Assign):
                        v = self.ev(x.value)
                        for t in x.targets:
                            if isinstance(t, ast.Name):
                                self.add(("f", ("cls", ci), t.id), v)
                    elif isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name) and x.value is not None:
                        self.add(("f", ("cls", ci), x.target.id), self.ev(x.value))
                    elif not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        self.stmt(x)
        elif isinstance(st, ast.Assign):
            v = self.ev(st.value)
            for t in st.targets:
                self.assign(t, v)
        elif isinstance(st, ast.AugAssign):
            v = self.ev(st.value)
            if isinstance(st.target, ast.Name):
                cur = self.name(st.target)
                self.inplace(cur, v, st)
                if isinstance(st.op, ast.Mod):
                    r = self.binop(cur, v, st)
                else:
                    r = cur | v if any(o[0] in ("list", "set", "dict", "tuple") for o in cur) else self.binop(cur, v, st)
                self.assign(st.target, r)
            else:
                cur = self.ev(st.target, load=True)
                self.inplace(cur, v, st)
                self.assign(st.target, self.binop(cur, v, st) | frozenset(o for o in cur | v if o[0] in ("list", "set", "dict", "tuple")))
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                self.assign(st.target, self.ev(st.value))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = self.ev(st.iter)
            self.assign(st.target, self.elems(it))
            self.stmts(st.body)
            self.stmts(st.orelse)
        elif isinstance(st, ast.While):
            self.ev(st.test)
            self.stmts(st.body)
            self.stmts(st.orelse)
        elif isinstance(st, ast.If):
            self.ev(st.test)
            self.stmts(st.body)
            self.stmts(st.orelse)
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for it in st.items:
                v = self.ev(it.context_expr)
                if it.optional_vars is not None:
                    r = set()
                    for o in v:
                        if o[0] == "inst":
                            fi = o[1].find("__enter__")
                            r |= self.call_func(("bound", o, fi), [], {}, it.context_expr) if fi else {UNK}
                        elif o[0] in ("list", "set") :      # a generator used as a context manager
                            r |= self.elems(frozenset([o]))
                        else:
                            r.add(o)
                    self.assign(it.optional_vars, frozenset(r))
            self.stmts(st.body)
        elif isinstance(st, ast.Try):
            self.stmts(st.body)
            for h in st.handlers:
                if h.type is not None:
                    self.ev(h.type)
                if h.name:
                    self.store_name(h.name, h, frozenset([("extinst", "builtins.Exception")]))
                self.stmts(h.body)
            self.stmts(st.orelse)
            self.stmts(st.finalbody)
        elif isinstance(st, ast.Return):
            v = self.ev(st.value) if st.value is not None else frozenset([NONEV])
            if self.client is not None and hasattr(self.client, "ret"):
                self.client.ret(self, st, v)
            self.add(("r", self.cur.node), v)
        elif isinstance(st, ast.Expr):
            self.ev(st.value)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(self.ev(t.value), "del", t)
                    self.ev(t.slice)
                elif isinstance(t, ast.Attribute):
                    self.mutate(self.ev(t.value), "del ." + t.attr, t)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            base = self.cur.mod._abs(st) if isinstance(st, ast.ImportFrom) else None
            for a in st.names:
                nm = a.asname or a.name.split(".")[0]
                if base is None:
                    full = a.name if a.asname else a.name.split(".")[0]
                    v = ("mod", self.proj.modules[full]) if full in self.proj.modules else ("ext", full)
                else:
                    if a.name == "*":
                        continue
                    v = None
                    if base in self.proj.modules:
                        r = self.proj.member(base, a.name)
                        if r is None:
                            v = UNK
                        else:
                            self.store_name(nm, a, self.wrap(r))
                            continue
                    else:
                        v = ("ext", base + "." + a.name)
                self.store_name(nm, a, frozenset([v]))
        elif isinstance(st, ast.Raise):
            for e in (st.exc, st.cause):
                if e is not None:
                    self.ev(e)
        elif isinstance(st, ast.Assert):
            self.ev(st.test)
            if st.msg is not None:
                self.ev(st.msg)

    def deco(self, d, fn):
        if not (isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter")):
            for o in self.ev(d):
                if o[0] in ("func", "bound"):
                    self.call(o, [frozenset([("func", fn)])], {}, d)

    def inplace(self, cur, v, st):
        tgt = frozenset(o for o in cur if o[0] in ("list", "set", "dict", "label"))
        if tgt:
            self.mutate(tgt, "augmented assignment", st)
            for o in tgt:
                if o[0] != "label":
                    self.add(("e", o), self.elems(v))

    def store_name(self, name, node, v):
        s = self.cur
        d = s.defs
        if d is not None and name in d.locals:
            self.add(("d", node), v)
        elif d is not None and name in d.outer and s.parent is not None and self.enclosing(s.parent, name) is not None:
            self.add(("v", self.enclosing(s.parent, name).node, name), v)
        else:
            self.add(("g", s.mod, name), v)

    def enclosing(self, s, name):
        while s is not None and s.defs is not None:
            if name in s.defs.locals:
                return s
            s = s.parent
        return None

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            if getattr(t, "_comp", None):
                self.add(("d", t), v)
            else:
                self.store_name(t.id, t, v)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            if self.client is not None and hasattr(self.client, "setattr"):
                self.client.setattr(self, t, b, v)
            for o in b:
                if o[0] in ("inst", "cls", "extinst", "func"):
                    self.add(("f", o, t.attr), v)
                elif o[0] == "mod":
                    self.add(("g", o[1], t.attr), v)
            self.mutate(b, "." + t.attr + " =", t)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            self.ev(t.slice)
            k = self.ev(t.slice) if not isinstance(t.slice, ast.Slice) else E
            for o in b:
                if o[0] == "dict":
                    self.dput(o, self.ckey(t.slice), v)
                    self.add(("k", o), k)
                elif o[0] in ("list", "set", "tuple"):
                    self.add(("e", o), v if not isinstance(t.slice, ast.Slice) else self.elems(v))
                elif o[0] == "inst":
                    fi = o[1].find("__setitem__")
                    if fi:
                        self.call_func(("bound", o, fi), [k, v], {}, t)
                    else:
                        self.add(("e", o), v)
            self.mutate(b, "[] =", t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = next((i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)), None)
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    o = ("list", x)
                    self.add(("e", o), self.elems(v))
                    self.assign(x.value, frozenset([o]))
                else:
                    self.assign(x, self.item(v, i if star is None or i < star else None))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)

    # dictionaries: values under constant string keys are kept apart
    def dput(self, o, key, v):
        if not v:
            return
        if isinstance(key, str):
            self.add(("ks", o), frozenset([key]))
            self.add(("fk", o, key), v)
        else:
            self.add(("e", o), v)

    def dall(self, o):
        out = set(self.get(("e", o)))
        for k in self.get(("ks", o)):
            out |= self.get(("fk", o, k))
        return frozenset(out)

    def dget(self, o, key):
        if isinstance(key, str):
            return self.get(("fk", o, key)) | self.get(("e", o))
        return self.dall(o)

    def dcopy(self, n, o):
        self.add(("k", n), self.get(("k", o)))
        self.add(("e", n), self.get(("e", o)))
        for k in self.get(("ks", o)):
            self.dput(n, k, self.get(("fk", o, k)))

    @staticmethod
    def ckey(e):
        return e.value if isinstance(e, ast.Constant) and isinstance(e.value, str) else None

    def item(self, v, i):
        out = set()
        for o in v:
            if o[0] == "tuple" and i is not None and ("fi", o, i) in self.pts:
                out |= self.get(("fi", o, i))
            else:
                if o[0] == "tuple" and i is not None:
                    self.get(("fi", o, i))
                out |= self.elems(frozenset([o]))
        return frozenset(out)

    def elems(self, v):
        out = set()
        for o in v:
            if o[0] in ("list", "set", "tuple"):
                out |= self.get(("e", o))
                if o[0] == "tuple":
                    for i in range(8):
                        out |= self.get(("fi", o, i))
            elif o[0] == "dict":
                out |= self.get(("k", o))
            elif o[0] == "label":
                out.add(o)
            elif o == py("str"):
                out.add(o)
            elif o[0] == "py":
                pass
            elif o[0] == "inst":
                fi = o[1].find("__iter__")
                if fi:
                    out |= self.elems(self.call_func(("bound", o, fi), [], {}, fi.node))
                else:
                    out.add(UNK)
            else:
                out.add(UNK)
        return frozenset(out)

    # ---- expressions
    def ev(self, e, load=False):
        m = getattr(self, "x_" + type(e).__name__, None)
        if m is not None:
            return m(e)
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, ast.expr):
                self.ev(ch)
        return frozenset([UNK])

    def x_Constant(self, e):
        return frozenset([py(type(e.value).__name__)])

    def x_JoinedStr(self, e):
        out = set()
        for v in e.values:
            if isinstance(v, ast.FormattedValue):
                out |= {o for o in self.ev(v.value) if o[0] == "label"}
        return frozenset(out | {py("str")})

    def x_Name(self, e):
        return self.name(e)

    def name(self, e):
        s = self.cur
        first = True
        c = getattr(e, "_comp", None)
        if c is not None:
            out = set()
            for t in c:
                out |= self.get(("d", t))
            return frozenset(out)
        while s is not None and s.defs is not None:
            d = s.defs
            if e.id in d.locals:
                out = set()
                if first:
                    for x in d.loads.get(e, E):
                        if x is not UNBOUND:
                            out |= self.get(("d", x))
                    out |= self.get(("v", s.node, e.id))
                else:
                    for x in d.defs_of.get(e.id, ()):
                        out |= self.get(("d", x))
                    out |= self.get(("v", s.node, e.id))
                return frozenset(out)
            if e.id in d.outer and s.parent is not None and self.enclosing(s.parent, e.id) is None:
                break
            s = s.parent
            first = False
        return self.global_name(self.cur.mod, e.id)

    def global_name(self, mod, name, seen=()):
        v = self.get(("g", mod, name))
        r = self.proj.member(mod.name, name)
        if isinstance(r, Global):
            v = v | self.get(("g", r.mod, r.name))
            if r.mod not in self.modset:
                v = v | frozenset([UNK])
            return v
        if r is None:
            if v:
                return v
            if hasattr(builtins, name):
                return frozenset([("ext", "builtins." + name)])
            if name == "__name__" or name == "__file__" or name == "__doc__":
                return frozenset([py("str")])
            if self.client is not None and hasattr(self.client, "undefined"):
                self.client.undefined(self, mod, name)
            return frozenset([UNK])
        return v | self.wrap(r)

    def wrap(self, r):
        if isinstance(r, FuncInfo):
            return frozenset([("func", r.node)])
        if isinstance(r, ClassInfo):
            return frozenset([("cls", r)])
        if isinstance(r, Module):
            return frozenset([("mod", r)])
        if isinstance(r, Ext):
            return frozenset([("ext", r.name)])
        if isinstance(r, Global):
            return self.get(("g", r.mod, r.name)) | (frozenset([UNK]) if r.mod not in self.modset else E)
        return frozenset([UNK])

    def x_Attribute(self, e):
        b = self.ev(e.value)
        if self.client is not None and hasattr(self.client, "attr"):
            self.client.attr(self, e, b)
        out = set()
        for o in b:
            out |= self.attr_of(o, e.attr, e)
        return frozenset(out)

    def attr_of(self, o, name, e):
        k = o[0]
        if k == "inst":
            return self.inst_attr(o, o[1], name, e)
        if k == "cls":
            ci = o[1]
            fi = ci.find(name)
            if fi is not None:
                return frozenset([("bound", o, fi)]) if fi.kind == "class" else frozenset([("func", fi.node)])
            out = set()
            for c in ci.mro():
                out |= self.get(("f", ("cls", c), name))
            if not out and ci.has_external_base():
                out.add(UNK)
            return out
        if k == "mod":
            r = self.proj.member(o[1].name, name)
            v = self.get(("g", o[1], name)) if o[1] in self.modset else E
            if r is None:
                return v or frozenset([UNK])
            return v | self.wrap(r)
        if k == "ext":
            full = o[1] + "." + name
            if full in self.proj.modules:
                return frozenset([("mod", self.proj.modules[full])])
            return frozenset([("ext", full)]) if full.count(".") < 7 else frozenset([UNK])
        if k == "label":
            return frozenset([("builtin", o, name)]) | (frozenset([("label", o[1] + "." + name)]) if self.is_ns(o) else frozenset([o]))
        if k in ("list", "dict", "set", "tuple", "py"):
            t = PYT.get(o[1] if k == "py" else k)
            return frozenset([("builtin", o, name)]) if t is None or hasattr(t, name) else E
        if k == "super":
            for c in o[1].mro()[1:]:
                if name in c.methods:
                    return frozenset([("bound", o[2], c.methods[name])])
            return frozenset([UNK])
        if k == "extinst":
            v = self.get(("f", o, name))
            return v or frozenset([("builtin", o, name)])
        if k == "func":
            return self.get(("f", o, name)) or frozenset([UNK])
        return frozenset([UNK])

    def is_ns(self, o):
        """labels whose attributes are labels of their own (argparse namespaces)"""
        return o[1].endswith("*")

    def inst_attr(self, o, ci, name, e):
        fi = ci.find(name)
        out = set(self.get(("f", o, name)))
        for c in ci.mro():
            out |= self.get(("f", ("cls", c), name))
            if c is not ci:
                pass
        if fi is not None:
            if fi.kind == "property":
                out |= self.call_func(("bound", o, fi), [], {}, e)
            elif fi.kind == "static":
                out.add(("func", fi.node))
            elif fi.kind == "class":
                out.add(("bound", ("cls", ci), fi))
            else:
                out.add(("bound", o, fi))
        if not out and (ci.has_external_base() or ci.find("__getattr__")):
            out.add(UNK)
        return out

    def x_Subscript(self, e):
        b = self.ev(e.value)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None:
                    self.ev(x)
            out = set()
            for o in b:
                if o[0] in ("list", "tuple"):
                    n = (o[0], e)
                    self.add(("e", n), self.elems(frozenset([o])))
                    out.add(n)
                elif o[0] in ("label", "py"):
                    out.add(o)
                else:
                    out.add(UNK)
            return frozenset(out)
        k = self.ev(e.slice)
        idx = e.slice.value if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) else None
        out = set()
        for o in b:
            if o[0] == "dict":
                out |= self.dget(o, self.ckey(e.slice))
            elif o[0] == "tuple":
                out |= self.item(frozenset([o]), idx)
            elif o[0] in ("list", "set"):
                out |= self.get(("e", o))
            elif o[0] == "label":
                out.add(o)
            elif o == py("str"):
                out.add(o)
            elif o[0] == "inst":
                fi = o[1].find("__getitem__")
                out |= self.call_func(("bound", o, fi), [k], {}, e) if fi else {UNK}
            elif o[0] == "py":
                pass
            else:
                out.add(UNK)
        return frozenset(out)

    def x_Starred(self, e):
        return self.ev(e.value)

    def seq(self, e, kind):
        o = (kind, e)
        for i, x in enumerate(e.elts):
            if isinstance(x, ast.Starred):
                self.add(("e", o), self.elems(self.ev(x.value)))
            else:
                v = self.ev(x)
                if kind == "tuple" and i < 8 and not any(isinstance(y, ast.Starred) for y in e.elts[:i]):
                    self.add(("fi", o, i), v)
                else:
                    self.add(("e", o), v)
        return frozenset([o])

    def x_List(self, e):
        return self.seq(e, "list")

    def x_Tuple(self, e):
        return self.seq(e, "tuple")

    def x_Set(self, e):
        return self.seq(e, "set")

    def x_Dict(self, e):
        o = ("dict", e)
        for k, v in zip(e.keys, e.values):
            vv = self.ev(v)
            if k is None:
                for x in vv:
                    if x[0] == "dict":
                        self.dcopy(o, x)
            else:
                self.add(("k", o), self.ev(k))
                self.dput(o, self.ckey(k), vv)
        return frozenset([o])

    def comp(self, e):
        for g in e.generators:
            it = self.ev(g.iter)
            names = [n for n in ast.walk(g.target) if isinstance(n, ast.Name)]
            for n in names:
                n._comp = (n,)
            self.assign(g.target, self.elems(it))
        # names of the generators inside the element and conditions
        own = {}
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    own.setdefault(n.id, []).append(n)
        if not hasattr(e, "_marked"):
            e._marked = True

            def mark(x, own):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in own and not hasattr(x, "_comp"):
                    x._comp = tuple(own[x.id])
                if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                    inner = {n.id for g in x.generators for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                    mark(x.generators[0].iter, own)
                    own = {k: v for k, v in own.items() if k not in inner}
                    for g in x.generators[1:]:
                        mark(g.iter, own)
                    for g in x.generators:
                        for c in g.ifs:
                            mark(c, own)
                    for f in ("elt", "key", "value"):
                        if hasattr(x, f):
                            mark(getattr(x, f), own)
                    return
                if isinstance(x, ast.Lambda):
                    ps = {a.arg for a in x.args.args}
                    own = {k: v for k, v in own.items() if k not in ps}
                    x._free = dict(getattr(x, "_free", {}), **own)
                for ch in ast.iter_child_nodes(x):
                    mark(ch, own)
            seen = {}
            for i, g in enumerate(e.generators):
                if i:
                    mark(g.iter, seen)
                for n in ast.walk(g.target):
                    if isinstance(n, ast.Name):
                        seen.setdefault(n.id, []).append(n)
                for c in g.ifs:
                    mark(c, seen)
            for f in ("elt", "key", "value"):
                if hasattr(e, f):
                    mark(getattr(e, f), seen)
            for i, g in enumerate(e.generators):
                if i:
                    self.assign(g.target, self.elems(self.ev(g.iter)))
        for g in e.generators:
            for c in g.ifs:
                self.ev(c)

    def x_ListComp(self, e, kind="list"):
        self.comp(e)
        o = (kind, e)
        self.add(("e", o), self.ev(e.elt))
        return frozenset([o])

    def x_SetComp(self, e):
        return self.x_ListComp(e, "set")

    def x_GeneratorExp(self, e):
        return self.x_ListComp(e, "list")

    def x_DictComp(self, e):
        self.comp(e)
        o = ("dict", e)
        self.add(("k", o), self.ev(e.key))
        self.add(("e", o), self.ev(e.value))
        return frozenset([o])

    def x_BoolOp(self, e):
        out = set()
        for v in e.values:
            out |= self.ev(v)
        return frozenset(out)

    def x_IfExp(self, e):
        self.ev(e.test)
        return self.ev(e.body) | self.ev(e.orelse)

    def x_Compare(self, e):
        self.ev(e.left)
        for c in e.comparators:
            self.ev(c)
        return frozenset([py("bool")])

    def x_UnaryOp(self, e):
        v = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return frozenset([py("bool")]) | (frozenset(o for o in v if o[0] == "label") if self.taint else E)
        return frozenset(o if o[0] in ("py", "label", "ext", "extinst") else UNK for o in v)

    def x_BinOp(self, e):
        a, b = self.ev(e.left), self.ev(e.right)
        if self.client is not None and hasattr(self.client, "binop"):
            self.client.binop(self, e, a, b)
        return self.binop(a, b, e)

    def binop(self, a, b, e):
        op = e.op
        out = set(o for o in a | b if o[0] == "label")
        la = [o for o in a | b if o[0] in ("list", "tuple", "set")]
        if isinstance(op, ast.Mod) and py("str") in a:
            out.add(py("str"))
            if self.taint:
                out |= {o for o in self.deep(b) if o[0] == "label"}
            return frozenset(out)
        if la and isinstance(op, (ast.Add, ast.Mult, ast.BitOr, ast.Sub, ast.BitAnd)):
            k = la[0][0]
            n = (k, e)
            src = a | b if isinstance(op, (ast.Add, ast.BitOr)) else frozenset(la)
            self.add(("e", n), self.elems(frozenset(o for o in src if o[0] in ("list", "tuple", "set", "label", "?"))))
            out.add(n)
            if any(o[0] not in ("list", "tuple", "set") and o != NONEV for o in a) and any(o[0] not in ("list", "tuple", "set") and o != NONEV for o in b):
                out.add(UNK)
            return frozenset(out)
        pa = {o for o in a if o[0] == "py"}
        pb = {o for o in b if o[0] == "py"}
        if len(pa) == len(a) and len(pb) == len(b) and a and b:
            names = {o[1] for o in pa | pb}
            if names <= {"int", "float", "bool"}:
                return frozenset(out | {py("float" if "float" in names or isinstance(op, ast.Div) else "int")})
            if names == {"str"}:
                return frozenset(out | {py("str")})
        if py("str") in a and isinstance(op, ast.Add):
            out.add(py("str"))
            return frozenset(out)
        out.add(UNK)
        return frozenset(out)

    def x_Lambda(self, e):
        self.scopes.setdefault(e, Scope(self.cur.mod, e, None, self.cur))
        return frozenset([("func", e)])

    def x_NamedExpr(self, e):
        v = self.ev(e.value)
        self.store_name(e.target.id, e.target, v)
        return v

    def x_Yield(self, e):
        v = self.ev(e.value) if e.value is not None else frozenset([NONEV])
        o = ("list", ("gen", self.cur.node))
        self.add(("e", o), v)
        self.add(("r", self.cur.node), frozenset([o]))
        return frozenset([UNK])

    def x_YieldFrom(self, e):
        o = ("list", ("gen", self.cur.node))
        self.add(("e", o), self.elems(self.ev(e.value)))
        self.add(("r", self.cur.node), frozenset([o]))
        return frozenset([UNK])

    # ---- calls
    def x_Call(self, e):
        if isinstance(e.func, ast.Name) and e.func.id == "super" and self.cur.fi is not None:
            c = self.cur.fi.cls
            if c is not None and not e.args:
                first = self.cur.node.args.args[0]
                return frozenset(("super", c, o) for o in self.get(("d", first)) | frozenset([("inst", c)]) if o[0] in ("inst", "cls") and c in o[1].mro())
            if c is not None and len(e.args) == 2:
                return frozenset(("super", c, o) for o in self.ev(e.args[1]) if o[0] in ("inst", "cls") and c in o[1].mro())
        fn = self.ev(e.func)
        args, star = [], E
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                star = star | self.elems(v)
                args.append(("*", v))
            else:
                args.append(self.ev(a))
        kw = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                kw["**"] = kw.get("**", E) | v
            else:
                kw[k.arg] = v
        if self.client is not None and hasattr(self.client, "call"):
            self.client.call(self, e, fn, args, kw)
        out = set()
        for o in fn:
            out |= self.call(o, args, kw, e)
        return frozenset(out)

    def call(self, o, args, kw, e):
        k = o[0]
        if k in ("func", "bound"):
            return self.call_func(o, args, kw, e)
        if k == "cls":
            inst = ("inst", o[1])
            fi = o[1].find("__init__")
            if fi is not None:
                self.call_func(("bound", inst, fi), args, kw, e)
            if o[1].has_external_base():
                # e.g. named tuples keep their arguments
                for i, a in enumerate(args):
                    self.add(("e", inst), a if not (isinstance(a, tuple) and a and a[0] == "*") else E)
            return {inst}
        if k == "builtin":
            return self.call_builtin(o[1], o[2], args, kw, e)
        if k == "ext":
            return self.call_ext(o[1], args, kw, e)
        if k == "inst":
            fi = o[1].find("__call__")
            if fi is not None:
                return self.call_func(("bound", o, fi), args, kw, e)
            return {UNK}
        self.escape(args, kw)
        if self.taint:
            return {UNK} | self.labels(args, kw)
        return {UNK}

    def labels(self, args, kw):
        out = set()
        for a in list(args) + list(kw.values()):
            if isinstance(a, tuple) and a and a[0] == "*":
                a = a[1]
            out |= {o for o in self.deep(a) if o[0] == "label"}
        return out

    def deep(self, v, depth=5):
        """everything reachable through containers"""
        seen = set(v)
        todo = list(v)
        n = 0
        while todo and n < 4000:
            o = todo.pop()
            n += 1
            if o[0] in ("list", "set", "tuple", "dict"):
                nx = set(self.dall(o)) | set(self.get(("k", o)))
                if o[0] == "tuple":
                    for i in range(8):
                        nx |= self.get(("fi", o, i))
                for x in nx - seen:
                    seen.add(x)
                    todo.append(x)
        return frozenset(seen)

    def escape(self, args, kw):
        """functions handed to code outside the project are called with unknown arguments"""
        for a in list(args) + list(kw.values()):
            if isinstance(a, tuple) and a and a[0] == "*":
                a = a[1]
            for o in a:
                if o[0] in ("func", "bound"):
                    node = o[1] if o[0] == "func" else o[2].node
                    ps = node.args.posonlyargs + node.args.args
                    for i, p in enumerate(ps):
                        if i == 0 and o[0] == "bound":
                            self.add(("d", p), frozenset([o[1]]))
                        else:
                            self.add(("d", p), frozenset([UNK]))

    def call_func(self, o, args, kw, e):
        if o[0] == "bound":
            node, fi = o[2].node, o[2]
            args = [frozenset([o[1]])] + list(args)
        else:
            node = o[1]
            fi = getattr(node, "_finfo", None)
        if node not in self.scopes:
            return {UNK}
        self.called.add(node)
        a = node.args
        params = a.posonlyargs + a.args
        i = 0
        for v in args:
            if isinstance(v, tuple) and v and v[0] == "*":
                el = self.elems(v[1])
                for p in params[i:]:
                    self.add(("d", p), el)
                if a.vararg:
                    self.add(("e", ("tuple", a.vararg)), el)
                i = len(params)
                continue
            if i < len(params):
                self.add(("d", params[i]), v)
            elif a.vararg:
                self.add(("e", ("tuple", a.vararg)), v)
            i += 1
        byname = {p.arg: p for p in params + a.kwonlyargs}
        for k, v in kw.items():
            if k == "**":
                for d in v:
                    if d[0] != "dict":
                        if d[0] in ("label", "?", "extinst"):
                            for p in params[i:] + a.kwonlyargs:
                                if p.arg not in kw:
                                    self.add(("d", p), frozenset([d if d[0] == "label" else UNK]))
                        continue
                    for p in params[i:] + a.kwonlyargs:
                        if p.arg not in kw:
                            self.add(("d", p), self.dget(d, p.arg))
                    if a.kwarg:
                        kd = ("dict", a.kwarg)
                        self.add(("k", kd), self.get(("k", d)))
                        self.add(("e", kd), self.get(("e", d)))
                        for kk in self.get(("ks", d)):
                            if kk not in byname:
                                self.dput(kd, kk, self.get(("fk", d, kk)))
            elif k in byname:
                self.add(("d", byname[k]), v)
            elif a.kwarg:
                self.dput(("dict", a.kwarg), k, v)
                self.add(("k", ("dict", a.kwarg)), frozenset([py("str")]))
        r = self.get(("r", node))
        if fi is not None and "contextmanager" in fi.decos:
            return r
        if fi is not None and any(d not in ("staticmethod", "classmethod", "property", "contextmanager", "wraps", "abstractmethod") for d in fi.decos):
            return r | {UNK} if not r else r
        if isinstance(node, ast.Lambda):
            return r
        return r

    # methods of containers and strings
    MUTATORS = {"append", "extend", "insert", "pop", "remove", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard",
                "difference_update", "intersection_update", "symmetric_difference_update", "__setitem__", "__delitem__"}

    def mutate(self, objs, how, e):
        if self.client is not None and hasattr(self.client, "mutate"):
            self.client.mutate(self, objs, how, e)

    def call_builtin(self, o, name, args, kw, e):
        k = o[0]
        if name in self.MUTATORS and k in ("list", "dict", "set", "label", "extinst"):
            self.mutate(frozenset([o]), name, e)
        flat = []
        for a in args:
            if isinstance(a, tuple) and a and a[0] == "*":
                flat.append(self.elems(a[1]))
            else:
                flat.append(a)
        new = lambda kind: (kind, e)
        if k == "label":
            self.escape(args, kw)
            return {o} | (self.labels(args, kw) if self.taint else set())
        if k in ("list", "set", "tuple"):
            if name in ("append", "add"):
                for a in flat[:1]:
                    self.add(("e", o), a)
                return {NONEV}
            if name == "insert":
                for a in flat[1:2]:
                    self.add(("e", o), a)
                return {NONEV}
            if name in ("extend", "update"):
                for a in flat:
                    self.add(("e", o), self.elems(a))
                return {NONEV}
            if name == "pop":
                return set(self.elems(frozenset([o])))
            if name in ("copy", "union", "intersection", "difference", "symmetric_difference"):
                n = new(k)
                self.add(("e", n), self.elems(frozenset([o])))
                if name == "union":
                    for a in flat:
                        self.add(("e", n), self.elems(a))
                return {n}
            if name in ("index", "count"):
                return {py("int")}
            if name in ("issubset", "issuperset", "isdisjoint"):
                return {py("bool")}
            if name in ("remove", "sort", "reverse", "clear", "discard"):
                self.escape(args, kw)
                return {NONEV}
            return {UNK}
        if k == "dict":
            if name in ("get", "pop", "setdefault"):
                ck = self.ckey(e.args[0]) if e.args else None
                r = set(self.dget(o, ck))
                if len(flat) > 1:
                    r |= flat[1]
                    if name == "setdefault":
                        self.dput(o, ck, flat[1])
                        self.add(("k", o), flat[0])
                elif name == "get":
                    r.add(NONEV)
                return r
            if name == "items":
                l, t = new("list"), new("tuple")
                self.add(("fi", t, 0), self.get(("k", o)))
                self.add(("fi", t, 1), self.dall(o))
                self.add(("e", l), frozenset([t]))
                return {l}
            if name == "keys":
                l = new("list")
                self.add(("e", l), self.get(("k", o)))
                return {l}
            if name == "values":
                l = new("list")
                self.add(("e", l), self.dall(o))
                return {l}
            if name == "update":
                for a in flat:
                    for d in a:
                        if d[0] == "dict":
                            self.dcopy(o, d)
                        elif d[0] in ("label", "?"):
                            self.add(("e", o), frozenset([d]))
                            self.add(("k", o), frozenset([d]))
                        else:
                            self.add(("e", o), self.elems(frozenset([d])))
                for kk, v in kw.items():
                    self.dput(o, kk, v)
                    self.add(("k", o), frozenset([py("str")]))
                return {NONEV}
            if name == "copy":
                n = new("dict")
                self.dcopy(n, o)
                return {n}
            if name == "popitem":
                return {UNK}
            return {NONEV} if name == "clear" else {UNK}
        if k == "py":
            if o[1] == "str":
                lab = self.labels(args, kw) if self.taint else set()
                if name in ("split", "rsplit", "splitlines", "partition", "rpartition"):
                    l = new("list")
                    self.add(("e", l), frozenset([py("str")]))
                    return {l}
                if name in ("format", "join", "replace", "strip", "lstrip", "rstrip", "lower", "upper", "title", "capitalize", "zfill", "ljust", "rjust"):
                    return {py("str")} | lab
                if name in ("startswith", "endswith", "isdigit", "isalpha", "isupper", "islower", "isidentifier"):
                    return {py("bool")}
                if name in ("find", "rfind", "index", "count"):
                    return {py("int")}
                if name == "encode":
                    return {py("bytes")}
            if o[1] == "bytes" and name == "decode":
                return {py("str")}
            return {UNK}
        self.escape(args, kw)
        return {UNK} | (self.labels(args, kw) if self.taint else set())

    SEQ = {"builtins.list": "list", "builtins.tuple": "tuple", "builtins.set": "set", "builtins.frozenset": "set", "builtins.sorted": "list",
           "builtins.reversed": "list", "builtins.iter": "list"}

    def call_ext(self, name, args, kw, e):
        flat = []
        for a in args:
            if isinstance(a, tuple) and a and a[0] == "*":
                flat.append(self.elems(a[1]))
            else:
                flat.append(a)
        lab = self.labels(args, kw) if self.taint else set()
        if name in self.SEQ:
            self.escape((), kw)
            n = (self.SEQ[name], e)
            for a in flat[:1]:
                self.add(("e", n), self.elems(a))
            return {n}
        if name in ("builtins.dict", "collections.OrderedDict", "collections.defaultdict"):
            n = ("dict", e)
            if name.endswith("defaultdict"):
                if flat:
                    for o in flat[0]:
                        self.add(("e", n), frozenset(self.call(o, [], {}, e)))
                flat = flat[1:]
            for a in flat[:1]:
                for d in a:
                    if d[0] == "dict":
                        self.dcopy(n, d)
                    else:
                        for t in self.elems(frozenset([d])):
                            self.add(("k", n), self.item(frozenset([t]), 0))
                            self.add(("e", n), self.item(frozenset([t]), 1))
            for k, v in kw.items():
                if k != "**":
                    self.dput(n, k, v)
                    self.add(("k", n), frozenset([py("str")]))
            return {n}
        if name == "builtins.enumerate":
            l, t = ("list", e), ("tuple", e)
            self.add(("fi", t, 0), frozenset([py("int")]))
            self.add(("fi", t, 1), self.elems(flat[0]) if flat else E)
            self.add(("e", l), frozenset([t]))
            return {l}
        if name == "builtins.zip":
            l, t = ("list", e), ("tuple", e)
            for i, a in enumerate(flat[:8]):
                self.add(("fi", t, i), self.elems(a))
            self.add(("e", l), frozenset([t]))
            return {l}
        if name == "builtins.filter":
            n = ("list", e)
            self.escape(args, {})
            if len(flat) > 1:
                self.add(("e", n), self.elems(flat[1]))
            return {n}
        if name == "builtins.map":
            n = ("list", e)
            if flat:
                for o in flat[0]:
                    self.add(("e", n), frozenset(self.call(o, [self.elems(a) for a in flat[1:]], {}, e)))
            return {n}
        if name == "builtins.range":
            n = ("list", e)
            self.add(("e", n), frozenset([py("int")]))
            return {n}
        if name in ("builtins.max", "builtins.min", "builtins.next", "builtins.sum"):
            self.escape((), kw)
            if name != "builtins.next" and len(flat) > 1:
                return set().union(*flat)
            r = set(self.elems(flat[0])) if flat else {UNK}
            if name == "builtins.next" and len(flat) > 1:
                r |= flat[1]
            return r or {UNK}
        if name in ("builtins.len", "builtins.int", "builtins.ord", "builtins.id", "builtins.hash"):
            return {py("int")} | lab
        if name in ("builtins.str", "builtins.repr"):
            return {py("str")} | lab
        if name in ("builtins.bool", "builtins.isinstance", "builtins.hasattr", "builtins.any", "builtins.all", "builtins.callable", "builtins.issubclass"):
            return {py("bool")} | lab
        if name == "builtins.float":
            return {py("float")} | lab
        if name == "builtins.print":
            return {NONEV}
        if name == "builtins.getattr":
            nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str) else None
            out = set()
            if nm is not None and flat:
                for o in flat[0]:
                    out |= self.attr_of(o, nm, e)
            else:
                out.add(UNK)
            if len(flat) > 2:
                out |= flat[2]
            return out or {UNK}
        if name == "builtins.setattr":
            nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
            for o in flat[0] if flat else ():
                if nm is not None and len(flat) > 2:
                    self.add(("f", o, nm), flat[2])
            self.mutate(flat[0] if flat else E, "setattr", e)
            return {NONEV}
        if name in ("copy.copy", "copy.deepcopy"):
            out = set()
            for o in flat[0] if flat else ():
                if o[0] in ("list", "set", "dict", "tuple"):
                    n = (o[0], e)
                    self.dcopy(n, o)
                    for i in range(8):
                        self.add(("fi", n, i), self.get(("fi", o, i)))
                    out.add(n)
                elif o[0] == "label":
                    out.add(("label", o[1] + "'") if not self.taint else o)
                else:
                    out.add(o)
            return out
        if name in ("functools.partial",):
            self.escape(args[1:], kw)
            out = set()
            for o in flat[0] if flat else ():
                if o[0] in ("func", "bound"):
                    self.call_func(o, args[1:], kw, e)
                    # the remaining arguments are not known
                    node = o[1] if o[0] == "func" else o[2].node
                    ps = node.args.posonlyargs + node.args.args
                    given = len(args) - 1 + (1 if o[0] == "bound" else 0)
                    for p in ps[given:]:
                        if p.arg not in kw:
                            self.add(("d", p), frozenset([UNK]))
                out.add(UNK)
            return out
        self.escape(args, kw)
        tail = name.rsplit(".", 1)[-1]
        if tail[:1].isupper() and not tail.isupper():
            return {("extinst", name)} | lab
        return {UNK} | lab
