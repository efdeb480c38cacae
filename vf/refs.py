"""References that cannot be resolved: names, members, arguments, formats (over the value flow of the whole package)."""
import ast
import builtins
import re
import string

from .flow import Flow, UNBOUND, UNK, NONEV, PYT, py
from .gmodel import load_oracle
from .project import FuncInfo, ClassInfo, Module, Ext, Global, dotted

OBJ = set(dir(object)) | {"__dict__", "__name__", "__module__", "__qualname__", "__mro__", "__bases__", "__subclasses__"}
FN = set(dir(lambda: None))
PCT = re.compile(r"%(?:\((?P<key>[^)]*)\))?(?P<flag>[#0\- +]*)(?P<width>\*|\d+)?(?:\.(?P<prec>\*|\d+))?[hlL]?(?P<conv>.)", re.S)


def enclosing(n, kinds):
    while n is not None and not isinstance(n, kinds):
        n = getattr(n, "_parent", None)
    return n


def percent(fmt):
    """-> (number of positional values, has keys, error)"""
    n, keys = 0, False
    i = 0
    while True:
        i = fmt.find("%", i)
        if i < 0:
            return n, keys, None
        m = PCT.match(fmt, i)
        if not m:
            return n, keys, "incomplete format"
        c = m.group("conv")
        if c != "%":
            if c not in "diouxXeEfFgGcrsa":
                return n, keys, "unsupported format character %r" % c
            if m.group("key") is not None:
                keys = True
            else:
                n += 1
            n += (m.group("width") == "*") + (m.group("prec") == "*")
        i = m.end()


def brace(fmt):
    """-> (highest positional + 1 or count, named) or None when malformed"""
    auto, hi, names = 0, 0, set()
    try:
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            if field is None:
                continue
            head = re.split(r"[.\[]", field, maxsplit=1)[0]
            if head == "":
                auto += 1
            elif head.isdigit():
                hi = max(hi, int(head) + 1)
            else:
                names.add(head)
            if spec and "{" in spec:
                return None
    except ValueError as ex:
        return "error", str(ex)
    return max(auto, hi), names


class Refs:
    """client of Flow.report"""

    def __init__(self, rep, hit):
        self.rep = rep
        self.hit = hit          # hit(rule, mod, node, scope name, key, message)
        o = load_oracle("members")
        self.members, self.sigs = o["members"], o["sigs"]
        self.families = {}

    def begin(self, flow):
        """fields each class may have: assigned on any instance of it or of a class related to it, anywhere"""
        self.flow = flow
        fam = self.families
        subs = {}
        allc = [c for m in flow.proj.modules.values() for c in m.classes.values()]
        for c in allc:
            for b in c.mro():
                subs.setdefault(b, set()).add(c)
        own = {}
        for c in allc:
            s = set(c.methods)
            for n in ast.walk(c.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ("self", "cls"):
                    s.add(n.attr)
            for st in c.node.body:
                for t in ast.walk(st):
                    if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and enclosing(t, (ast.FunctionDef, ast.ClassDef, ast.Lambda)) is c.node:
                        s.add(t.id)
                if isinstance(st, ast.ClassDef):
                    s.add(st.name)
            own[c] = s
        for c in allc:
            s = set()
            for x in c.mro():
                s |= own[x]
            for x in subs.get(c, ()):
                for y in x.mro():
                    s |= own[y]
            fam[c] = s
        self.stored = {k[2] for k in flow.pts if k[0] == "f"}
        self.fields = {}
        for k in flow.pts:
            if k[0] == "f" and k[1][0] in ("inst", "cls"):
                self.fields.setdefault(k[1][1], set()).add(k[2])

    def lacks(self, o, name):
        """True: certainly has no such attribute; the second value says what it is"""
        k = o[0]
        if k in ("inst", "cls"):
            c = o[1]
            if name in OBJ or name in self.families.get(c, ()) or c.has_external_base() or c.find("__getattr__"):
                return None
            if any(name in self.fields.get(x, ()) for x in c.mro()):
                return None
            return "class %s" % c.node.name
        if k == "mod":
            if self.flow.proj.member(o[1].name, name) is None and name not in OBJ and not name.startswith("__") and not self.flow.pts.get(("g", o[1], name)):
                return "module %s" % o[1].name
            return None
        if k == "ext":
            if o[1].startswith("builtins."):
                t = getattr(builtins, o[1][9:], None)
                return o[1][9:] if t is not None and not hasattr(t, name) else None
            m = self.members.get(o[1])
            return o[1] if m is not None and name not in m and o[1] + "." + name not in self.members else None
        if k in ("list", "dict", "set", "tuple"):
            return None if hasattr(PYT[k], name) or self.special(o) else "a %s" % k
        if k == "py" and o != NONEV:
            t = PYT.get(o[1])
            return "a %s" % o[1] if t is not None and not hasattr(t, name) else None
        if k == "func":
            return None if name in FN or ("f", o, name) in self.flow.pts or isinstance(o[1], ast.Lambda) else "function %s" % o[1].name
        return None

    @staticmethod
    def special(o):
        # iterators and default dictionaries are modelled as lists and dictionaries
        return isinstance(o[1], tuple) or isinstance(o[1], (ast.Call, ast.GeneratorExp))

    def guarded(self, e, name, ext):
        fn = enclosing(e, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module))
        for n in ast.walk(fn):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant) and n.args[1].value == name:
                return True
        if isinstance(e, ast.Attribute):
            me = ast.dump(e.value)
            for n in ast.walk(fn):      # the type is tested: which objects get here is not known
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("isinstance", "callable", "type") and n.args and ast.dump(n.args[0]) == me:
                    return True
        n = e
        while n is not None and n is not fn:
            p = getattr(n, "_parent", None)
            if isinstance(p, ast.Try) and n in p.body:
                for h in p.handlers:
                    names = [dotted(x) or "" for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])] if h.type is not None else [""]
                    if any(x in ("AttributeError", "ImportError", "NameError", "ModuleNotFoundError") for x in names) or ext and any(x in ("", "Exception") for x in names):
                        return True
            n = p
        return False

    # ---- Flow callbacks
    def attr(self, flow, e, b):
        self.rep.count("member references")
        if not isinstance(e.ctx, ast.Load):
            return
        real = [o for o in b if o != NONEV]
        if not real:
            return
        whats = []
        for o in real:
            w = self.lacks(o, e.attr)
            if w is None:
                return
            whats.append(w)
        if self.guarded(e, e.attr, any(o[0] == "ext" for o in real)):
            return
        self.say("no-such-member", e, "%s.%s" % (sorted(set(whats))[0], e.attr), "%s has no member %s" % (" or ".join(sorted(set(whats))), e.attr))

    def unused(self, s):
        """a method nothing in the package refers to, of a class users do not program against"""
        fi = s.fi
        if fi is None or fi.cls is None or fi.cls.node.name in ("Graph", "Node", "GraphBuilder"):
            return False
        if not hasattr(self, "mentioned"):
            self.mentioned = set()
            for m in self.flow.mods:
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute):
                        self.mentioned.add(n.attr)
                    elif isinstance(n, ast.Name):
                        self.mentioned.add(n.id)
                    elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                        self.mentioned.add(n.value)
        nm = fi.node.name
        return nm not in self.mentioned and not nm.startswith(("__", "version_", "_op_", "visit_", "any_version", "_to_onnx_", "compute_", "_handle", "_optimize", "to_"))

    def say(self, rule, e, key, msg):
        s = self.flow.cur
        if self.unused(s):
            self.rep.count("broken references in methods nothing refers to")
            return
        self.hit(rule, s.mod, e, s.name(), key, msg)

    def undefined(self, flow, mod, name):
        pass

    def call(self, flow, e, fn, args, kw):
        self.rep.count("calls")
        if not fn:
            return
        bad = []
        for o in fn:
            r = self.misfit(o, args, kw, e)
            if r is None:
                return
            bad.append(r)
        name, why = sorted(bad)[0]
        self.say("bad-call", e, "%s: %s" % (name, why), "calls %s: %s" % (name, why))

    def misfit(self, o, args, kw, e):
        k = o[0]
        if k == "func":
            return self.fit(o[1], args, kw, getattr(o[1], "name", "<lambda>"), 0)
        if k == "bound":
            return self.fit(o[2].node, args, kw, o[2].node.name, 1)
        if k == "cls":
            c = o[1]
            fi = c.find("__init__")
            if fi is not None:
                return self.fit(fi.node, args, kw, c.node.name, 1)
            if not c.has_external_base() and not c.find("__new__") and (args or kw) and not c.node.decorator_list:
                return c.node.name, "it takes no arguments"
            return None
        if k == "inst":
            return None if o[1].find("__call__") or o[1].has_external_base() else (o[1].node.name, "an instance cannot be called")
        if k in ("list", "dict", "set", "tuple"):
            return None if self.special(o) else ("a " + k, "it cannot be called")
        if k == "py":
            return None if o == NONEV else ("a " + o[1], "it cannot be called")
        if k == "mod":
            return o[1].name, "a module cannot be called"
        if k == "ext":
            s = self.sigs.get(o[1])
            if s is None:
                return None
            pos, va, kwo, vk = s
            return self.bind(o[1], [p[0] for p in pos], [p[0] for p in pos if p[1]], va, [p[0] for p in kwo], [p[0] for p in kwo if p[1]], vk, args, kw,
                             {p[0] for p in pos if p[2]})
        return None

    def fit(self, node, args, kw, name, skip):
        fi = getattr(node, "_finfo", None)
        if fi is not None and any(d not in ("staticmethod", "classmethod", "property", "contextmanager", "abstractmethod") for d in fi.decos):
            return None
        a = node.args
        pos = [p.arg for p in a.posonlyargs + a.args]
        if skip and not pos and not a.vararg:
            return name, "it takes no self"
        nreq = len(pos) - len(a.defaults)
        req = pos[:nreq]
        kwo = [p.arg for p in a.kwonlyargs]
        kreq = [p.arg for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        return self.bind(name, pos[skip:], req[skip:], a.vararg is not None, kwo, kreq, a.kwarg is not None, args, kw, {p.arg for p in a.posonlyargs})

    @staticmethod
    def bind(name, pos, req, va, kwo, kreq, vk, args, kw, ponly):
        star = any(isinstance(x, tuple) and x and x[0] == "*" for x in args)
        n = sum(1 for x in args if not (isinstance(x, tuple) and x and x[0] == "*"))
        if n > len(pos) and not va:
            return name, "%d positional arguments for %d parameters" % (n, len(pos))
        given = set(pos[:n])
        for k in kw:
            if k == "**":
                continue
            if k in given and k not in ponly:
                return name, "two values for parameter %s" % k
            if (k not in pos or k in ponly) and k not in kwo and not vk:
                return name, "it has no parameter %s" % k
        if not star and "**" not in kw:
            for r in req:
                if r not in given and r not in kw:
                    return name, "no value for parameter %s" % r
        if "**" not in kw:
            for r in kreq:
                if r not in kw:
                    return name, "no value for parameter %s" % r
        return None

    def binop(self, flow, e, a, b):
        if isinstance(e.op, ast.Mod):
            self.percent_op(e)
            return
        if isinstance(e.op, ast.Add):
            self.rep.count("additions")
            kinds = []
            for v in (a, b):
                if not v or any(o[0] not in ("py", "list", "dict", "tuple", "set", "inst") for o in v):
                    return
                kinds.append({"number" if o[1] in ("int", "float", "bool") and o[0] == "py" else o[1] if o[0] == "py" else o[0] for o in v} - {"NoneType"})
            if not kinds[0] or not kinds[1] or any("inst" in k and any(o[0] == "inst" and (o[1].find("__add__") or o[1].find("__radd__") or o[1].has_external_base())
                                                                      for o in v) for k, v in zip(kinds, (a, b))):
                return
            if not kinds[0] & kinds[1]:
                self.say("bad-operands", e, "%s + %s" % (sorted(kinds[0]), sorted(kinds[1])), "adds a %s and a %s" % ("/".join(sorted(kinds[0])), "/".join(sorted(kinds[1]))))

    # ---- formats
    def fmt_check(self, e, fmt, values, what):
        """values: None unknown, else number of positional values"""
        n, keys, err = percent(fmt)
        self.rep.count("format strings")
        if err:
            self.say("bad-format", e, "%s: %s" % (what, err), "%s %r: %s" % (what, fmt[:60], err))
        elif not keys and values is not None and n != values:
            self.say("bad-format", e, "%s: %d values for %d places" % (what, values, n), "%s %r has %d places for %d values" % (what, fmt[:60], n, values))

    def percent_op(self, e):
        sc = self.flow.cur
        fs = strings(self.flow, sc, e.left)
        if None in fs:
            return
        fs = sorted(fs)
        r = e.right
        if isinstance(r, ast.Tuple):
            n = len(r.elts) if not any(isinstance(x, ast.Starred) for x in r.elts) else None
        elif isinstance(r, (ast.Constant, ast.JoinedStr, ast.List, ast.ListComp, ast.BinOp, ast.Compare)) and not (isinstance(r, ast.BinOp)):
            n = 1
        elif isinstance(r, ast.Dict):
            return
        else:
            v = self.flow.ev(r)
            n = 1 if v and all(o[0] in ("py", "list", "inst", "set") for o in v) else None
        for c in fs:
            self.fmt_check(e, c, n, "format")

    def scan_formats(self, mod, scope, node):
        pass


def undefined_names(flow, rep, hit):
    """names nothing binds, and locals read where nothing can have bound them"""
    for s in list(flow.scopes.values()):
        mod = s.mod
        body = [s.node] if isinstance(s.node, ast.Lambda) else s.node.body
        todo = [s.node.body] if isinstance(s.node, ast.Lambda) else list(body)
        if not isinstance(s.node, (ast.Module, ast.Lambda)):
            todo += [d for d in s.node.args.defaults if d] + [d for d in s.node.args.kw_defaults if d]
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                todo += [d for d in n.decorator_list if not (isinstance(d, ast.Attribute) and d.attr in ("setter", "getter", "deleter"))]
                continue
            if isinstance(n, ast.Lambda):
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                rep.count("name references")
                check_name(flow, s, n, hit)
            todo += list(ast.iter_child_nodes(n))


def check_name(flow, s, n, hit):
    mod = s.mod
    x, first = s, True
    if comp_bound(n) or fallback(n):
        return
    cls = enclosing(n, (ast.ClassDef, ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))
    while isinstance(cls, ast.ClassDef):        # names of the class body
        for st in cls.body:
            for t in ast.walk(st):
                if isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store) and t.id == n.id or isinstance(t, (ast.FunctionDef, ast.ClassDef)) and t.name == n.id:
                    return
        cls = None
    while x is not None and x.defs is not None:
        d = x.defs
        if n.id in d.locals:
            if first:
                r = d.loads.get(n)
                if r is not None and set(r) == {UNBOUND}:
                    hit("unbound-name", mod, n, s.name(), n.id, "reads local variable %s where nothing has bound it" % n.id)
            return
        if n.id in d.outer and (x.parent is None or flow.enclosing(x.parent, n.id) is None):
            break
        x = x.parent
        first = False
    if flow.proj.member(mod.name, n.id) is not None or n.id in mod.defs or hasattr(builtins, n.id) or n.id in ("__file__", "__name__", "__doc__", "__path__"):
        d = mod.defs.get(n.id)
        if d is not None and isinstance(d[-1], tuple) and d[-1][0] == "from" and d[-1][1] in flow.proj.modules and flow.proj.member(mod.name, n.id) is None:
            hit("unbound-name", mod, n, s.name(), n.id, "%s is imported from %s, which has no such name" % (n.id, d[-1][1]))
        return
    if flow.pts.get(("g", mod, n.id)) or any(g.defs is not None and n.id in g.defs.outer for g in flow.scopes.values() if g.mod is mod):
        return
    if any(isinstance(d, tuple) and d[0] == "from" and d[1] not in flow.proj.modules for d in mod.defs.get("*", [])):
        return
    hit("unbound-name", mod, n, s.name(), n.id, "refers to %s, which nothing defines" % n.id)


def fallback(n):
    """in the branch for objects that lack an attribute: whether such exist is not known"""
    x, child = getattr(n, "_parent", None), n
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Module)):
        if isinstance(x, ast.If) and child in x.orelse and isinstance(x.test, ast.Call) and isinstance(x.test.func, ast.Name) and x.test.func.id == "hasattr":
            return True
        x, child = getattr(x, "_parent", None), x
    return False


def comp_bound(n):
    """bound by a comprehension or lambda around it"""
    x, child = getattr(n, "_parent", None), n
    while x is not None and not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef, ast.Module)):
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            gens = x.generators
            if isinstance(child, ast.comprehension):
                i = gens.index(child)
                inside_iter = any(y is n for y in ast.walk(child.iter))
                gens = gens[:i] if inside_iter else gens[:i + 1]
            for g in gens:
                if any(isinstance(t, ast.Name) and t.id == n.id for t in ast.walk(g.target)):
                    return True
        x, child = getattr(x, "_parent", None), x
    return False


def bad_imports(flow, rep, hit):
    ms = load_oracle("members")["members"]
    for m in flow.mods:
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            base = m._abs(n)
            for a in n.names:
                rep.count("imported names")
                if a.name == "*":
                    continue
                if base in flow.proj.modules:
                    if flow.proj.member(base, a.name) is None and not flow.pts.get(("g", flow.proj.modules[base], a.name)):
                        hit("bad-import", m, n, "<module>", base + "." + a.name, "imports %s from %s, which does not define it" % (a.name, base))
                elif base == flow.proj_name or base.startswith(flow.proj_name + "."):
                    hit("bad-import", m, n, "<module>", base, "imports from %s, which does not exist" % base)
                elif base in ms and a.name not in ms[base] and base + "." + a.name not in ms and not in_import_guard(n):
                    hit("bad-import", m, n, "<module>", base + "." + a.name, "imports %s from %s, which does not define it" % (a.name, base))


def in_import_guard(n):
    while n is not None:
        if isinstance(n, ast.Try):
            return True
        n = getattr(n, "_parent", None)
    return False


LOG = {"debug", "info", "warning", "error", "critical", "verbose", "exception", "warn"}


def formats(flow, rep, refs, hit):
    """format strings of logging calls, make_sure and str.format"""
    for s in list(flow.scopes.values()):
        todo = [s.node.body] if isinstance(s.node, ast.Lambda) else list(s.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                continue
            todo += list(ast.iter_child_nodes(n))
            if not isinstance(n, ast.Call):
                continue
            args = n.args
            f = n.func
            tail = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
            i = None
            if isinstance(f, ast.Attribute) and tail in LOG and isinstance(f.value, (ast.Name, ast.Attribute, ast.Call)):
                base = dotted(f.value) or (dotted(f.value.func) if isinstance(f.value, ast.Call) else "") or ""
                if "log" in base.lower():
                    i = 0
            elif tail == "make_sure":
                i = 1
            if i is not None and len(args) > i and not any(isinstance(a, ast.Starred) for a in args):
                k = len(args) - i - 1
                for c in sorted(x for x in strings(flow, s, args[i]) if x is not None):
                    num, keys, err = percent(c)
                    rep.count("format strings")
                    if tail != "make_sure" and k == 0:
                        continue            # logging does not format without values
                    if k == 1 and isinstance(args[-1], ast.Dict):
                        continue
                    if err:
                        hit("bad-format", s.mod, n, s.name(), "%s: %s" % (tail, err), "%s of %s: %s" % (tail, c[:60], err))
                    elif not keys and num != k:
                        hit("bad-format", s.mod, n, s.name(), "%s: %d values for %d places" % (tail, k, num), "%s(%r) has %d places for %d values" % (tail, c[:60], num, k))
            if isinstance(f, ast.Attribute) and f.attr == "format":
                c = fold(f.value)
                if c is not None and not any(isinstance(a, ast.Starred) for a in args) and not any(k.arg is None for k in n.keywords):
                    r = brace(c)
                    rep.count("format strings")
                    if r is None:
                        continue
                    if r[0] == "error":
                        hit("bad-format", s.mod, n, s.name(), "format: %s" % r[1], "%r.format: %s" % (c[:60], r[1]))
                    elif r[0] > len(args) or r[1] - {k.arg for k in n.keywords}:
                        hit("bad-format", s.mod, n, s.name(), "format: values missing", "%r.format gets %d values and names %s" % (c[:60], len(args), sorted(k.arg for k in n.keywords)))


ASSIGNED = {}


def assigned(s):
    """Name store -> the expression assigned to it"""
    c = ASSIGNED.get(s)
    if c is None:
        c = ASSIGNED[s] = {}
        todo = [s.node.body] if isinstance(s.node, ast.Lambda) else list(s.node.body)
        while todo:
            n = todo.pop()
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                c[n.targets[0]] = n.value
            todo += list(ast.iter_child_nodes(n))
    return c


def strings(flow, s, e, depth=0):
    """the constant strings e may be; None among them: something else"""
    c = fold(e)
    if c is not None:
        return {c}
    if isinstance(e, ast.IfExp):
        return strings(flow, s, e.body, depth) | strings(flow, s, e.orelse, depth)
    if isinstance(e, ast.BoolOp):
        return set().union(*[strings(flow, s, v, depth) for v in e.values])
    if isinstance(e, ast.Name) and depth < 5 and s.defs is not None and e in s.defs.loads:
        out = set()
        for d in s.defs.loads[e]:
            v = assigned(s).get(d)
            out |= strings(flow, s, v, depth + 1) if v is not None else {None}
        return out or {None}
    if isinstance(e, (ast.Name, ast.Attribute)) and depth < 5:
        r = flow.proj.resolve_expr(s.mod, e)
        if isinstance(r, Global):
            vals = [d for d in r.mod.defs.get(r.name, [])]
            if len(vals) == 1 and isinstance(vals[0], ast.Assign) and isinstance(vals[0].targets[0], ast.Name):
                c = fold(vals[0].value)
                return {c}
    return {None}


def fold(e):
    """the constant string e is, if it is one"""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return e.value
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        a, b = fold(e.left), fold(e.right)
        return a + b if a is not None and b is not None else None
    return None


def patterns(flow, rep, hit):
    """match.get_op(name) / get_tensor(name): some pattern of the same function (or of its module and what it imports) has that name"""
    by_mod, by_fn = {}, {}
    for m in flow.mods:
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and (dotted(n.func) or "").split(".")[-1] == "OpTypePattern":
                nm = [k.value for k in n.keywords if k.arg == "name"] + (n.args[1:2] if len(n.args) > 1 else [])
                fn = enclosing(n, (ast.FunctionDef,))
                for v in nm:
                    val = v.value if isinstance(v, ast.Constant) else "*"
                    by_mod.setdefault(m.name, set()).add(val)
                    if fn is not None:
                        by_fn.setdefault(fn, set()).add(val)
    for m in flow.mods:
        imported = {m.name}
        todo = [m.name]
        while todo:
            mm = flow.proj.modules.get(todo.pop())
            if mm is None:
                continue
            for ds in mm.defs.values():
                for d in ds:
                    if isinstance(d, tuple):
                        t = d[1] if d[1] in flow.proj.modules else None
                        sub = d[1] + "." + d[2] if len(d) > 2 else None
                        for x in (t, sub):
                            if x in flow.proj.modules and x not in imported:
                                imported.add(x)
                                if "rewriter" in x:
                                    todo.append(x)
        modnames = set()
        for x in imported:
            modnames |= by_mod.get(x, set())
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get_op", "get_tensor") and len(n.args) == 1
                    and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str)):
                continue
            rep.count("pattern elements looked up")
            fn = enclosing(n, (ast.FunctionDef,))
            names = by_fn.get(fn)
            if names is None or enclosing(fn, (ast.ClassDef,)) is not None:
                names = modnames
            uses_shared = fn is not None and any(isinstance(x, (ast.Name, ast.Attribute)) and "pattern" in (dotted(x) or "").split(".")[-1].lower()
                                                 and not local_name(flow, fn, x) for x in ast.walk(fn))
            if uses_shared:
                names = names | modnames
            if n.args[0].value not in names and "*" not in names:
                s = flow.scopes.get(fn)
                hit("no-such-pattern-element", m, n, s.name() if s else "<module>", n.args[0].value, "looks up pattern element %r, which no pattern names" % n.args[0].value)


def local_name(flow, fn, x):
    s = flow.scopes.get(fn)
    while isinstance(x, ast.Attribute):
        x = x.value
    return s is not None and isinstance(x, ast.Name) and x.id in s.defs.locals and not any(a.arg == x.id for a in fn.args.args)
