"""C13: nothing a conversion leaves behind in the process changes how a later one turns out."""
import ast

from ..project import Project, is_fixture, AnalysisBroken
from ..effects import Effects
from .. import registry
from .c12 import handler_seeds
from .c14 import entries

EXPLANATION = ("All module variables, class fields, default arguments and members of libraries that code reachable from a conversion may modify are computed (vf/effects.py). "
               "Each has to be of a kind that cannot influence a later conversion: put back by a finally, set anew before anything reads it, a cache whose values follow from "
               "their keys, or a counter that only goes into texts.")
RULES = {
    "state-left": "no module variable or class field modified by a conversion is read by the next one",
    "library-left": "no member of a library and no setting of the process stays modified",
    "default-argument": "no default value of a parameter is modified",
}
REGISTRY = ("tf2onnx.handler:tf_op", "tf2onnx.handler:tfl_op")
BAD = {"bad_global", "bad_function_attribute", "bad_default", "bad_class", "bad_cache", "bad_patch", "bad_environ"}


class State:
    def __init__(self, proj, x):
        self.proj, self.x = proj, x
        self.edges = {}             # scope node -> [(site, callee node)]
        self.handlers = {"tf_op": set(), "tfl_op": set()}
        hs, _ = registry.load(proj)
        for h in hs:
            self.handlers["tf_op"].add(h.fi.node)
            for c in h.cls.mro():
                for n, fi in c.methods.items():
                    if n == "to_tf":
                        self.handlers["tfl_op"].add(fi.node)
        self.dynamic = 0
        self.build()

    def targets_of(self, o):
        if o[0] == "func":
            return [o[1]]
        if o[0] == "bound":
            return [o[2].node]
        if o[0] == "cls":
            return [fi.node for n in ("__init__", "__new__") for fi in [o[1].find(n)] if fi is not None]
        if o[0] == "inst":
            fi = o[1].find("__call__")
            return [fi.node] if fi is not None else []
        return []

    def build(self):
        x = self.x
        scopes = x.flow.scopes
        named = set()               # functions some function mentions: they run after that
        for s in scopes.values():
            x.cur = s
            if isinstance(s.node, ast.Module):
                continue
            for n in x.nodes[s.node]:
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not (s.defs is not None and n in s.defs.loads):
                    named |= {t for o in x.types(n) if o[0] == "func" for t in self.targets_of(o)}
        for s in scopes.values():
            x.cur = s
            out = self.edges.setdefault(s.node, [])
            for n in x.nodes[s.node]:
                if isinstance(n, ast.Call):
                    var = isinstance(n.func, ast.Name) and s.defs is not None and n.func in s.defs.loads
                    for o in x.facts.calls.get(n, ()):
                        for t in self.targets_of(o):
                            if t in scopes and not (var and t in named):
                                out.append((n, t))
                        if o[0] in ("bound", "func") and not isinstance(s.node, ast.Module):
                            f = o[2] if o[0] == "bound" else scopes[o[1]].fi if o[1] in scopes else None
                            c = getattr(f, "cls", None)
                            own = getattr(s.fi, "cls", None)
                            if c is not None and c.full in REGISTRY and not f.node.name.startswith("__") and not (own is not None and own.full in REGISTRY):
                                self.dynamic += 1
                                for h in self.handlers[c.full.split(":")[1]]:
                                    out.append((n, h))
                elif isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load) and not isinstance(s.node, ast.Module):
                    if isinstance(n, ast.Name) and s.defs is not None and n in s.defs.loads and not any(isinstance(d, ast.FunctionDef) for d in s.defs.loads[n]):
                        continue
                    for o in x.types(n):
                        if o[0] in ("func", "bound"):
                            for t in self.targets_of(o):
                                if t in scopes:
                                    out.append((n, t))
                        elif o[0] == "inst" and isinstance(n, ast.Attribute):
                            pass
                elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n in scopes and not isinstance(s.node, ast.Module):
                    pass
            # properties
            if not isinstance(s.node, ast.Module):
                for n in x.nodes[s.node]:
                    if isinstance(n, ast.Attribute):
                        for o in x.types(n.value):
                            if o[0] in ("inst", "super"):
                                fi = o[1].find(n.attr)
                                if fi is not None and fi.node in scopes:
                                    out.append((n, fi.node))

    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            todo.extend(t for _, t in self.edges.get(n, ()))
        return seen

    # ---- set anew before it is read
    def flat(self, node):
        """statements of a function that always run, in order"""
        out = []
        body = node.body if isinstance(node, (ast.FunctionDef, ast.Module)) else []

        def go(b):
            for st in b:
                out.append(st)
                if isinstance(st, ast.With):
                    go(st.body)
                elif isinstance(st, ast.Try) and st.finalbody and not st.handlers:
                    go(st.body)
        go(body)
        return out

    def sites_in(self, st):
        """nodes of a statement without the blocks that flat lists on their own"""
        out = []
        todo = [st]
        while todo:
            n = todo.pop()
            out.append(n)
            if isinstance(n, ast.With):
                todo.extend(n.items)
                continue
            if isinstance(n, ast.Try) and n.finalbody and not n.handlers:
                todo.extend(n.finalbody)
                continue
            if n is not st and isinstance(n, (ast.FunctionDef, ast.Lambda)):
                continue
            todo.extend(ast.iter_child_nodes(n))
        return set(out)

    def before_reset(self, roots, resets, uses):
        """functions that use the state and that run before it is set anew; resets: {function: sites}, uses: {function: sites}"""
        # functions that set it whenever they return
        sure = {}
        for _ in range(6):
            n = len(sure)
            for node in self.edges:
                if node in sure or not isinstance(node, ast.FunctionDef):
                    continue
                for i, st in enumerate(self.flat(node)):
                    ns = self.sites_in(st)
                    blocky = isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.FunctionDef))
                    if blocky:
                        if isinstance(st, ast.For):
                            ns = set(ast.walk(st.iter))
                        elif isinstance(st, (ast.If, ast.While)):
                            ns = set(ast.walk(st.test))
                        else:
                            continue
                    if any(y in ns for y in resets.get(node, ())) or any(c in ns and isinstance(c, ast.Call) and t in sure for c, t in self.edges[node]):
                        sure[node] = i
                        break
            if len(sure) == n:
                break
        bad = {}
        self.way = {}
        seen, todo = set(), [(r, None) for r in roots]
        while todo:
            node, via = todo.pop()
            if node in seen:
                continue
            seen.add(node)
            self.way[node] = (self.way[via] + " > " if via else "") + self.x.flow.scopes[node].name()
            if node in sure:
                sts = self.flat(node)
                early = set()
                for st in sts[:sure[node]]:
                    early |= self.sites_in(st)
                last = self.sites_in(sts[sure[node]])
            else:
                early = last = None
            for y in uses.get(node, ()):
                if early is None or y in early:
                    bad[node] = y
            for c, t in self.edges.get(node, ()):
                if early is None or c in early or c in last and t in sure:
                    todo.append((t, node))
        return bad


def reads_of(x, root):
    """{function: nodes} that read a module variable or field"""
    out = {}
    for s in x.flow.scopes.values():
        if isinstance(s.node, ast.Module):
            continue
        x.cur = s
        for n in x.nodes[s.node]:
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                if isinstance(n, ast.Name) and n.id != root[-1] and root[0] == "g" or isinstance(n, ast.Attribute) and n.attr != root[-1]:
                    if not isinstance(n, ast.Name):
                        continue
                if (root, 0) in (x.x_Name(n) if isinstance(n, ast.Name) and n.id == root[-1] else x.ev(n) if isinstance(n, ast.Attribute) else ()):
                    out.setdefault(s.node, []).append(n)
    return out


def texts_only(x, n):
    """does the value go into a text, or nowhere"""
    p = x.parents.get(n)
    while p is not None:
        if isinstance(p, (ast.JoinedStr, ast.FormattedValue)):
            return True
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "format" and n is not p.func:
            return True
        if isinstance(p, ast.Call) and isinstance(p.func, ast.Name) and p.func.id == "str":
            return True
        if isinstance(p, ast.BinOp) and isinstance(p.op, ast.Mod) and isinstance(p.left, ast.Constant) and isinstance(p.left.value, str):
            return True
        if not isinstance(p, (ast.Tuple, ast.Starred)):
            return False
        p = x.parents.get(p)
    return False


def counter(x, root, writes, reads):
    """counts up, and goes into texts"""
    for node, n in writes:
        st = x.statement(n)
        if isinstance(st, ast.AugAssign) and isinstance(st.op, ast.Add):
            continue
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Name) and st.value.func.id == "max":
            continue
        if isinstance(st, ast.Assign) and isinstance(st.value, ast.BinOp) and isinstance(st.value.op, ast.Add):
            continue
        return False
    ws = {x.statement(n) for _, n in writes}
    for node, ns in reads.items():
        for n in ns:
            if x.statement(n) not in ws and not texts_only(x, n) and not isinstance(x.parents.get(n), ast.AugAssign):
                # compared with what it is about to become
                p = x.parents.get(n)
                if isinstance(p, ast.Compare):
                    continue
                return False
    return True


def aliases(x, s, ns):
    """the places where a value is used, through local names for it"""
    out, todo, seen = [], list(ns), set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        p = x.parents.get(n)
        if isinstance(p, ast.Assign) and p.value is n and all(isinstance(t, ast.Name) for t in p.targets) and s.defs is not None:
            todo += [y for y, ds in s.defs.loads.items() if any(t in ds for t in p.targets)]
            continue
        out.append(n)
    return out


NO = object()


def constant(x, s, e, depth=0):
    """the one value an expression has in every conversion, or NO"""
    if isinstance(e, ast.Constant):
        return e.value
    if depth > 6:
        return NO
    if isinstance(e, ast.Name) and s.defs is not None:
        vals = set()
        for d in s.defs.loads.get(e, ()):
            if isinstance(d, ast.arg) and d in x.owner:
                vals.add(constant_param(x, x.owner[d].node, d, depth + 1))
            elif isinstance(d, ast.Name):
                for y, how in x.defval.get(d, ()):
                    vals.add(constant(x, s, y, depth + 1) if how == "is" else NO)
            else:
                return NO
        return vals.pop() if len(vals) == 1 else NO
    if isinstance(e, ast.Attribute):
        x.cur = s
        cells = {r for r, k in x.ev(e) if r[0] == "a"}
        if len(cells) != 1:
            return NO
        cls, attr = next(iter(cells))[1:]
        vals = set()
        for t in x.flow.scopes.values():
            x.cur = t
            for n in x.nodes[t.node]:
                if isinstance(n, ast.Assign):
                    for g in n.targets:
                        if isinstance(g, ast.Attribute) and g.attr == attr:
                            vals.add(constant(x, t, n.value, depth + 1))
        return vals.pop() if len(vals) == 1 else NO
    return NO


def constant_param(x, node, p, depth=0):
    a = node.args
    ps = a.posonlyargs + a.args
    default = dict(zip(ps[len(ps) - len(a.defaults):], a.defaults)) if a.defaults else {}
    default.update({q: d for q, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    vals = set()
    for s in x.flow.scopes.values():
        x.cur = s
        for e in x.nodes[s.node]:
            if isinstance(e, ast.Call):
                for t, off in x.targets(e):
                    if t is not node:
                        continue
                    x.cur = s
                    got = [k.value for k in e.keywords if k.arg == p.arg]
                    if not got and p in ps and not any(isinstance(y, ast.Starred) for y in e.args):
                        i = ps.index(p) - (1 if off else 0)
                        got = e.args[i:i + 1] if i >= 0 else []
                    if any(k.arg is None for k in e.keywords) or any(isinstance(y, ast.Starred) for y in e.args):
                        return NO
                    if not got and p not in default:
                        return NO
                    vals.add(constant(x, s, got[0] if got else default[p], depth + 1))
    if not vals and p in default:
        vals.add(constant(x, x.owner[p], default[p], depth + 1))
    return vals.pop() if len(vals) == 1 else NO


def constant_params(x, node):
    """parameters that have the same value in every call"""
    a = node.args
    return {p for p in a.posonlyargs + a.args + a.kwonlyargs if constant_param(x, node, p) is not NO}


def params_in(x, s, e, depth=0, seen=None):
    """parameters an expression depends on"""
    seen = seen if seen is not None else set()
    out = set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            for d in (s.defs.loads.get(n, ()) if s.defs is not None else ()):
                if isinstance(d, ast.arg):
                    out.add(d)
                elif isinstance(d, ast.Name) and d not in seen:
                    seen.add(d)
                    for y, how in x.defval.get(d, ()):
                        if isinstance(y, ast.Name) or depth < 8:
                            out |= params_in(x, s, y, depth + 1, seen)
    return out


def cache(x, root, writes, reads):
    """one function fills and reads it, and what it stores follows from the key"""
    fs = {node for node, _ in writes} | set(reads)
    if len(fs) != 1:
        return False
    node = next(iter(fs))
    s = x.flow.scopes[node]
    for _, n in writes:
        st = x.statement(n)
        if not (isinstance(st, ast.Assign) and all(isinstance(t, ast.Subscript) or isinstance(t, ast.Name) for t in st.targets)):
            return False
        t = [t for t in st.targets if isinstance(t, ast.Subscript)]
        if len(t) != 1:
            return False
        if not params_in(x, s, st.value) - constant_params(x, node) <= params_in(x, s, t[0].slice):
            return False
    for n in aliases(x, s, reads.get(node, ())):
        p = x.parents.get(n)
        if isinstance(p, ast.Subscript) or isinstance(p, ast.Compare) or isinstance(p, ast.Attribute) and p.attr in ("get", "setdefault"):
            continue
        return False
    return True


def mutable_default(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.Call))


def run(rep):
    proj = Project(fixtures=("effects",))
    for r, t in RULES.items():
        rep.rule(r, t)
    x = Effects(proj, seeds=handler_seeds(proj))
    live = x.escaping()
    st = State(proj, x)
    if not st.dynamic:
        raise AnalysisBroken("nothing asks the registry for handlers")
    ents = entries(proj, x)
    roots = [s.node for s in ents if not is_fixture(s.mod) and s.mod.name != "tf2onnx.tf_loader"]
    # optimizers are called through a table, custom opsets and handlers through the registry
    seen = st.reach(roots) | st.reach(st.handlers["tf_op"] | st.handlers["tfl_op"])
    methods = [s.node for s in x.flow.scopes.values() if s.fi is not None and s.fi.cls is not None and s.mod.name.startswith(("tf2onnx.optimizer", "tf2onnx.graph", "tf2onnx.shape_inference"))]
    seen |= st.reach(methods)
    fix = {s.node for s in x.flow.scopes.values() if s.fi is not None and is_fixture(s.mod) and s.fi.qual.startswith(("bad_", "good_"))}
    fixseen = st.reach(fix)
    writes = {}                     # root -> [(function, site, how)]
    for (node, r, k, l), sites in live.items():
        if isinstance(node, ast.Module) or r[0] not in "gax":
            continue
        for (n, how), via in sites.items():
            if via is None:
                writes.setdefault((r, is_fixture(x.flow.scopes[node].mod)), []).append((node, n, how))
    got = set()
    kinds = {}
    for (r, infix), ws in sorted(writes.items(), key=lambda y: str(y[0])):
        ok = fixseen if infix else seen
        ws = [w for w in ws if w[0] in ok]
        if not ws:
            continue
        if r[0] == "a" and not class_state(x, r, ws):
            continue
        what = ".".join(str(p).replace(":", ".") for p in r[1:])
        if r[0] == "x":
            kind = None
        else:
            reads = {n: v for n, v in reads_of(x, r).items() if n in ok}
            w2 = [(node, n) for node, n, how in ws]
            if counter(x, r, w2, reads):
                kind = "counter"
            elif cache(x, r, w2, reads):
                kind = "cache"
            else:
                resets, uses = {}, {k: list(v) for k, v in reads.items()}
                for node, n, how in ws:
                    if how == "assigns" and not isinstance(x.statement(n), ast.AugAssign) or how == "calls clear of":
                        resets.setdefault(node, []).append(n)
                    else:
                        uses.setdefault(node, []).append(n)
                for node, ns in resets.items():     # reading the variable to clear it
                    sub = {y for n in ns for y in ast.walk(n)}
                    if node in uses:
                        uses[node] = [y for y in uses[node] if y not in sub]
                bad = st.before_reset(roots if not infix else fix, resets, uses)
                kind = "set anew" if not bad else None
                if bad and not infix:
                    rep.sample("use of %s" % what, "used before it is set anew: " + "; ".join(sorted(st.way[n] for n in bad)[:3]))
        if kind:
            kinds.setdefault(kind, []).append(what)
            continue
        if infix:
            got |= {x.flow.scopes[node].fi.qual for node, n, how in ws}
            got |= {f.name for f in fix if st.reach([f]) & {w[0] for w in ws}}
            continue
        for node, n, how in sorted(ws, key=lambda w: (x.flow.scopes[w[0]].mod.rel, w[1].lineno)):
            s = x.flow.scopes[node]
            rep.find("library-left" if r[0] == "x" else "state-left", "%s modified by %s" % (what, s.name()),
                     "%s %s %s, which stays so after the conversion" % (s.name(), how, what), "%s:%d (%s)" % (s.mod.rel, n.lineno, s.name()))
    # default arguments
    nd = 0
    kept = x.storing()
    for s in x.flow.scopes.values():
        a = getattr(s.node, "args", None)
        if a is None:
            continue
        ps = a.posonlyargs + a.args
        pairs = list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for p, d in pairs:
            if not mutable_default(d):
                continue
            nd += 1
            for (node, r, k, l) in live:
                if node is s.node and r == ("p", p):
                    if is_fixture(s.mod):
                        got.add(s.name())
                    else:
                        rep.find("default-argument", "%s %s" % (s.name(), p.arg), "%s modifies the default value of %s" % (s.name(), p.arg), "%s:%d (%s)" % (s.mod.rel, s.node.lineno, s.name()))
                    break
    rep.count("functions reached", len(seen))
    rep.count("state modified", sum(1 for (r, f), ws in writes.items() if not f and any(w[0] in seen for w in ws)))
    rep.count("mutable defaults", nd)
    rep.count("modifications a finally undoes", len(x.undone))
    for k, v in kinds.items():
        rep.count(k, len(v))
        rep.sample(k, k + ": " + ", ".join(v))
    rep.floor("functions reached", 900)
    rep.floor("counter", 1)
    rep.floor("set anew", 1)
    got &= {f.name for f in fix if isinstance(f, ast.FunctionDef)}
    rep.selftest("violations in the fixture are found: missing %s" % sorted(BAD - got), BAD <= got)
    rep.selftest("nothing else in the fixture is: %s" % sorted(g for g in got if g.startswith("good_")), not [g for g in got if g.startswith("good_")])
    rep.assumptions += ["Functions that only run while modules are imported (registrations by decorators) set up the same state in every process.",
                        "Numbers that make internal names unique go into names only; models that differ in such names alone count as the same.",
                        "Settings of the command line tool (debug mode, log level) are the user's.",
                        "State inside TensorFlow (tf.function traces, the default session) is not looked at."]


def class_state(x, r, ws):
    """is the field shared by all objects of the class"""
    if any(how == "assigns" for _, _, how in ws):
        return True
    cls, attr = r[1], r[2]
    mod, q = cls.split(":")
    ci = x.proj.modules[mod].classes.get(q) if mod in x.proj.modules else None
    if ci is None:
        return False
    body = any(isinstance(t, ast.Name) and t.id == attr for b in ci.node.body for t in getattr(b, "targets", [getattr(b, "target", None)]))
    if not body:
        return False
    for fi in ci.methods.values():
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in ("self",):
                return False
    return True
