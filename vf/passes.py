"""Units of the passes before and after the op mapping: rewriters, late rewriters and optimizers.

Roots are what the pipeline calls (pass(g, ops), Optimizer().optimize(graph, 0)).  Functions and methods of those packages the roots do not
reach statically (they sit in dispatch tables) are analysed on their own with unknown arguments.
"""
import ast

from .absint import Const, Sym, ClsV, Budget, NONE
from .gmodel import GraphInterp
from .project import AnalysisBroken, is_fixture

GRAPHY = ("g", "graph", "ctx", "parent_g", "parent_graph")
MAX = 400000


class Unit:
    def __init__(self, fi, kind, cls=None, stage="rewriter"):
        self.fi, self.kind, self.cls, self.stage = fi, kind, cls, stage

    @property
    def name(self):
        return self.cls.node.name if self.kind == "opt" else self.fi.qual


def stage_of(mod):
    n = mod.name
    if ".tflite_rewriters" in n:
        return "tflite"
    if ".late_rewriters" in n:
        return "late"
    if ".rewriter" in n:
        return "rewriter"
    if ".optimizer" in n:
        return "optimizer"
    return None


def is_method(fi):
    return fi.cls is not None and "staticmethod" not in fi.decos


def roots(proj):
    """passes by shape: module-level functions of two parameters in the rewriter packages, classes with optimize() in the optimizer package"""
    drv = [f for m in proj.modules.values() for q, f in m.functions.items() if q == "vf_run_optimizer"][0]
    res = []
    for m in proj.modules.values():
        s = stage_of(m) if not is_fixture(m) else ("optimizer" if "passes" in m.name else None)
        if s is None:
            continue
        for q, fi in m.functions.items():
            if "." not in q and q.startswith("rewrite") and len(fi.node.args.args) == 2:
                res.append(Unit(fi, "pass", stage=s if not is_fixture(m) else "rewriter"))
        for q, ci in m.classes.items():
            if s == "optimizer" and ci.find("optimize") is not None and "_optimize" in ci.methods and ci.find("optimize").cls is not ci:
                res.append(Unit(drv, "opt", ci, s))
    return res


def rest(proj, reached):
    """functions of the pass packages nothing reached, that touch the graph"""
    res = []
    for m in proj.modules.values():
        s = stage_of(m)
        if s is None or is_fixture(m):
            continue
        for q, fi in m.functions.items():
            if fi.full in reached or "<locals>" in q or fi.is_gen:
                continue
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and (n.func.attr.startswith(("make_", "insert_", "set_attr", "remove_", "replace_"))
                                                                                      or n.func.attr == "set_attr") for n in ast.walk(fi.node)):
                res.append(Unit(fi, "func", stage=s))
    return res


def run_unit(proj, u, opset, mon, scale=1, steps=None):
    ip = GraphInterp(proj, mon, opset)
    ip.scale = scale
    if steps:
        ip.STEP_BUDGET = steps
    ip.reset()
    st = ip.init_state()
    mon.begin(ip, st, u)
    try:
        if u.kind == "pass":
            args = [ip.GRAPH, Sym("nodes", "G", 0)]
        elif u.kind == "opt":
            args = [ClsV(u.cls), ip.GRAPH]
        else:
            a = u.fi.node.args
            ps = [x.arg for x in a.args]
            args = []
            for i, p in enumerate(ps[:len(ps) - len(a.defaults)] if a.defaults else ps):
                if i == 0 and is_method(u.fi):
                    args.append(ClsV(u.fi.cls) if "classmethod" in u.fi.decos else Sym("self", u.fi.cls.full))
                elif p in GRAPHY:
                    args.append(ip.GRAPH)
                else:
                    args.append(Sym("param", p))
        outs = ip.run(u.fi, args, {}, st)
        ip.finish(outs)
        mon.n_paths = len(outs)
        mon.count("paths", len(outs))
    except Budget:
        mon.count("budget")
        mon.n_paths = 0
    if ip.joined:
        mon.count("joined_units")
    mon.count("steps", ip.steps)
    return ip


def over_cells(proj, u, make_mon, opsets, scale=1, steps=None):
    """-> list of (monitor, opsets, functions entered)"""
    res = []
    todo = list(opsets)
    while todo:
        o = todo[-1]
        mon = make_mon()
        ip = run_unit(proj, u, o, mon, scale, steps)
        c = [o] if ip.opset_exact else [p for p in todo if not any(min(o, p) < b <= max(o, p) for b in ip.opset_bounds)]
        res.append((mon, c, ip.entered))
        todo = [x for x in todo if x not in c]
    return res


def mentions_opset(node):
    return any(isinstance(n, ast.Attribute) and n.attr == "opset" or isinstance(n, ast.Name) and n.id == "opset" for n in ast.walk(node))


def called_names(node):
    for n in ast.walk(node):
        if isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute):
                yield f.attr
            elif isinstance(f, ast.Name):
                yield f.id


def opset_settled_elsewhere(proj):
    """-> predicate on functions analysed on their own: may what surrounds them keep them from running at some opsets?

    True when a caller (transitively, by name, within the pass packages), a function a caller asks in a condition, or the function's own nested
    early exit mentions the opset: there the analysis does not see, or loses, the correlation.
    """
    fns = [fi for m in proj.modules.values() if stage_of(m) and not is_fixture(m) for fi in m.functions.values()]
    refs = {}
    for fi in fns:
        names = {n.attr if isinstance(n, ast.Attribute) else n.id for n in ast.walk(fi.node) if isinstance(n, (ast.Attribute, ast.Name))}
        for nm in names:
            refs.setdefault(nm, set()).add(fi)
    by_name = {}
    for fi in fns:
        by_name.setdefault(fi.qual.split(".")[-1], set()).add(fi)

    texts = {m: {(n.module or "").split(".")[-1] for n in ast.walk(m.tree) if isinstance(n, ast.ImportFrom)}
             | {a.name.split(".")[-1] for n in ast.walk(m.tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names} for m in proj.modules.values() if stage_of(m)}

    def related(a, b):
        return a is b or a.name.split(".")[-1] in texts[b] or b.name.split(".")[-1] in texts[a]

    def guards(fi):
        if mentions_opset(fi.node):
            return True
        for n in ast.walk(fi.node):
            if isinstance(n, (ast.If, ast.IfExp, ast.While)):
                for nm in called_names(n.test):
                    if any(mentions_opset(x.node) for x in by_name.get(nm, ())):
                        return True
        return False

    def nested_exit(fi):
        for top in fi.node.body:
            for n in ast.walk(top):
                if n is not top and isinstance(n, ast.If) and mentions_opset(n.test) and any(isinstance(x, (ast.Return, ast.Raise, ast.Continue)) for s in n.body for x in ast.walk(s)):
                    return True
        return False

    def settled(fi):
        if nested_exit(fi):
            return True
        todo, seen = [fi], {fi}
        while todo:
            f = todo.pop()
            for c in refs.get(f.qual.split(".")[-1], ()):
                if c not in seen and related(c.mod, f.mod):
                    if guards(c):
                        return True
                    seen.add(c)
                    todo.append(c)
        return False
    return settled
