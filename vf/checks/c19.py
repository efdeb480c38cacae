"""C19: an op that is re-created is the same op, and the model declares the domain of every op it holds."""
import ast

from ..project import Project, Global, Ext, is_fixture, walk_own
from ..provenance import Calls, Ctx
from ..options import run_unit, terms
from ..absint import Sym, Const, NONE
from ..registry import load, const_eval
from .. import registry

EXPLANATION = ("Every call that makes a node of an operator read from another node, with that node's inputs, re-creates that node; the value flow of its arguments must bring along "
               "the domain, the attributes, the body graphs and the conversion mark of the node it replaces. Every constant domain a node is given is followed to the handlers that can "
               "reach the site, and what make_model declares is computed path by path.")
RULES = {
    "copy-incomplete": "a re-created node gets domain, attributes, body graphs and conversion mark of the one it replaces",
    "domain-undeclared": "a domain other than the default ones is only used by handlers registered for it",
    "imports": "the model declares the opset of the graph, of ai.onnx.ml and of every extra domain",
}
WANT = {"domain": ("domain",), "attr": ("attr", "get_onnx_attrs", "attr_onnx", "_attr", "attribute"),
        "branches": ("get_body_graphs", "contained_graphs", "body_graphs"), "skip_conversion": None}
FORMAL = ["op_type", "inputs", "attr", "output_count", "outputs", "skip_conversion", "op_name_scope", "name", "shapes", "dtypes", "domain", "infer_shape_dtype", "branches"]


def bound(call, formals):
    env = dict(zip(formals, call.args))
    for k in call.keywords:
        env[k.arg or "**"] = k.value
    return env


def copied(ctx, env):
    """the node a make_node call re-creates, or None"""
    t, i = env.get("op_type"), env.get("inputs")
    if t is None or i is None:
        return None
    c, t = ctx.single(t)
    if not (isinstance(t, ast.Attribute) and (t.attr == "type" or t.attr == "op_type" and isinstance(t.value, ast.Attribute) and t.value.attr in ("op", "_op"))):
        return None         # .op_type of a proto: the decomposed einsum, which is no node of the graph yet
    base = c.base(t.value)
    c, i = ctx.single(i)
    while True:
        if isinstance(i, ast.Call) and isinstance(i.func, ast.Name) and i.func.id in ("list", "tuple") and len(i.args) == 1:
            c, i = c.single(i.args[0])
        elif isinstance(i, ast.Call) and isinstance(i.func, ast.Attribute) and i.func.attr == "copy" and not i.args:
            c, i = c.single(i.func.value)
        elif isinstance(i, ast.Subscript) and isinstance(i.slice, ast.Slice) and i.slice.lower is None and i.slice.upper is None:
            c, i = c.single(i.value)
        elif isinstance(i, (ast.ListComp, ast.GeneratorExp)) and len(i.generators) == 1:
            c, i = c.single(i.generators[0].iter)
        else:
            break
    if isinstance(i, ast.Attribute) and i.attr in ("input", "_input") and c.base(i.value) == base:
        return base
    return None


def brings(ctx, e, base, names):
    """does the value of e come from one of these attributes of the node"""
    for c, n in ctx.mentions(e):
        if isinstance(n, ast.Attribute) and n.attr in names:
            if c.base(n.value) == base:
                return True
            # node.graph.contained_graphs[node.name]
            if n.attr in ("contained_graphs", "body_graphs"):
                return True
    return False


def later(fi, call, ctx, base, field):
    """the call's result is given the field afterwards"""
    s = ctx.s
    res = {t.id for n in walk_own(fi.node) if isinstance(n, ast.Assign) and n.value is call for t in n.targets if isinstance(t, ast.Name)}
    if not res:
        return False
    for n in walk_own(fi.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id in res and t.attr.strip("_") in (field, "attr") and \
                        brings(ctx, n.value, base, WANT[field] or ("skip_conversion",)):
                    return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in res and \
                n.func.attr in {"attr": ("set_attr", "set_attr_onnx", "copy_attributes"), "branches": ("set_body_graph_as_attr",)}.get(field, ()):
            if any(brings(ctx, a, base, WANT[field]) for a in n.args):
                return True
    return False


def copies(rep, proj, fixtures, got):
    calls = Calls(proj, fixtures)
    seen = set()
    for fi, call in calls.by.get("make_node", ()):
        if not isinstance(call.func, ast.Attribute) or any(isinstance(x, ast.Starred) for x in call.args):
            continue
        r = proj.resolve_expr(fi.mod, call.func)
        if isinstance(r, Ext):
            continue        # onnx.helper.make_node: not a node of a graph
        env = bound(call, FORMAL)
        if not fixtures:
            rep.count("make_node calls")
        if isinstance(env.get("op_type"), ast.Constant):
            continue
        for ctx in calls.contexts(fi):
            base = copied(ctx, env)
            if base is None:
                continue
            if not fixtures:
                rep.count("re-created nodes") if call not in seen else None
                seen.add(call)
                rep.sample("%s:%d" % (fi.mod.rel, call.lineno), "%s re-creates %s" % (fi.qual, base[1][:60]))
            for field, names in WANT.items():
                e = env.get(field)
                x = env.get("**")
                if isinstance(x, ast.Name) and fi.node.args.kwarg is not None and x.id == fi.node.args.kwarg.arg and x.id not in ctx.links:
                    continue        # decided for each caller
                ok = e is not None and (names is None or brings(ctx, e, base, names)) or x is not None and (names is None or brings(ctx, x, base, names)) or later(fi, call, ctx, base, field)
                if not fixtures:
                    rep.count("fields of re-created nodes")
                if not ok:
                    got.add((fi.qual, field))
                    if not fixtures:
                        rep.find("copy-incomplete", "%s %s" % (fi.full, field),
                                 "%s re-creates a node without %s" % (fi.qual, {"domain": "its domain", "attr": "its attributes", "branches": "its body graphs",
                                                                               "skip_conversion": "saying whether it is still to be converted"}[field]),
                                 "%s:%d (%s)" % (fi.mod.rel, call.lineno, fi.qual))


# ------------------------------------------------------------------ what the model declares
def declared(rep, proj):
    """domains make_model always declares; findings for what it does not hand on"""
    fi = proj.func("tf2onnx.graph", "Graph.make_model")
    args = [Sym("param", a.arg) for a in fi.node.args.args]
    ip, outs = run_unit(proj, fi, args, {"tf2onnx.graph"}, {"onnx.helper.make_model", "onnx.helper.make_opsetid", "onnx.helper.make_operatorsetid"})
    always = None
    n = 0
    for s, env, st, e, cur, order in ip.events:
        if s != "onnx.helper.make_model":
            continue
        n += 1
        rep.count("models made")
        loc = "%s:%d (%s)" % (fi.mod.rel, e.lineno, cur.qual)
        if "**" in env:
            rep.count("undecided models")
            continue
        ts = set()
        terms(st, env.get("opset_imports", NONE), ts)
        doms = {}
        for t in ts:
            if isinstance(t, Sym) and t.op == "call" and str(t.args[0]).startswith("onnx.helper.make_op") and len(t.args) == 3 and isinstance(t.args[1], Const):
                doms[t.args[1].v] = t.args[2]
        always = set(doms) if always is None else always & set(doms)
        v = doms.get("")
        if not (isinstance(v, Sym) and v.op == "getattr" and v.args[0] == args[0] and v.args[1] in ("opset", "_opset")):
            rep.find("imports", "main opset", "make_model does not declare the opset of the graph", loc)
        ext = [t for t in ts if isinstance(t, Sym) and t.op == "getattr" and t.args[0] == args[0] and t.args[1] in ("extra_opset", "_extra_opset")]
        known_none = any(isinstance(k, Sym) and k.op == "isnone" and isinstance(k.args[0], Sym) and k.args[0].op == "getattr" and
                         k.args[0].args[1] in ("extra_opset", "_extra_opset") and b is True for k, b in st.pc.items()) or \
            any(isinstance(k, Sym) and k.op == "getattr" and k.args[1] in ("extra_opset", "_extra_opset") and b is False for k, b in st.pc.items())
        if not ext and not known_none and not st.facts.get("zero"):
            rep.find("imports", "extra opsets", "make_model does not declare the extra opsets of the graph", loc)
    rep.floor("models made", 1)
    return always or set()


# ------------------------------------------------------------------ constant domains nodes are given
def domain_sites(proj, fixtures):
    for fi in proj.all_functions(fixtures=fixtures):
        for n in walk_own(fi.node):
            vs = []
            if isinstance(n, ast.Assign):
                vs = [(n.value, n) for t in n.targets if isinstance(t, ast.Attribute) and t.attr == "domain"]
            elif isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
                if nm in ("tf_op", "tfl_op", "make_opsetid", "find_effective_op", "get_schema", "get_max_supported_opset_version"):
                    continue
                vs = [(k.value, n) for k in n.keywords if k.arg == "domain"]
                if nm == "make_node" and len(n.args) > 10:
                    vs.append((n.args[10], n))
            for v, at in vs:
                for x in ast.walk(v):
                    try:
                        d = const_eval(proj, fi.mod, x)
                    except ValueError:
                        continue
                    if isinstance(d, str):
                        yield fi, at, d


def domains(rep, proj, always, got):
    from ..effects import Effects
    from .c13 import State
    from .c12 import handler_seeds
    x = Effects(proj, seeds=handler_seeds(proj))
    st = State(proj, x)
    hs, _ = registry.load(proj)
    of = {}
    for h in hs:
        of.setdefault(h.fi.node, set()).add(h.domain)
    dispatched = st.handlers["tf_op"] | st.handlers["tfl_op"]
    callers = {}
    for n, out in st.edges.items():
        for site, t in out:
            if t in dispatched and not direct(site, t):
                continue            # the registry decides which handler runs
            callers.setdefault(t, set()).add(n)
    for fixtures in (False, True):
        for fi, at, d in domain_sites(proj, fixtures):
            if not fixtures:
                rep.count("constant domains given to nodes")
            if d in always:
                continue
            bad = reach_other(fi.node, d, callers, of, x)
            rep.count("sites of other domains" if not fixtures else "fixture sites")
            rep.sample("%s:%d" % (fi.mod.rel, at.lineno), "%s gives a node the domain %s" % (fi.qual, d)) if not fixtures else None
            if bad is None:
                continue
            if fixtures:
                got.add((fi.qual, "site"))
                continue
            rep.find("domain-undeclared", "%s %s" % (fi.full, d), "%s puts nodes of the domain %s into models that do not declare it (reached from %s)" % (fi.qual, d, bad),
                     "%s:%d (%s)" % (fi.mod.rel, at.lineno, fi.qual))


def direct(site, t):
    """a call that names the handler"""
    return isinstance(site, ast.Call) and isinstance(site.func, ast.Attribute) and site.func.attr == getattr(t, "name", None)


def reach_other(node, d, callers, of, x):
    """a root that reaches the function without being a handler of that domain"""
    seen, todo, bad = set(), [node], set()
    while todo:
        n = todo.pop()
        if n in seen:
            continue
        seen.add(n)
        s = x.flow.scopes.get(n)
        up = callers.get(n, ())
        if n in of:
            if of[n] - {d}:
                bad.add("the handler %s" % s.name())
        elif isinstance(n, ast.Module):
            bad.add(s.mod.name)
        elif not up and s is not None:
            bad.add(s.name())
        todo.extend(up)
    return min(bad) if bad else None


BAD = {("bad_copy_domain", "domain"), ("bad_copy_attr", "attr"), ("bad_copy_bodies", "branches"), ("bad_copy_skip", "skip_conversion"), ("_make3", "domain"), ("bad_constant", "domain"),
       ("bad_site", "site")}


def run(rep):
    proj = Project(fixtures=("copies",))
    for r, t in RULES.items():
        rep.rule(r, t)
    got = set()
    copies(rep, proj, False, got)
    fix = set()
    copies(rep, proj, True, fix)
    always = declared(rep, proj)
    rep.selftest("the default domains are declared: %s" % sorted(always), "" in always)
    domains(rep, proj, always, fix)
    rep.selftest("violations in the fixture are found: missing %s" % sorted(BAD - fix), BAD <= fix)
    rep.selftest("nothing else in the fixture is: %s" % sorted(fix - BAD), not fix - BAD)
    rep.floor("re-created nodes", 4)
    rep.floor("constant domains given to nodes", 8)
    rep.assumptions += ["Custom handlers and rewriters given by the caller are not looked at.",
                        "A handler registered for a domain only runs when extra_opset names the domain (checked by C03)."]
