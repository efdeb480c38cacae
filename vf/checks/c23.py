"""C23: code reached only by rare models refers only to what exists."""
from ..project import Project, is_fixture
from ..flow import Flow
from .. import registry, refs, apirun

EXPLANATION = ("Value flow over the whole package (vf/flow.py): which objects every expression may be, with reaching definitions for locals. A reference is reported "
               "when none of the objects it may refer to has what is asked for; receivers that may be unknown are not judged.")
RULES = {
    "unbound-name": "every name read is bound by then, in some scope",
    "no-such-member": "every member read exists on the module, class or object it is read from",
    "bad-call": "every call fits the parameters of what it calls",
    "bad-operands": "text and numbers or lists are not added",
    "bad-format": "format strings have as many places as values",
    "bad-import": "every name imported from a module of the project exists there",
    "no-such-pattern-element": "every pattern element looked up in a match is one some pattern names",
}
PATH_RULES = {
    "unbound-variable": "no path of a conversion reads a local variable it has not bound",
    "no-such-attribute": "no path of a conversion reads an attribute that text, a number, a list or a tuple does not have",
    "text-and-number": "no path of a conversion adds text and a type, rank or length",
}


def build(proj):
    hs, _ = registry.load(proj)
    g = proj.cls("tf2onnx.graph", "Graph")
    n = proj.cls("tf2onnx.graph", "Node")
    seeds = {}
    for h in hs:
        a = h.fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if h.fi.kind in ("class", "inst"):
            ps = ps[1:]
        if len(ps) > 0:
            seeds[(h.fi, ps[0])] = frozenset([("inst", g)])
        if len(ps) > 1:
            seeds[(h.fi, ps[1])] = frozenset([("inst", n)])
    flow = Flow(proj, seeds=seeds)
    flow.proj_name = "tf2onnx"
    flow.run()
    return flow


def run(rep):
    proj = Project(fixtures=("refs",))
    for r, t in RULES.items():
        rep.rule(r, t)
    flow = build(proj)
    got = {}

    def hit(rule, mod, node, scope, key, msg):
        if is_fixture(mod):
            got.setdefault(scope.split(".")[0], set()).add(rule)
            return
        rep.find(rule, "%s:%s %s" % (mod.name, scope, key), "%s %s" % (scope, msg), "%s:%d (%s)" % (mod.rel, node.lineno, scope))
    c = refs.Refs(rep, hit)
    c.begin(flow)
    flow.report(c)
    refs.undefined_names(flow, rep, hit)
    refs.bad_imports(flow, rep, hit)
    refs.formats(flow, rep, c, hit)
    refs.patterns(flow, rep, hit)
    rep.count("functions and lambdas", len(flow.scopes) - len(flow.mods))
    rep.count("modules", len(flow.mods))
    apirun.run(rep, PATH_RULES, {"Unbound": {"unbound-variable"}, "TextAndNumber": {"text-and-number"}, "BoundRight": set(), "NoAttribute": {"no-such-attribute"}})
    want = {"undefined_name": {"unbound-name"}, "unbound_local": {"unbound-name"}, "missing_member": {"no-such-member"}, "missing_method": {"no-such-member"},
            "missing_np": {"no-such-member"}, "wrong_arity": {"bad-call"}, "wrong_keyword": {"bad-call"}, "wrong_ext_keyword": {"bad-call"},
            "add_text": {"bad-operands"}, "short_format": {"bad-format"}, "short_log": {"bad-format"}, "no_element": {"no-such-pattern-element"}}
    for f, rs in want.items():
        rep.selftest("%s fires %s (got %s)" % (f, sorted(rs), got.get(f)), got.get(f) == rs)
    rep.selftest("fine code is quiet (got %s)" % got.get("fine"), not got.get("fine"))
    rep.floor("functions and lambdas", 1000)
    rep.floor("name references", 20000)
    rep.floor("member references", 10000)
    rep.floor("calls", 8000)
    rep.assumptions += ["oracles/members.json lists the members and signatures of the external modules the repository is used with; TensorFlow and flatbuffers are not judged"]
