"""C12: the model does not depend on the order in which Python happens to iterate sets, on addresses, clocks or random numbers."""
from ..project import Project, is_fixture
from ..order import Order, Uses
from .. import registry

EXPLANATION = ("Which expressions of the package may be sets of strings or objects, or sequences filled in their order, is computed for the whole program (vf/order.py); "
               "every construct whose effect depends on that order is reported, as is every address, clock or random value put into a text or used to sort.")
RULES = {
    "hash-order": "nothing that reaches the model follows the iteration order of a set of strings or objects",
    "value-of-the-run": "no address, clock, directory listing or random value becomes part of a name, a text or an order",
}
BAD = {"BadAttr", "bad_loop", "bad_kept", "bad_accumulated", "bad_pick", "bad_last", "bad_id", "bad_uuid", "bad_sort"}


def handler_seeds(proj):
    hs, _ = registry.load(proj)
    g = proj.cls("tf2onnx.graph", "Graph")
    n = proj.cls("tf2onnx.graph", "Node")
    seeds = {}
    for h in hs:
        a = h.fi.node.args
        ps = [x.arg for x in a.posonlyargs + a.args]
        if h.fi.kind in ("class", "inst"):
            ps = ps[1:]
        if len(ps) > 0:
            seeds[(h.fi, ps[0])] = frozenset([("inst", g)])
        if len(ps) > 1:
            seeds[(h.fi, ps[1])] = frozenset([("inst", n)])
    return seeds


def run(rep):
    proj = Project(fixtures=("order",))
    for r, t in RULES.items():
        rep.rule(r, t)
    o = Order(proj, seeds=handler_seeds(proj))
    u = Uses(o)
    got = set()
    for (rel, scope, what), (s, n) in sorted(u.hits.items(), key=lambda x: x[0]):
        if is_fixture(s.mod):
            got.add(scope.split(".")[0])
            continue
        rule = "value-of-the-run" if what.startswith(("puts ", "sorts by", "takes files")) else "hash-order"
        rep.find(rule, "%s:%s %s" % (s.mod.name, scope, what), "%s %s, which differs from run to run" % (scope, what), "%s:%d (%s)" % (rel, n.lineno, scope))
    for k, v in u.counts.items():
        rep.count(k, v)
    rep.count("functions", len([s for s in o.flow.scopes.values() if s.fi is not None]))
    rep.floor("functions", 1000)
    rep.floor("sets", 50)
    rep.selftest("violations in the fixture are found: missing %s" % sorted(BAD - got), BAD <= got)
    rep.selftest("nothing else in the fixture is: %s" % sorted(got - BAD), got <= BAD)
    rep.sample("sets", "sets and what follows their order: " + ", ".join("%s=%d" % kv for kv in sorted(u.counts.items())))
    rep.assumptions += ["Dictionaries keep insertion order (Python 3.7 on).",
                        "A set whose elements are numbers only is iterated in an order that does not change.",
                        "Identity nodes leave no trace of the order they were added in: the identity optimizer, which always runs again after a change, takes them out.",
                        "Order inside TensorFlow, ONNX and numpy is not looked at; a sequence handed to a library function is taken to depend on its order."]
