"""C27: emitted operators get and give tensors of the element types they are declared with."""
from ..project import Project, is_fixture
from .. import registry
from ..drive import handler_units, explore, confirm, pmap
from ..apirun import HEAVY
from ..types import TypeMonitor, judge, judge_out

EXPLANATION = ("Abstract interpretation of every conversion handler for every opset; the element type of every tensor is a term over the type attributes of "
               "the converted TensorFlow op, inferred through the emitted operators with the type variables of their ONNX schemas (oracles/onnx.json), and the "
               "path conditions on types. Undecided = input whose type is not settled statically.")
RULES = {
    "type-not-accepted": "the type of an input of an emitted operator is one its schema accepts at that opset",
    "types-differ": "inputs an operator schema binds to one type variable have one type",
    "recorded-type": "the type recorded for an output is the one the emitted operator gives",
    "result-type": "readers of an output of the converted op get the type TensorFlow declares for it",
}


def analyse(proj, units):
    def once(u, at_least):
        h, lo, hi = u
        runs, scale = explore(proj, h, lo, hi, TypeMonitor, at_least, max_steps=200000)
        out, stats = {}, {}

        def put(rule, key, msg, site, exact, opsets):
            e = out.setdefault((rule, key), [msg, site, False, set()])
            e[2] = e[2] or exact
            e[3].update(opsets)
        for m, c in runs:
            for rec, exact in m.records.items():
                for o in c:
                    for rule, i, msg in judge(rec, o):
                        put(rule, "%s input %d" % (rec[0], i), msg, rec[2], exact, [o])
            for rec, exact in m.outs.items():
                for rule, msg in judge_out(rec):
                    put(rule, rec[1].replace(",", ""), msg, rec[2], exact, c)
            for k, v in m.stats.items():
                stats[k] = stats.get(k, 0) + v
        return (out, stats), scale

    def job(u):
        return confirm(lambda n: once(u, n), lambda r: any(not v[2] for v in r[0].values()) and r[1].get("steps", 0) < 300000)
    return pmap(job, units)


def run(rep):
    proj = Project(fixtures=("types",))
    hs, _ = registry.load(proj)
    for r, t in RULES.items():
        rep.rule(r, t)
    units = handler_units(hs)
    units.sort(key=lambda u: HEAVY.index(u[0].op) if u[0].op in HEAVY else 99)
    got = {}
    for u, (out, stats) in zip(units, analyse(proj, units)):
        h = u[0]
        if is_fixture(h.mod):
            got[h.cls.node.name] = {k[0] for k, v in out.items() if v[2]}
            continue
        rep.count("conversion handlers")
        for k in ("paths", "operator inputs", "types of results", "typed constants", "constants of unknown type", "type conditions not kept apart"):
            if stats.get(k):
                rep.count(k, stats[k])
        for (rule, key), (msg, site, exact, ops) in out.items():
            if not exact:
                rep.count("findings undecided after joins")
                rep.sample("undecided", "%s %s %s" % (h.op, rule, key), 20)
                continue
            rep.find(rule, "%s -> %s" % (h.op, key), "converting %s: %s" % (h.op, msg), "%s:%d (%s)" % (site or (h.mod.rel, h.fi.node.lineno, h.fi.qual)), ops)
    want = {"NotAccepted": {"type-not-accepted"}, "ConstType": {"type-not-accepted"}, "Differ": {"types-differ"}, "Recorded": {"recorded-type"},
            "Result": {"result-type"}, "TypesRight": set()}
    for cls, rs in want.items():
        rep.selftest("%s fires %s (got %s)" % (cls, sorted(rs), got.get(cls)), got.get(cls) == rs)
    rep.floor("conversion handlers", 300)
    rep.floor("paths", 2000)
    rep.floor("operator inputs", 60000)
    rep.floor("types of results", 2000)
    rep.assumptions += ["oracles/onnx.json and oracles/tf.json equal the operator schemas of the onnx and tensorflow packages the repository is built with",
                        "the types recorded when the model is loaded are those TensorFlow declares",
                        "types outside float, double, float16, int32 and int64 may be passed on to operators that do not take them"]
