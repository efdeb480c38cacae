"""C01: every operator a conversion emits is legal at the requested opset."""
from ..project import Project, is_fixture
from .. import registry, passes
from ..drive import handler_units, explore, confirm, pmap, reachable_ops
from ..emit import EmitMonitor, PassMonitor, evaluate
from ..gmodel import premapping_attrs

EXPLANATION = ("Abstract interpretation of every registered conversion handler for every opset in 6..18 (one run per set of opsets the handler "
               "cannot tell apart); each node a handler can leave behind is compared with the ONNX operator schemas of the installed onnx "
               "package (recorded in oracles/onnx.json). The rewriters, late rewriters and optimizers are interpreted the same way, within a step budget; what "
               "their entry points do not reach within it is interpreted function by function. Undecided = emitted node whose operator name is not settled statically.")

RULES = {
    "op-missing": "an emitted operator of the main domain is defined at the requested opset",
    "op-deprecated": "an emitted operator is not deprecated at the requested opset",
    "attr-unknown": "an attribute given to an emitted operator is defined for it at that opset (others are silently dropped)",
    "attr-missing": "an emitted operator carries its required attributes",
    "attr-type": "an attribute value has the attribute type the operator defines",
    "too-few-inputs": "an emitted operator gets at least its minimum number of inputs",
    "too-many-inputs": "an emitted operator gets at most its maximum number of inputs",
    "too-many-outputs": "an emitted operator is given at most its maximum number of outputs",
}


def run_units(proj, units):
    ignored = premapping_attrs(proj)[0]
    reach = reachable_ops(proj)

    def once(u, at_least):
        h, lo, hi = u
        res, stats = {}, {}

        def sink(rule, key, msg, site, o, exact):
            k = (rule, key, o)
            if k not in res or exact and not res[k][2]:
                res[k] = (msg, site, exact)
        never = []
        runs, scale = explore(proj, h, lo, hi, EmitMonitor, at_least)
        for mon, c in runs:
            evaluate(mon.records, (h.mod.rel, h.fi.node.lineno, h.fi.qual), c, mon.read_attrs, h.op, sink, mon.stats, ignored, reach)
            for k, v in mon.stats.items():
                stats[k] = stats.get(k, 0) + v
            if mon.n_paths == 0:
                never.extend(c)
        return (len(runs), res, stats, never), scale

    def job(u):
        # what only joined partitions showed has to be confirmed
        runs, res, stats, never = confirm(lambda n: once(u, n), lambda r: any(not v[2] for v in r[1].values()))
        und = [k for k, v in res.items() if not v[2]]
        stats["undecided_joined"] = len(und)
        return u[0].op, runs, [(k[0], k[1], v[0], v[1], k[2]) for k, v in res.items() if v[2]], stats, never, und
    return pmap(job, units)


PASS_STEPS = 60000


def run_passes(proj, mapped):
    """-> {unit name: findings}; what the passes leave behind"""
    settled = passes.opset_settled_elsewhere(proj)
    opsets = range(6, 19)

    def job(u):
        res, stats, done, sites = {}, {}, None, set()
        for mon, c, entered in passes.over_cells(proj, u, lambda: PassMonitor(mapped), opsets, steps=PASS_STEPS):
            def sink(rule, key, msg, site, o, exact):
                if exact:
                    res.setdefault((rule, key), (msg, site, set()))[2].add(o)
            evaluate(mon.records, (u.fi.mod.rel, u.fi.node.lineno, u.fi.qual), c, mon.read_attrs, "?", sink, mon.stats)
            for k, v in mon.stats.items():
                stats[k] = stats.get(k, 0) + v
            sites |= {r[3] for r in mon.records if r[3]}
            # what a run cut short did not finish is looked at again on its own
            d = frozenset() if mon.stats.get("budget") else frozenset(entered)
            done = d if done is None else done & d
        if u.kind == "func" and settled(u.fi):
            res = {k: v for k, v in res.items() if len(v[2]) == len(opsets)}
        return u.name, u.kind, res, stats, done or frozenset(), sites, is_fixture(u.fi.mod) or u.cls is not None and is_fixture(u.cls.mod)
    first = pmap(job, passes.roots(proj))
    reached = set().union(*[r[4] for r in first])
    return first + pmap(job, passes.rest(proj, reached))


def run(rep):
    proj = Project(fixtures=("emit", "passes", "driver"))
    hs, problems = registry.load(proj)
    units = handler_units(hs)
    fix = [u for u in units if is_fixture(u[0].mod)]
    units = [u for u in units if not is_fixture(u[0].mod)]
    for r, t in RULES.items():
        rep.rule(r, t)
    # heaviest units first, so that the pool stays busy
    heavy = ("While", "TFL_WHILE", "StatelessWhile", "If", "StatelessIf", "MatrixSetDiagV3", "StridedSlice")
    units.sort(key=lambda u: u[0].op not in heavy)
    results = run_units(proj, units + fix)
    fixops = {u[0].op for u in fix}
    got = {}
    for op, runs, res, stats, never, und in results:
        if op in fixops:
            got[op] = {r[0] for r in res}
            continue
        rep.count("conversion units")
        rep.count("analysis runs", runs)
        rep.count("emitted-node obligations", stats.get("obligations", 0))
        rep.count("paths", stats.get("paths", 0))
        rep.count("undecided operator names", stats.get("undecided_type", 0))
        rep.count("findings undecided after joins", len(und))
        for k in und:
            rep.sample("undecided", "%s %s" % (op, k), 20)
        rep.count("budget exceeded", stats.get("budget", 0))
        rep.sample("units", "%s: %d obligations" % (op, stats.get("obligations", 0)))
        for rule, key, msg, site, o in res:
            emitted = key.split(":", 2)[2]
            rep.find(rule, "%s -> %s" % (op, emitted), "conversion of %s %s" % (op, msg), "%s:%d (%s)" % site, [o])
    want = {"VFOpMissing": "op-missing", "VFOpDeprecated": "op-deprecated", "VFAttrUnknown": "attr-unknown", "VFAttrMissing": "attr-missing",
            "VFAttrType": "attr-type", "VFFewInputs": "too-few-inputs", "VFManyInputs": "too-many-inputs", "VFManyOutputs": "too-many-outputs"}
    for op, rule in want.items():
        rep.selftest("%s flagged by %s (got %s)" % (op, rule, got.get(op)), rule in got.get(op, ()))
    rep.selftest("VFGood is silent (got %s)" % got.get("VFGood"), got.get("VFGood") == set())
    mapped = frozenset(h.op for h in hs if h.domain == "" or h.kind == "to_tf")
    got = {}
    sites = set()
    for name, kind, res, stats, done, at, fixture in run_passes(proj, mapped):
        if fixture:
            got[name] = {k[0] for k in res}
            continue
        rep.count("pass functions analysed on their own" if kind == "func" else "passes")
        rep.count("pass obligations", stats.get("obligations", 0))
        rep.count("passes cut short at the step budget", 1 if stats.get("budget") and kind != "func" else 0)
        sites |= at
        for (rule, key), (msg, site, os) in sorted(res.items()):
            rep.find(rule, "%s -> %s" % (name, key.split(":", 2)[2]), "%s %s" % (name, msg), "%s:%d (%s)" % site, sorted(os))
    rep.count("places where passes make nodes", len(sites))
    want = {"rewrite_vf_missing": {"op-missing"}, "VFAxesOptimizer": {"attr-unknown"}, "rewrite_vf_guarded": set(),
            "rewrite_vf_handed_on": set(), "VFBuilderOptimizer": set()}
    for name, rules in want.items():
        rep.selftest("pass %s: %s (got %s)" % (name, sorted(rules), got.get(name)), got.get(name) == rules)
    rep.floor("passes", 25)
    rep.floor("places where passes make nodes", 60)
    rep.floor("conversion units", 400)
    rep.floor("emitted-node obligations", 20000)
    rep.assumptions += ["list-valued TensorFlow arguments are non-empty unless the op allows both (If)",
                        "oracles/onnx.json equals the operator schemas of the onnx package the repository is built with"]
