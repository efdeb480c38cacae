"""Run the graph-API rules over every conversion handler and report the findings of some rules."""
from .project import Project, is_fixture
from . import registry
from .drive import handler_units, explore, confirm, pmap
from .hooks import ApiMonitor

HEAVY = ("While", "StatelessWhile", "RFFT2D", "TFL_WHILE", "If", "StatelessIf", "MatrixSetDiagV3", "CombinedNonMaxSuppression", "StridedSlice",
         "Conv3D", "Conv2D", "Conv1D")


def analyse(proj, units, rules):
    def once(u, at_least):
        h, lo, hi = u
        runs, scale = explore(proj, h, lo, hi, ApiMonitor, at_least)
        out, stats = {}, {}
        for m, c in runs:
            for k, (msg, site, exact) in m.found.items():
                if k[0] in rules:
                    f = out.setdefault(k, [msg, site, False, set()])
                    f[2] = f[2] or exact
                    f[3].update(c)
            for k, v in m.stats.items():
                stats[k] = stats.get(k, 0) + v
        return (out, stats), scale

    def job(u):
        # what only joined partitions showed is looked at again at a larger scale where that is affordable
        return confirm(lambda n: once(u, n), lambda r: any(not v[2] for v in r[0].values()) and r[1].get("steps", 0) < 300000)
    return pmap(job, units)


def run(rep, rules, want):
    """want: fixture class -> set of rules that must fire on it (only those)"""
    proj = Project(fixtures=("api",))
    hs, _ = registry.load(proj)
    for r, t in rules.items():
        rep.rule(r, t)
    units = handler_units(hs)
    units.sort(key=lambda u: HEAVY.index(u[0].op) if u[0].op in HEAVY else 99)
    got = {}
    for u, (out, stats) in zip(units, analyse(proj, units, rules)):
        h = u[0]
        if is_fixture(h.mod):
            got[h.cls.node.name] = {k[0] for k, v in out.items() if v[2]}
            continue
        rep.count("conversion handlers")
        for k in ("paths", "make_node", "remove_node", "replace_all_inputs", "explicit names", "outputs of removed nodes",
                  "conversion paths that remove the node", "conversion paths that leave the node aside", "replace_input", "producer outputs used as operands"):
            if stats.get(k):
                rep.count(k, stats[k])
        for (rule, key), (msg, site, exact, ops) in out.items():
            if not exact:
                rep.count("findings undecided after joins")
                rep.sample("undecided", "%s %s %s" % (h.op, rule, key), 20)
                continue
            where = "%s:%d (%s)" % (site or (h.mod.rel, h.fi.node.lineno, h.fi.qual))
            rep.find(rule, "%s" % (key if site else "%s %s" % (h.op, key)), "converting %s: %s" % (h.op, msg), where, ops)
    for cls, rs in want.items():
        rep.selftest("%s fires %s" % (cls, sorted(rs)), got.get(cls) == rs)
    rep.floor("conversion handlers", 300)
    rep.floor("paths", 2000)
    return proj
