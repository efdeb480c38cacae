"""C11: a failed conversion step is reported, not hidden."""
import ast

from ..absint import NONE, TRUE, ListO, Sym, Tup
from ..project import Project, AnalysisBroken, is_fixture, loc
from .. import steps

EXPLANATION = ("The drivers of a conversion (mapping of ops to handlers, rewriters, sorting, optimizers, the optimizer entry point on models) are interpreted on every path, "
               "helpers they call in their module included; each call of a step forks a path on which the step raises. Every such path is followed to the end of the driver "
               "and must log, must hand the exception on, and must not return unless the caller asked to continue. Besides, every handler that catches any exception in the "
               "conversion packages has to raise, log a warning or keep the exception.")
RULES = {
    "unlogged": "a driver that carries on after a step failed logs it as warning or error",
    "not-handed-on": "the exception of a failed handler (also in a body graph) is part of what tensorflow_onnx_mapping returns",
    "marked-converted": "an op whose handler failed keeps its type and is not marked as converted",
    "unsupported-silent": "an op without handler is logged as warning or error",
    "continues-unasked": "a driver does not return after a failed step unless continue_on_error or catch_errors is set",
    "raises-unasked": "a driver told to go on does not raise for a failed step",
    "damaged-result": "what a failed optimizer worked on is not what optimization goes on with or returns",
    "swallowed": "code that catches any exception raises, logs a warning or keeps the exception",
}
E = frozenset()
T = "tf2onnx.tfonnx"
LEVELS = steps.LOUD
# conversion packages; loading of models is about recovering from what a file does not have
SKIP = ("tf2onnx.tf_loader", "tf2onnx.tflite", "tf2onnx.verbose_logging", "tf2onnx.tf_utils", "tf2onnx.utils")
# may fail without effect on the result: (function, reason)
OPTIONAL = {T + ":rewrite_constant_fold": "an op that could not be folded stays as it is",
            T + ":topological_sort": "a cycle is tolerated only with continue_on_error: decided path by path"}


def entry(proj, mod, name):
    if "." in name:
        c, m = name.split(".")
        return proj.cls(mod, c).methods[m]
    fi = proj.mod(mod).functions.get(name)
    if fi is None:
        raise AnalysisBroken("%s:%s not found" % (mod, name))
    return fi


def mapping_results(ip, st, args, kw, e):
    n = st.facts.get("nested", 0)
    st.facts["nested"] = n + 1
    return Tup((Sym("m_ops", n), Sym("u_ops", n), Sym("bodyexc", n)))


def clean(st):
    return not st.facts.get("joined") and not st.facts.get("blurred")


def place(f):
    return f[4].qual if f[4] is not None else "?"


def judge_mapping(proj, fi, name=None):
    """-> findings {(rule, what): where}, number of failing paths"""
    out, n = {}, 0
    ip, outs = steps.run(proj, fi, {fi.mod.name}, {"()"}, {fi.full: mapping_results})
    for st, v in outs:
        if not clean(st):
            continue
        h = steps.held(st, v)
        for i in range(st.facts.get("nested", 0)):
            if Sym("bodyexc", i) not in h:
                out.setdefault(("not-handed-on", "failures in a body graph are not part of the result of %s" % fi.qual), fi.node.lineno)
        f = st.facts.get(("failed",))
        if f:
            # the failing step is the handler of a node: called with the graph and the node
            if f[2][1] is None:
                continue
            n += 1
            if not st.facts.get(("loud",)):
                out.setdefault(("unlogged", "%s: a handler that fails is not logged" % fi.qual), f[3])
            if not any(isinstance(x, Sym) and x.op == "exc" for x in h):
                out.setdefault(("not-handed-on", "the exception of a handler is not part of the result of %s" % fi.qual), f[3])
            node = f[2][1]
            a = st.facts.get(("attr", node, "skip_conversion"))
            if a == TRUE:
                out.setdefault(("marked-converted", "%s marks an op whose handler failed as converted" % fi.qual), f[3])
            ty = st.facts.get(("attr", node, "type"))
            if ty is not None and not (isinstance(ty, Sym) and ty.op == "getattr" and ty.args[:2] == (node, "type")):
                out.setdefault(("marked-converted", "%s leaves an op whose handler failed under another type" % fi.qual), f[3])
    # no op has a handler
    ip, outs = steps.run(proj, fi, {fi.mod.name}, {"()"}, {fi.full: mapping_results}, {Sym("param", "is_tflite"): False}, {(Sym("param", "ops_mapping"), "get"): NONE})
    seen = [st for st, v in outs if st.facts.get(("visited",)) and not st.facts.get(("tried", "()"))]
    if not seen:
        raise AnalysisBroken("%s: no path over an op without handler" % fi.full)
    if any(not st.facts.get(("loud",)) and clean(st) for st in seen):
        out.setdefault(("unsupported-silent", "%s passes over an op without handler silently" % fi.qual), fi.node.lineno)
    return out, n


def judge_flag(proj, fi, sinks, flag, loud=True, drivers=None, results=None):
    """run with the flag clear (no failed path may return) and set (all return and log)"""
    out, n = {}, 0
    drivers = drivers or {fi.mod.name}
    steps_ = set(sinks)
    for val in (False, True):
        ip, outs = steps.run(proj, fi, drivers, steps_, results, {Sym("param", flag): val})
        for what, line, f in ip.damaged if val else ():
            out.setdefault(("damaged-result", "%s goes on with the graph a failed optimizer worked on" % fi.qual), line)
        back = 0
        for st, v in outs:
            f = st.facts.get(("failed",))
            if not f:
                continue
            n += 1
            if val:
                back += 1
                if loud and not st.facts.get(("loud",)) and clean(st):
                    out.setdefault(("unlogged", "%s: failure of %s is not logged" % (fi.qual, f[0])), f[3])
            elif f[0] in sinks and sinks[f[0]]:
                out.setdefault(("continues-unasked", "%s returns after %s failed without %s" % (fi.qual, f[0], flag)), f[3])
            elif not st.facts.get(("loud",)) and clean(st):
                out.setdefault(("unlogged", "%s: failure of %s is not logged" % (fi.qual, f[0])), f[3])
        if val and not back:
            out.setdefault(("raises-unasked", "%s raises for a failed step although %s is set" % (fi.qual, flag)), fi.node.lineno)
    return out, n


def judge_parsed(proj, fi):
    """with failures reported by tensorflow_onnx_mapping"""
    out, n = {}, 0
    stub = lambda ip, st, args, kw, e: NONE

    def mapped(ip, st, args, kw, e):
        k = st.facts.get("nested", 0)
        st.facts["nested"] = k + 1
        fails = k == failing
        if fails:
            st.facts[("failed",)] = ("tensorflow_onnx_mapping", None, (None, None), e.lineno, fi)
            seen.append(1)
        return Tup((Sym("m_ops", k), Sym("u_ops", k), ip.alloc(st, "list", e, None, ListO(items=(Sym("exc", k),) if fails else (), open=False, kind="list"))))
    results = {T + ":" + x: stub for x in ("run_rewriters", "topological_sort", "transpose_inputs", "transpose_outputs")}
    results[T + ":tensorflow_onnx_mapping"] = mapped
    for tfl, failing in ((True, 0), (True, 1), (False, 0)):
        for val in (False, True):
            seen = []
            ip, outs = steps.run(proj, fi, {fi.mod.name}, {"?"}, results, {Sym("param", "continue_on_error"): val, Sym("param", "is_tflite"): tfl})
            n += len(seen)
            back = [st for st, v in outs if st.facts.get(("failed",))]
            which = "TFLite" if tfl and not failing else "TensorFlow"
            if not seen:
                raise AnalysisBroken("%s: no mapping step %d" % (fi.full, failing))
            if val and not back:
                out.setdefault(("raises-unasked", "%s raises for failed %s handlers although continue_on_error is set" % (fi.qual, which)), fi.node.lineno)
            if not val and back:
                out.setdefault(("continues-unasked", "%s returns after %s handlers failed without continue_on_error" % (fi.qual, which)), back[0].facts[("failed",)][3])
    return out, n


def callees(proj, mod, fi, depth=3):
    fs = {fi}
    for _ in range(depth):
        for f in list(fs):
            for c in ast.walk(f.node):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in f.mod.functions:
                    fs.add(f.mod.functions[c.func.id])
    return fs


def tells(proj, fi, body, depth=0):
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Raise):
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in LEVELS:
                return True
            if isinstance(x, ast.Call) and depth < 3:
                nm = x.func.id if isinstance(x.func, ast.Name) else x.func.attr if isinstance(x.func, ast.Attribute) else None
                g = fi.mod.functions.get(nm) or (fi.cls.methods.get(nm) if fi.cls is not None else None)
                if g is not None and g is not fi and tells(proj, g, g.node.body, depth + 1):
                    return True
    return False


def broad(h):
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(t is None or isinstance(t, ast.Name) and t.id in ("Exception", "BaseException") for t in ts)


def judge_handlers(proj, fixtures=False):
    """broad except clauses -> (fi, line, tells)"""
    res = []
    optional = set()
    for k in OPTIONAL:
        m, f = k.split(":")
        if f in proj.mod(m).functions:
            optional |= callees(proj, proj.mod(m), proj.mod(m).functions[f])
    for fi in proj.all_functions(fixtures=fixtures):
        if any(fi.mod.name == s or fi.mod.name.startswith(s + ".") for s in SKIP) or fi in optional:
            continue
        inner = {id(t) for h in ast.walk(fi.node) if isinstance(h, ast.ExceptHandler) for t in ast.walk(h) if isinstance(t, ast.Try)}
        for t in ast.walk(fi.node):
            # without a call nothing of the conversion happens there
            if not isinstance(t, ast.Try) or id(t) in inner or not any(isinstance(x, ast.Call) for b in t.body for x in ast.walk(b)):
                continue
            for h in t.handlers:
                if not broad(h):
                    continue
                kept = h.name and any(isinstance(x, ast.Name) and x.id == h.name and isinstance(x.ctx, ast.Load) for s in h.body for c in ast.walk(s)
                                      if isinstance(c, (ast.Return, ast.Assign)) or isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ("append", "extend", "add")
                                      for x in ast.walk(c))
                res.append((fi, h.lineno, bool(kept) or tells(proj, fi, h.body)))
    return res


SORTS = {".topological_sort": True}
PROTO = {"()": True, "tf2onnx.graph:GraphUtil.optimize_graph": True, "tf2onnx.graph:GraphUtil.create_graph_from_onnx_model": True, ".make_model": True}


def run(rep):
    proj = Project(fixtures=("steps",))
    for r, t in RULES.items():
        rep.rule(r, t)
    opt = {"copy": 1}
    jobs = [
        (T, "tensorflow_onnx_mapping", lambda f: judge_mapping(proj, f)),
        (T, "run_rewriters", lambda f: judge_flag(proj, f, {"()": True}, "continue_on_error")),
        # with continue_on_error a cycle is tolerated on purpose: ops that could not be converted are reported already
        (T, "topological_sort", lambda f: judge_flag(proj, f, SORTS, "continue_on_error", loud=False)),
        (T, "process_parsed_graph", lambda f: judge_parsed(proj, f)),
        ("tf2onnx.optimizer", "optimize_graph", lambda f: judge_flag(proj, f, {".optimize": True, ".topological_sort": False}, "catch_errors")),
        ("tf2onnx.graph", "GraphUtil.optimize_model_proto", lambda f: judge_flag(proj, f, PROTO, "catch_errors", drivers={f.full})),
    ]
    for mod, name, fn in jobs:
        fi = entry(proj, mod, name)
        found, n = fn(fi)
        rep.count("drivers")
        rep.count("failing paths", n)
        rep.sample("driver", "%s: %d failing paths followed" % (fi.qual, n))
        if not n:
            rep.broken.append("no failing path through %s" % fi.full)
        for (rule, what), line in sorted(found.items()):
            rep.find(rule, what, what, "%s:%d (%s)" % (fi.mod.rel, line, fi.qual))
    for fi, line, ok in judge_handlers(proj):
        rep.count("broad except clauses")
        if not ok:
            rep.find("swallowed", fi.full, "%s catches any exception and neither raises, warns nor keeps it" % fi.qual, "%s:%d (%s)" % (fi.mod.rel, line, fi.qual))
    fx = proj.mod("tf2onnx.vf_fixture_steps").functions
    rules = lambda r: {k[0] for k in r[0]}
    a, b = judge_mapping(proj, fx["mapping_hides"]), judge_mapping(proj, fx["mapping_reports"])
    rep.selftest("mapping that hides failures flagged %s" % sorted(rules(a)), rules(a) == {"unlogged", "not-handed-on", "marked-converted", "unsupported-silent"})
    rep.selftest("mapping that reports failures through a helper silent %s" % sorted(rules(b)), not b[0] and b[1])
    a, b = (judge_flag(proj, fx[x], {".optimize": True}, "catch_errors") for x in ("optimize_damages", "optimize_copies"))
    rep.selftest("optimizer on the graph itself flagged %s" % sorted(rules(a)), rules(a) == {"damaged-result"})
    rep.selftest("optimizer on a copy silent %s" % sorted(rules(b)), not b[0] and b[1])
    a, b = (judge_flag(proj, fx[x], {"()": True}, "continue_on_error") for x in ("hides", "reports"))
    rep.selftest("step failing quietly flagged %s" % sorted(rules(a)), rules(a) == {"continues-unasked"})
    rep.selftest("step failing loudly silent %s" % sorted(rules(b)), not b[0] and b[1])
    sw = {fi.node.name: ok for fi, _, ok in judge_handlers(proj, True) if is_fixture(fi.mod)}
    rep.selftest("swallowed exception flagged", sw.get("swallows") is False and sw.get("tells") is True)
    rep.floor("drivers", 6)
    rep.floor("broad except clauses", 7)
    rep.floor("failing paths", 40)
    rep.assumptions += ["a step fails by raising an exception derived from Exception", "logging calls do not fail; a level of warning or above reaches the user",
                        "what a handler changed in the graph before it failed is not undone (ops that failed keep their type and are reported)"]
