"""C02: no conversion silently ignores an attribute that changes what the TensorFlow op computes."""
import ast

from ..absint import Const
from ..drive import handler_units, explore, confirm, pmap, TF
from ..emit import EmitMonitor, schema, opaque_valued
from ..gmodel import premapping_attrs
from ..project import Project, is_fixture
from .. import registry

EXPLANATION = ("For every registered handler of a TensorFlow op and every opset it serves, abstract interpretation collects which attributes of the "
               "converted node each successful path reads (or leaves on the emitted operator under a name that operator defines). An attribute of the "
               "TensorFlow op definition that a path neither reads nor keeps is a finding, unless listed in EXEMPT with a reason. A read whose result is "
               "bound to a name nothing uses is a finding too.")
RULES = {
    "attr-ignored": "every successful conversion path reads or keeps each result-changing attribute of the op",
    "attr-read-unused": "the value of an attribute that a handler reads is used",
}

E = frozenset()
# attribute types that describe operands, not behaviour
SKIP_TYPES = {"type", "list(type)", "shape", "list(shape)", "func", "list(func)"}
CONTROL_FLOW = {"While", "If", "StatelessWhile", "StatelessIf"}     # attributes name functions and parallelism
EXEMPT = {      # (op or *, attribute): why a conversion may ignore it
    ("*", "grad_a"): "gradient hint", ("*", "grad_b"): "gradient hint", ("*", "grad_x"): "gradient hint", ("*", "grad_y"): "gradient hint",
    ("*", "incompatible_shape_error"): "chooses between an error and False for shapes that do not broadcast",
    ("*", "validate_indices"): "deprecated, no effect",
    ("*", "sparse_gradient"): "gradient only",
    ("*", "use_cudnn_on_gpu"): "placement hint",
    ("CudnnRNN", "is_training"): "inference conversion", ("CudnnRNN", "seed"): "dropout while training", ("CudnnRNN", "seed2"): "dropout while training",
    ("*", "seed2"): "ONNX has one seed; the values of random ops are unspecified across runtimes",
    ("CheckNumerics", "message"): "text of an error",
    ("TopK", "sorted"): "ONNX TopK default is sorted, a valid choice for unsorted", ("TopKV2", "sorted"): "as TopK",
    ("Const", "value"): "kept in the node and written when the model is made",
    ("Conv2DBackpropInput", "padding"): "implied by the output shape operand", ("Conv3DBackpropInputV2", "padding"): "implied by the output shape operand",
}
PARTIAL = {     # attributes that matter on some paths only: why a path may skip them
    ("*", "explicit_paddings"): "only has a meaning with padding EXPLICIT",
    ("*", "exponential_avg_factor"): "only has a meaning while training",
    ("AsString", "fill"): "only has a meaning with a width", ("AsString", "scientific"): "only has a meaning for floating point",
}


def exempt(table, op, k):
    return ("*", k) in table or (op, k) in table


class ReadMonitor(EmitMonitor):
    def begin(self, ip, st, h):
        self.paths = {}
        self.any = set()
        self.dynamic = False

    def attr_read(self, ip, st, own, n, key, e):
        if n is not None and n.kind == "tf":
            if isinstance(key, str):
                self.note(st, {key})
            else:
                self.dynamic = True

    def note(self, st, ks):
        r = st.facts.get("rd", E)
        self.any |= ks
        if not ks <= r:
            st.facts["rd"] = r | ks

    def final_node(self, ip, st, addr, o):
        if o.kind == "tf" and o.removed is False:
            t = ip.res(st, o.type)
            if isinstance(t, Const):
                sc = schema("", t.v, ip.opset)
                if sc:
                    self.note(st, set(sc["attrs"]))
                    return
            d = ip.res(st, o.domain)
            if not isinstance(t, Const) or d != Const(""):
                self.dynamic = True     # operator not settled, or of a custom domain that keeps all attributes

    def path_end(self, ip, st, v):
        r = st.facts.get("rd", E)
        k = (r, not st.facts.get("joined"))
        self.paths[k] = self.paths.get(k, 0) + 1


def sem_attrs(op, ignored):
    d = TF["ops"][op]
    sized = {l for _, l in d["in"] + d["out"] if l}
    return [k for k, (ty, _, _) in d["attrs"].items() if ty not in SKIP_TYPES and k not in sized and k not in ignored and not exempt(EXEMPT, op, k)]


def analyse(proj, units):
    ignored = premapping_attrs(proj)[0]

    def once(u, at_least):
        h, lo, hi = u
        out = {}
        n = 0
        ks = sem_attrs(h.op, ignored)
        runs, scale = explore(proj, h, lo, hi, ReadMonitor, at_least)
        for mon, c in runs:
            if mon.n_paths == 0 or mon.dynamic:
                continue
            n += len(ks) * len(c)
            for k in ks:
                if k not in mon.any:
                    out.setdefault((k, "all"), [set(), True])[0].update(c)
                elif not exempt(PARTIAL, h.op, k):
                    for (r, exact), cnt in mon.paths.items():
                        if k not in r:
                            f = out.setdefault((k, "some"), [set(), False])
                            f[0].update(c)
                            f[1] = f[1] or exact
        return (out, n), scale

    def job(u):
        out, n = confirm(lambda k: once(u, k), lambda r: any(not v[1] for v in r[0].values()))
        return u[0], out, n
    res = []
    for u, (h, out, n) in zip(units, pmap(lambda u: (lambda r: (None, r[1], r[2]))(job(u)), units)):
        res.append((u[0], {k: v for k, v in out.items() if v[1]}, n))
    return res


def unused_reads(proj, fixture):
    """(function, line, attribute, name): attribute read bound to a local that nothing loads"""
    for fi in proj.all_functions(fixtures=fixture):
        mod = fi.mod
        if not mod.name.startswith(("tf2onnx.onnx_opset", "tf2onnx.custom_opsets", "tf2onnx.rewriter", "tf2onnx.tflite_handlers",
                                    "tf2onnx.late_rewriters", "tf2onnx.vf_fixture")):
            continue
        loads = {x.id for x in ast.walk(fi.node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
        yield None
        for a in ast.walk(fi.node):
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and a.targets[0].id not in loads:
                for c in ast.walk(a.value):
                    if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in (
                            "get_attr", "get_attr_value", "get_attr_int", "get_attr_str") and c.args and isinstance(c.args[0], ast.Constant):
                        yield fi, a.lineno, c.args[0].value, a.targets[0].id


def run(rep):
    proj = Project(fixtures=("attrs",))
    hs, _ = registry.load(proj)
    for r, t in RULES.items():
        rep.rule(r, t)

    def pick(fix):
        return [u for u in handler_units([h for h in hs if is_fixture(h.mod) == fix])
                if u[0].op in TF["ops"] and u[0].op not in CONTROL_FLOW and not opaque_valued(u[0].op)]
    units = pick(False)
    fixunits = pick(True)
    got = {}
    for h, out, n in analyse(proj, units + fixunits):
        if is_fixture(h.mod):
            got[h.cls.node.name] = set(out)
            continue
        rep.count("handlers of TensorFlow ops")
        rep.count("op x opset x attribute obligations", n)
        rep.sample("handlers", "%s: %s" % (h.op, ", ".join(sem_attrs(h.op, E))) if n else h.op)
        for (k, how), (ops, _) in out.items():
            rep.find("attr-ignored", "%s.%s%s" % (h.op, k, "" if how == "all" else " (on some path)"),
                     "conversion of %s %s attribute %s (%s)" % (
                         h.op, "never reads" if how == "all" else "succeeds on a path that never reads", k, TF["ops"][h.op]["attrs"][k][0]),
                     "%s:%d (%s)" % (h.mod.rel, h.fi.node.lineno, h.fi.qual), ops)
    for x in unused_reads(proj, False):
        rep.count("functions scanned for unused reads")
        if x:
            fi, line, k, name = x
            rep.find("attr-read-unused", "%s: %s" % (fi.full, k), "attribute %s is read into %s, which is never used" % (k, name),
                     "%s:%d (%s)" % (fi.mod.rel, line, fi.qual))
    rep.selftest("ignored attribute flagged %s" % got.get("IgnoresAttr"), got.get("IgnoresAttr") == {("reverse", "all")})
    rep.selftest("partially ignored attribute flagged %s" % got.get("IgnoresOnOnePath"), got.get("IgnoresOnOnePath") == {("block_size", "some")})
    rep.selftest("honoured attributes silent %s" % got.get("Honours"), got.get("Honours") == set())
    rep.selftest("unused read flagged", any(x and x[2] == "output_type" for x in unused_reads(proj, True)))
    rep.floor("handlers of TensorFlow ops", 300)
    rep.floor("op x opset x attribute obligations", 1500)
    rep.assumptions += ["oracles/tf.json equals the op definitions of the TensorFlow the repository is tested with",
                        "an attribute that is read is used (a value read and then dropped along a chain of calls is not seen)",
                        "attributes the loader strips before conversion (TF_IGNORED_NODE_ATTRS) are honoured by the runtime graph, not the handler"]
