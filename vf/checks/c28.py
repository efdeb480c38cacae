"""C28: the options a TFLite model stores with an operator reach its conversion, each in its own place."""
import re
from ..absint import Const, Sym, Tup, ListO, Ref
from ..drive import OPSETS, explore, confirm, pmap, handler_units, TF
from ..emit import EmitMonitor, schema
from ..gmodel import NodeO, load_oracle
from ..project import Project, is_fixture
from ..types import subterms
from .. import registry

EXPLANATION = ("For every registered TFLite handler, abstract interpretation of its conversion gives, per successful path, the builtin options of the operator "
               "(the fields of its table in the TFLite schema) that the path reads, and the attributes of the node it leaves. An option that a path neither "
               "reads nor leaves under a name the resulting operator defines is a finding. Where the TensorFlow operator spells the options differently, "
               "the attribute (or constant operand) it is left with must be made of exactly the options the TFLite schema gives that meaning.")
RULES = {
    "option-ignored": "every successful conversion path reads or keeps each builtin option of the TFLite operator",
    "option-misplaced": "an attribute or operand that stands for options holds exactly those options, in order",
    "quantization-partial": "a quantization vector that may hold more than one value is used whole",
}
E = frozenset()
LOGGING = re.compile(r"\b(log|logger|logging|warnings?)\b")     # what is reported has no effect on the model
TFLITE = load_oracle("tflite")
# operators whose option table is not named after them (schema.fbs, register.cc)
TABLE = {
    "TFL_AVERAGE_POOL_2D": "Pool2DOptions", "TFL_MAX_POOL_2D": "Pool2DOptions", "TFL_L2_POOL_2D": "Pool2DOptions",
    "TFL_SUM": "ReducerOptions", "TFL_MEAN": "ReducerOptions", "TFL_REDUCE_MAX": "ReducerOptions", "TFL_REDUCE_MIN": "ReducerOptions",
    "TFL_REDUCE_PROD": "ReducerOptions", "TFL_REDUCE_ANY": "ReducerOptions", "TFL_REDUCE_ALL": "ReducerOptions",
    "TFL_L2_NORMALIZATION": "L2NormOptions", "TFL_CONV_3D_TRANSPOSE": "Conv3DOptions",
    "TFL_RANDOM_STANDARD_NORMAL": "RandomOptions", "TFL_RANDOM_UNIFORM": "RandomOptions", "TFL_MULTINOMIAL": "RandomOptions",
    "TFL_LOCAL_RESPONSE_NORMALIZATION": "LocalResponseNormalizationOptions",
}
EXEMPT = {
    ("*", "pot_scale_int16"): "describes how integer kernels round, not what is computed",
    ("*", "quantized_bias_type"): "the type of the bias tensor says the same",
    ("TFL_BATCH_MATMUL", "asymmetric_quantize_inputs"): "chooses a quantized kernel for floating point operands; the float result is the reference",
    ("TFL_DEPTHWISE_CONV_2D", "depth_multiplier"): "implied by the shape of the weights",
    ("*", "seed"): "values of random operators are unspecified across runtimes", ("*", "seed2"): "as seed",
    ("*", "validate_indices"): "no effect on valid indices",
    ("TFL_CAST", "in_data_type"): "types of the tensors", ("TFL_CAST", "out_data_type"): "types of the tensors",
    ("TFL_CONCATENATION", "fused_activation_function"): "TFLite itself rejects any but NONE (concatenation.cc Prepare)",
    ("TFL_L2_NORMALIZATION", "fused_activation_function"): "TFLite itself rejects any but NONE (l2norm.cc Prepare)",
    ("TFL_SHAPE", "out_type"): "the type of the output tensor, which conversion reads",
}
PARTIAL = {
    ("TFL_RESHAPE", "new_shape"): "only used without a shape operand",
    ("TFL_DEQUANTIZE", "scale"): "a float16 tensor is widened without any", ("TFL_DEQUANTIZE", "zero_point"): "present with a scale only",
    ("TFL_DEQUANTIZE", "quantized_dimension"): "present with a scale only",
}
# options that are read without a consequence, and why that is right: last opset that is so
EFFECTLESS = {
    ("TFL_QUANTIZE", "quantized_dimension"): (12, "operators of these opsets know single scales only: the conversion raises for vectors"),
    ("TFL_DEQUANTIZE", "quantized_dimension"): (12, "as for TFL_QUANTIZE"),
    ("TFL_FULLY_CONNECTED", "asymmetric_quantize_inputs"): (99, "chooses a quantized kernel for floating point operands; the float result is the reference"),
    ("TFL_WHILE", "body_subgraph_index"): (99, "names the loaded subgraph, whose content the analysis does not look into"),
    ("TFL_WHILE", "cond_subgraph_index"): (99, "names the loaded subgraph, whose content the analysis does not look into"),
}


STRIDES2 = (1, "stride_h", "stride_w", 1)
DILATIONS2 = (1, "dilation_h_factor", "dilation_w_factor", 1)
STRIDES3 = (1, "stride_d", "stride_h", "stride_w", 1)
DILATIONS3 = (1, "dilation_d_factor", "dilation_h_factor", "dilation_w_factor", 1)
# what the attributes of the TensorFlow operator mean in terms of the options (numbers are literal, names are options)
MEANS = {
    "TFL_CONV_2D": {"strides": STRIDES2, "dilations": DILATIONS2, "data_format": b"NHWC"},
    "TFL_DEPTHWISE_CONV_2D": {"strides": STRIDES2, "dilations": DILATIONS2, "data_format": b"NHWC"},
    "TFL_TRANSPOSE_CONV": {"strides": STRIDES2, "data_format": b"NHWC"},
    "TFL_CONV_3D": {"strides": STRIDES3, "dilations": DILATIONS3, "data_format": b"NDHWC"},
    "TFL_CONV_3D_TRANSPOSE": {"strides": STRIDES3, "dilations": DILATIONS3, "data_format": b"NDHWC"},
    "TFL_AVERAGE_POOL_2D": {"strides": STRIDES2, "ksize": (1, "filter_height", "filter_width", 1), "data_format": b"NHWC"},
    "TFL_MAX_POOL_2D": {"strides": STRIDES2, "ksize": (1, "filter_height", "filter_width", 1), "data_format": b"NHWC"},
    "TFL_SPACE_TO_DEPTH": {"data_format": b"NHWC"},
    "TFL_LOCAL_RESPONSE_NORMALIZATION": {"depth_radius": "radius"},
    "TFL_SPLIT": {"num_split": "num_splits"}, "TFL_SPLIT_V": {"num_split": "num_splits"},
    "TFL_PACK": {"N": "values_count"}, "TFL_UNIQUE": {"out_idx": "idx_out_type"},
    "TFL_IF": {"then_branch": "then_subgraph_index", "else_branch": "else_subgraph_index"},
    "TFL_GATHER": {2: "axis"},
    "TFL_QUANTIZE": {1: "scale", 2: "zero_point"}, "TFL_DEQUANTIZE": {1: "scale", 2: "zero_point"},
    "TFL_SOFTMAX": {("before", 0): "beta"},     # softmax(beta * x): the operand is another tensor unless beta is 1
    "TFL_FULLY_CONNECTED": {"transpose_a": 0, "transpose_b": 0},
}
QUANT = {"TFL_QUANTIZE", "TFL_DEQUANTIZE"}      # read scale, zero_point and quantized_dimension of the quantized tensor


def snake(n):
    r = ""
    for c in n:
        r += ("_" if c.isupper() and r else "") + c.lower()
    return r


def options(op):
    """builtin options of a TFLite operator (name of a fixture: VFName:operator)"""
    low = {k.lower(): k for k in TFLITE["readers"]}
    t = TABLE.get(op) or low.get(op[4:].replace("_", "").lower() + "options")
    fs = [snake(f) for f in TFLITE["readers"].get(t, {}) if not f.endswith(("AsNumpy", "IsNone", "Length"))]
    if op in QUANT:
        fs += ["scale", "zero_point", "quantized_dimension"]
    return fs


def field_of(v):
    """option a term is the value of"""
    while isinstance(v, Sym):
        if v.op in ("attrval", "attrvald", "aproto") and isinstance(v.args[1], str):
            return v.args[1]
        if v.op == "getattr" and v.args[1] in ("i", "f", "s"):
            v = v.args[0]
        else:
            return None
    return None


def fields_in(v):
    res = set()
    for t in (subterms(v) if isinstance(v, Sym) else [x for i in v.items if isinstance(i, Sym) for x in subterms(i)] if isinstance(v, Tup) else []):
        f = field_of(t)
        if f:
            res.add(f)
    return res


def items_of(ip, st, v):
    v = ip.res(st, v)
    if isinstance(v, Tup):
        return v.items
    if isinstance(v, Ref):
        o = st.heap.get(v.a)
        if isinstance(o, ListO) and not o.open:
            return o.items
    return None


def complete(tests):
    """the paths differ by tests whose both answers are there"""
    if tests == {E}:
        return True
    conds = {c for ts in tests for c in ts}
    names = {n for n, _ in conds}
    return all(len({v for m, v in conds if m == n}) > 1 for n in names)


class OptionMonitor(EmitMonitor):
    def begin(self, ip, st, h):
        self.paths = {}
        self.bad = {}       # (rule, construct, detail) -> exact?
        self.partial = {}
        self.effects = {}
        self.influential = set()
        self.h = h
        self.op = h.op.split(":")[-1]
        self.dynamic = False
        self.folded = set()     # options constants are made of

    def make_const(self, ip, st, nm, v, e):
        # (in the state: paths that make another constant under the same name stay apart)
        x = ip.frz(st, v)
        self.folded |= fields_in(x)
        st.facts[("const", nm)] = frozenset([x])

    consts_made = make_const

    def attr_read(self, ip, st, own, n, key, e):
        if n is not None and n.kind == "tf":
            if isinstance(key, str):
                r = st.facts.get("rd", E)
                if key not in r:
                    st.facts["rd"] = r | {key}
            else:
                self.dynamic = True

    def value_ok(self, ip, st, want, v):
        v = ip.res(st, v)
        if isinstance(want, tuple):
            it = items_of(ip, st, v)
            return it is not None and len(it) == len(want) and all(self.value_ok(ip, st, w, x) for w, x in zip(want, it))
        if isinstance(want, str):
            return field_of(v) == want
        if isinstance(want, bytes):
            return isinstance(v, Const) and v.v in (want, want.decode())
        return isinstance(v, Const) and v.v == want

    def path_end(self, ip, st, v):
        exact = not st.facts.get("joined")
        kept = set()
        tf = None
        for a, o in st.heap.items():
            if isinstance(o, NodeO) and o.kind == "tf" and a == ("tfnode",):
                tf = o
        if tf is None:
            return
        if tf.removed is False:
            t = ip.res(st, tf.type)
            gone = {m[1] for m in tf.meta if isinstance(m, tuple) and m[0] == "del"}
            if isinstance(t, Const):
                if self.h.kind == "to_tf" and t.v in TF["ops"]:
                    names = set(TF["ops"][t.v]["attrs"])
                else:
                    sc = schema("", t.v, ip.opset)
                    names = set(sc["attrs"]) if sc else set()
                kept = {n for n in names if n not in gone and n not in tf.attrs}
                self.translated(ip, st, tf, t.v, exact)
            else:
                self.dynamic = True
            for v in tf.attrs.values():
                kept |= fields_in(v)
        rd = frozenset(st.facts.get("rd", E))
        if exact:
            self.outcome(ip, st, rd - kept)
        k = (rd | kept, exact)
        self.paths[k] = self.paths.get(k, 0) + 1

    def final_node(self, ip, st, addr, o):
        super().final_node(ip, st, addr, o)
        if o.removed is True:
            return
        ins = st.heap.get(o.inputs.a) if isinstance(o.inputs, Ref) else None
        s = (str(addr), str(ip.res(st, o.type)), str(sorted((str(n), str(ip.frz(st, x))) for n, x in o.attrs.items())),
             str([str(ip.res(st, i)) for i in ins.items]) if isinstance(ins, ListO) else str(o.inputs), str(sorted(map(str, o.meta))))
        st.facts["sig"] = st.facts.get("sig", E) | {s}
        for x in list(o.attrs.values()) + (list(ins.items) if isinstance(ins, ListO) else []):
            self.seen(ip, st, x)

    def seen(self, ip, st, v):
        f = fields_in(ip.frz(st, v)) if v is not None else E
        if f:
            st.facts["sn"] = st.facts.get("sn", E) | f

    def value_stored(self, ip, st, b, k, v):
        self.seen(ip, st, k)
        self.seen(ip, st, v)

    def call_unknown(self, ip, st, fn, args):
        if LOGGING.search(str(fn)):
            return
        for a in args:
            self.seen(ip, st, a)

    def graph_call(self, ip, st, name, args, kw, e):
        for a in list(args) + list(kw.values()):
            self.seen(ip, st, a)

    def replace_all(self, ip, st, old, new, ops, e):
        st.facts["sig"] = st.facts.get("sig", E) | {("replaced", str(ip.frz(st, old)), str(ip.frz(st, new)))}

    def outcome(self, ip, st, read):
        """what the path leaves, so that options it reads can be told from those it reads to no effect"""
        sig = st.facts.get("sig", E)
        seen = set(st.facts.get("sn", E)) | self.folded
        pc = {}
        for k, x in st.pc.items():
            t = k[1] if isinstance(k, tuple) and len(k) == 2 else k
            pc[(str(k), str(sorted(map(str, x)) if isinstance(x, frozenset) else x))] = fields_in(t) if isinstance(t, Sym) else E
        for k in read - seen:
            tests = frozenset(c for c, f in pc.items() if k in f)
            rest = frozenset(c for c, f in pc.items() if k not in f)
            self.effects.setdefault(k, {}).setdefault(rest, {}).setdefault(sig, set()).add(tests)
        self.influential |= seen

    def without_effect(self):
        """options only tested, where every test leaves the same whichever way it goes, or read for nothing"""
        res = set()
        for k, groups in self.effects.items():
            if k in self.influential:
                continue
            if all(len(sigs) == 1 and complete(ts) for sigs in groups.values() for ts in sigs.values()):
                res.add(k)
        return res

    def translated(self, ip, st, tf, t, exact):
        for at, want in MEANS.get(self.op, {}).items():
            if isinstance(at, int):
                ins = st.heap.get(tf.inputs.a)
                if not isinstance(ins, ListO) or t not in ("GatherV2", "QuantizeLinear", "DequantizeLinear"):
                    continue
                its = list(ins.items)
                if ins.open and len(its) <= at or its and isinstance(its[-1], Sym) and its[-1].op == "star":
                    continue
                x = its[at] if len(its) > at else None
                vals = st.facts.get(("const", x), E)
                if len(vals) != 1:
                    continue
                val, = vals
                fs = fields_in(val)
                self.put("option-misplaced", at, want, fs == {want}, "options %s" % sorted(fs), exact)
                if self.op in QUANT and fs == {want}:
                    one = [s for s in subterms(val) if s.op == "item" and field_of(s.args[0]) == want and isinstance(s.args[1], Const)]
                    if one:
                        n = Sym("len", one[0].args[0])
                        self.put("quantization-partial", at, want, self.single(ip, st, one[0].args[0]), "only element %s" % one[0].args[1], exact)
            elif isinstance(at, tuple):
                ins = st.heap.get(tf.inputs.a)
                one = False     # the path tests the option, and not for being another value than 1
                for k, x in st.pc.items():
                    k, x = (k[1], x) if isinstance(k, tuple) and len(k) == 2 else (k, x)
                    if isinstance(k, Sym) and want in fields_in(k):
                        if k.op == "eq" and Const(1) in k.args and x is False:
                            one = False
                            break
                        one = True
                if isinstance(ins, ListO) and ins.items:
                    self.put("option-misplaced", "input%d" % at[1], want, one or ins.items[at[1]] != Sym("in", tf.key, at[1]), "the operand as it is", exact)
            elif self.h.kind == "to_tf" and t in TF["ops"]:
                if at in tf.may:
                    continue
                if at not in tf.attrs:
                    self.put("option-misplaced", at, want, False, "nothing", exact)
                else:
                    self.put("option-misplaced", at, want, self.value_ok(ip, st, want, tf.attrs[at]), str(tf.attrs[at])[:120], exact)

    def single(self, ip, st, lst):
        """the path knows that the list has one element: some test of its length bounds it by one"""
        for k, b in st.pc.items():
            if isinstance(k, Sym) and any(isinstance(s, Sym) and s.op == "len" and field_of(s.args[0]) == field_of(lst) for s in subterms(k)):
                left = k.args[0].v if isinstance(k.args[0], Const) else None
                right = k.args[-1].v if isinstance(k.args[-1], Const) else None
                if k.op == "lt" and (right == 2 and b or left == 1 and not b) or k.op == "le" and (right == 1 and b or left == 2 and not b) \
                        or k.op == "eq" and b and 1 in (left, right):
                    return True
        return False

    def put(self, rule, at, want, ok, got, exact):
        self.count("translated options")
        if not ok:
            k = (rule, at, want, got)
            self.bad[k] = self.bad.get(k, False) or exact


def exempt(table, op, k):
    return ("*", k) in table or (op, k) in table


def analyse(proj, units):
    def once(u, at_least):
        h, lo, hi = u
        op = h.op.split(":")[-1]
        out, n = {}, 0
        ks = [k for k in options(op) if not exempt(EXEMPT, op, k)]
        runs, scale = explore(proj, h, lo, hi, OptionMonitor, at_least)
        for mon, c in runs:
            if mon.n_paths == 0:
                continue
            n += len(ks) * len(c) + mon.stats.get("translated options", 0)
            for (rule, at, want, got), exact in mon.bad.items():
                f = out.setdefault((rule, "%s.%s" % (op, at if isinstance(at, str) else "input%d" % at), "expected %s, got %s" % (
                    ", ".join(map(str, want)) if isinstance(want, tuple) else want, got)), [set(), False])
                f[0].update(c)
                f[1] = f[1] or exact
            if mon.dynamic:
                continue
            for k in mon.without_effect() & set(ks):
                if max(c) <= EFFECTLESS.get((op, k), (0,))[0]:
                    continue
                f = out.setdefault(("option-ignored", "%s.%s" % (op, k), "read, but whatever it is the conversion is the same"), [set(), False])
                f[0].update(c)
                f[1] = True
            for k in ks:
                if exempt(PARTIAL, op, k) and any(k in r for r, _ in mon.paths):
                    continue
                for (r, exact), cnt in mon.paths.items():
                    if k not in r:
                        f = out.setdefault(("option-ignored", "%s.%s" % (op, k), "neither read nor kept"), [set(), False])
                        f[0].update(c)
                        f[1] = f[1] or exact
        return (out, n), scale

    def job(u):
        return confirm(lambda k: once(u, k), lambda r: any(not v[1] for v in r[0].values()))
    return [(u[0], {k: v for k, v in out.items() if v[1]}, n) for u, (out, n) in zip(units, pmap(job, units))]


def run(rep):
    proj = Project(fixtures=("tfl",))
    hs, _ = registry.load(proj)
    for r, t in RULES.items():
        rep.rule(r, t)

    def pick(fix):
        mine = [h for h in hs if is_fixture(h.mod) == fix and h.op.split(":")[-1].startswith("TFL_") or fix and is_fixture(h.mod)]
        return [(h, min(OPSETS), max(OPSETS)) for h in mine if h.kind == "to_tf"] + handler_units([h for h in mine if h.kind != "to_tf"])
    got = {}
    for h, out, n in analyse(proj, pick(False) + pick(True)):
        if is_fixture(h.mod):
            got.setdefault(h.cls.node.name, set()).update((r, c.split(".")[-1]) for r, c, _ in out)
            continue
        rep.count("TFLite handlers")
        rep.count("operator x option obligations", n)
        rep.sample("handlers", "%s: %s" % (h.op, ", ".join(options(h.op)) or "no options"))
        for (rule, c, what), (ops, _) in out.items():
            rep.find(rule, c, "conversion of %s: %s" % (h.op, what), "%s:%d (%s)" % (h.mod.rel, h.fi.node.lineno, h.fi.qual), ops)
    rep.selftest("ignored option flagged %s" % got.get("Forgets"), ("option-ignored", "stride_w") in got.get("Forgets", ()))
    rep.selftest("swapped options flagged %s" % got.get("Swaps"), got.get("Swaps") == {("option-misplaced", "strides")})
    rep.selftest("partly used vector flagged %s" % got.get("FirstOnly"), got.get("FirstOnly") == {("quantization-partial", "input1")})
    rep.selftest("option tested for nothing flagged %s" % got.get("Pretends"), got.get("Pretends") == {("option-ignored", "padding")})
    rep.selftest("honoured options silent %s" % got.get("Honours"), got.get("Honours") == set())
    rep.floor("TFLite handlers", 110)
    rep.floor("operator x option obligations", 800)
    rep.assumptions += ["oracles/tflite.json equals the option tables of the TFLite schema in the installed TensorFlow",
                        "an option that is left on the node under a name the TensorFlow operator defines is honoured by that operator's conversion (C02)",
                        "the loader puts every option on the node under its schema name (C16 checks the readers it calls)"]
