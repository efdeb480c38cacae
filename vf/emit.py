"""Emitted-operator rules: what the nodes left behind by a conversion unit look like, against the ONNX operator schemas."""
from .absint import Const, Sym, Ref, NodeO, ListO, Tup, NONE, TRUE
from .gmodel import Monitor, load_oracle

ONNX = load_oracle("onnx")
ORT = load_oracle("ort")
TF = load_oracle("tf")
_sc = {}


def schema(dom, op, opset):
    k = (dom, op, opset)
    if k not in _sc:
        best = None
        for s in ONNX["schemas"].get(dom, {}).get(op, []):
            if s["since"] <= opset and (best is None or s["since"] > best["since"]):
                best = s
        _sc[k] = best
    return _sc[k]


def exists(dom, op):
    return op in ONNX["schemas"].get(dom, {})


GRAPH_LEVEL = {"Placeholder", "PlaceholderWithDefault", "PlaceholderV2", "Const", "ConstV2", "graph"}


def opaque_valued(op):
    """TF op over resource/variant values (tables, tensor lists): its value only exists through its readers' conversions"""
    d = TF["ops"].get(op)
    if d is None:
        return False
    return any(t in ("resource", "variant") for t in d.get("io_types", []))


TYPENAME = {1: "FLOAT", 2: "INT", 3: "STRING", 4: "TENSOR", 5: "GRAPH", 6: "FLOATS", 7: "INTS", 8: "STRINGS", 11: "SPARSE_TENSOR",
            13: "TYPE_PROTO"}
TF2ONNX = {"int": 2, "bool": 2, "type": 2, "float": 1, "string": 3, "func": 3, "tensor": 4, "list(int)": 7, "list(float)": 6,
           "list(string)": 8, "list(type)": 7, "list(bool)": 7}


def type_fits(v, want):
    """does onnx.helper.make_attribute(v) produce that attribute type (values whose type is not settled fit)"""
    if isinstance(v, bool) or isinstance(v, int):
        return want == 2
    if isinstance(v, float):
        return want == 1
    if isinstance(v, (str, bytes)):
        return want == 3
    if isinstance(v, tuple):
        if not v:
            return want in (6, 7, 8)
        if all(isinstance(x, int) for x in v):
            return want == 7
        if all(isinstance(x, (int, float)) for x in v):
            return want == 6
        if all(isinstance(x, (str, bytes)) for x in v):
            return want == 8
    return True


def plain(v):
    """python value of a fully known abstract value, else None"""
    if isinstance(v, Const):
        return v.v
    if isinstance(v, Tup) and all(isinstance(x, Const) for x in v.items):
        return tuple(x.v for x in v.items)
    return None


# attributes a later opset introduced whose meaning earlier opsets already imply
IMPLIED = {("Split", "num_outputs")}


# attributes that became operands and have no effect at inference
INERT = {("Dropout", "ratio")}


def neutral(op, opset, attr, value):
    """attribute known only to a later version of the operator and set to what the earlier version means anyway"""
    if (op, attr) in IMPLIED or (op, attr) in INERT:
        return True
    for s in ONNX["schemas"].get("", {}).get(op, []):
        if s["since"] > opset and attr in s["attrs"]:
            d = s["attrs"][attr][2]
            return d is not None and value is not None and (value == d or (isinstance(value, tuple) and list(value) == d))
    return False


class EmitMonitor(Monitor):
    """collects one record per distinct emitted node; evaluated for every opset the run stands for"""

    def __init__(self):
        self.stats = {}
        self.records = {}
        self.read_attrs = set()
        self.unit = None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def attr_read(self, ip, st, own, n, key, e):
        if isinstance(n, NodeO) and isinstance(key, str):
            self.read_attrs.add((n.site, key))

    def final_node(self, ip, st, addr, o):
        if o.removed is not False or o.kind == "lift":
            return
        g = ip.gobj(st)
        lo = st.heap.get(o.outputs.a)
        if isinstance(lo, ListO) and lo.items and not lo.open and all(x in g.redir for x in lo.items):
            self.count("dead")
            return
        if isinstance(lo, ListO) and lo.open and o.kind == "tf" and Sym("out", o.key, 0) in g.redir:
            return
        t = ip.res(st, o.type)
        if not isinstance(t, Const) or not isinstance(t.v, str):
            self.count("undecided_type")
            return
        d = ip.res(st, o.domain)
        if not isinstance(d, Const):
            self.count("undecided_domain")
            return
        attrs = frozenset(k for k, v in o.attrs.items() if isinstance(k, str) and not k.startswith("_")
                          and not (o.kind == "tf" and v == Sym("attrval", o.key, k)))
        vals = frozenset((k, plain(ip.res(st, o.attrs[k]))) for k in attrs)
        li = st.heap.get(o.inputs.a)
        # an iteration that may be empty leaves "too few" undecided
        n_in = (len(li.items), bool(li.open) or bool(st.facts.get("zero"))) if isinstance(li, ListO) else (0, True)
        n_out = (len(lo.items), bool(lo.open)) if isinstance(lo, ListO) else (0, True)
        skip = ip.res(st, o.skip)
        dels = frozenset(m[1] for m in o.meta if isinstance(m, tuple) and m[0] == "del")
        if o.kind == "tf":
            # attributes found absent on this path
            mine = (o.key, Ref(addr))
            for k, v in st.pc.items():
                if isinstance(k, tuple) and k[0] == "none" and v is True:
                    k = k[1]
                elif v is not False:
                    continue
                if isinstance(k, Sym) and k.op in ("attrval", "aproto") and k.args[0] in mine:
                    dels |= {k.args[1]}
        rec = (t.v, d.v, o.kind, o.site, vals, o.open, n_in, n_out, skip.v if isinstance(skip, Const) else None, dels)
        # exact: seen on a partition of the paths that was never joined with another
        self.records[rec] = self.records.get(rec, False) or not st.facts.get("joined")


def copied(v, k):
    """value of the attribute of the same name of an existing node"""
    while isinstance(v, Sym) and v.op == "getattr" and isinstance(v.args[0], Sym):
        v = v.args[0]
    return isinstance(v, Sym) and v.op in ("attrval", "attrvald", "aproto") and v.args[1] == k


def types_known(st):
    """operator types the path has found on existing nodes"""
    res = set()

    def is_type(x):
        return isinstance(x, Sym) and x.op == "type"
    for k, v in st.pc.items():
        if isinstance(k, tuple) and len(k) == 2 and is_type(k[1]):
            if k[0] == "eq" and isinstance(v, Const):
                res.add(v.v)
            elif k[0] == "dom" and isinstance(v, frozenset):
                res |= {x.v if isinstance(x, Const) else x for x in v}
        elif isinstance(k, Sym) and k.op in ("eq", "in") and v is True and any(is_type(a) for a in k.args):
            for a in k.args:
                res |= {a.v} if isinstance(a, Const) else {x.v for x in a.items if isinstance(x, Const)} if isinstance(a, Tup) else set()
    return res


class PassMonitor(EmitMonitor):
    """operators that rewriters, late rewriters and optimizers make: those a later op mapping converts are not judged here"""
    mapped = frozenset()        # TensorFlow and TFLite operators the op mapping converts

    def __init__(self, mapped=frozenset()):
        super().__init__()
        self.mapped = mapped

    def begin(self, ip, st, u):
        self.stage = u.stage
        self.handed = set()

    def call_unknown(self, ip, st, fn, args):
        for a in args:
            if isinstance(a, Ref):
                self.handed.add(a.a)

    def final_node(self, ip, st, addr, o):
        if o.kind != "new" or addr in self.handed:
            return
        t = ip.res(st, o.type)
        if isinstance(t, Const) and isinstance(t.v, str):
            if self.stage in ("rewriter", "tflite") and (ip.res(st, o.skip) != TRUE and t.v in self.mapped or self.stage == "tflite" and not exists("", t.v)):
                self.count("converted later")
                return
            if self.stage == "optimizer":
                if t.v in types_known(st):
                    self.count("of the kind of an existing operator")
                    return
        keep = {k: v for k, v in o.attrs.items() if self.stage != "optimizer" or not copied(ip.res(st, v), k)}
        super().final_node(ip, st, addr, o if len(keep) == len(o.attrs) else o.clone(attrs=keep, open=True))


def evaluate(records, unit_site, opsets, read_attrs, tf_op, sink, stats, ignored=frozenset(), reachable=None):
    """sink(rule, key, message, site, opset, exact)"""
    unit_tf = TF["ops"].get(tf_op)
    if unit_tf is None and reachable is not None and not reachable(tf_op):
        stats["unreachable_unit"] = stats.get("unreachable_unit", 0) + 1
        return
    for rec, exact in records.items():
        t, dom, kind, site, vals, op, n_in, n_out, skip, dels = rec
        attrs = {k for k, _ in vals}
        s = site or unit_site
        key = "%s:%s:%s" % (s[0], s[2], t)
        if dom not in ("", "ai.onnx"):
            stats["custom_domain"] = stats.get("custom_domain", 0) + 1
            continue
        if t in GRAPH_LEVEL:
            continue
        if kind == "tf" and (opaque_valued(t) or opaque_valued(tf_op)):
            stats["opaque_valued"] = stats.get("opaque_valued", 0) + 1
            continue
        if kind == "tf" and unit_tf is None and t == tf_op:
            stats["passed_through"] = stats.get("passed_through", 0) + 1   # made by a rewriter, checked there
            continue
        for o in opsets:
            stats["obligations"] = stats.get("obligations", 0) + 1
            sc = schema("", t, o)
            if sc is None:
                why = "first exists in opset %d" % min(x["since"] for x in ONNX["schemas"][""][t]) if exists("", t) else "is not an ONNX operator"
                sink("op-missing", key, "emits operator %s, which %s" % (t, why), s, o, exact)
                continue
            if sc["dep"]:
                sink("op-deprecated", key, "emits operator %s, deprecated there" % t, s, o, exact)
                continue
            for k, v in vals:
                if k not in sc["attrs"] and (site, k) not in read_attrs and not neutral(t, o, k, v):
                    sink("attr-unknown", key + ":" + k, "sets attribute %s, which %s does not have there (it is silently discarded)" % (k, t), s, o, exact)
            if not op or kind == "tf":
                for k, (ty, req, _) in sc["attrs"].items():
                    if req and k not in attrs and not op:
                        sink("attr-missing", key + ":" + k, "%s lacks its required attribute %s" % (t, k), s, o, exact)
            for k, v in vals:
                want = sc["attrs"].get(k)
                if want is not None and v is not None and not type_fits(v, want[0]):
                    sink("attr-type", key + ":" + k, "sets attribute %s to %r, which does not have the type %s of that attribute" % (k, v, TYPENAME[want[0]]), s, o, exact)
            if kind == "tf" and unit_tf is not None:
                for k, (ty, _, _) in unit_tf["attrs"].items():
                    want = sc["attrs"].get(k)
                    if want is None or k in attrs or k in dels or k in ignored or ty not in TF2ONNX:
                        continue
                    if TF2ONNX[ty] != want[0]:
                        sink("attr-type", key + ":" + k, "keeps the TensorFlow attribute %s (%s), where %s has an attribute of that name with type %s" % (k, ty, t, TYPENAME[want[0]]), s, o, exact)
            lo, hi = sc["in"]
            if n_in[0] > hi:
                sink("too-many-inputs", key, "%s takes at most %d inputs there, gets %d" % (t, hi, n_in[0]), s, o, exact)
            if not n_in[1] and n_in[0] < lo:
                sink("too-few-inputs", key, "%s needs at least %d inputs there, gets %d" % (t, lo, n_in[0]), s, o, exact)
            lo, hi = sc["out"]
            if n_out[0] > hi:
                sink("too-many-outputs", key, "%s has at most %d outputs there, is given %d" % (t, hi, n_out[0]), s, o, exact)
