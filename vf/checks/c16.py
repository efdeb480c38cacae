"""C16: tables and readers translate the way the standards define."""
import ast

from .. import readers
from ..absint import State, Const, DictO, ListO, Ref, Tup
from ..gmodel import load_oracle
from ..options import OptInterp
from ..project import Project, is_fixture, loc

EXPLANATION = ("Every dictionary of the package whose keys and values name element types, operators, opsets or schema enums is evaluated statically and compared entry by entry with the "
               "standards; every reader of a field of the TFLite schema is interpreted path by path and the slot, kind and default it reads compared with those of the schema "
               "TensorFlow ships (oracles/tflite.json).")
RULES = {
    "type-entry": "a table between element types of TensorFlow, TFLite, ONNX and numpy maps each type to its counterpart",
    "type-number": "the numbers given to TensorFlow's types are those of types.proto",
    "ir-version": "the IR version of a model is the one its opset was released with (4 for opset 7 and 8)",
    "layout": "a permutation named A_TO_B takes layout A to layout B",
    "fold-function": "the numpy function a constant op is folded with computes that op",
    "enum-value": "members of the TFLite enums have the schema's values",
    "enum-field": "fields of the schema that hold an enum or a subgraph are decoded as that",
    "reader-field": "a field of the TFLite schema is read from its slot, with its kind and default",
}
SAME = {        # element type -> its names in onnx, tensorflow, tflite, numpy and text
    "float": ("FLOAT", "FLOAT", "FLOAT32", "float32"), "half": ("FLOAT16", "HALF", "FLOAT16", "float16"), "double": ("DOUBLE", "DOUBLE", "FLOAT64", "float64"),
    "bfloat16": ("BFLOAT16", "BFLOAT16", "BFLOAT16", "bfloat16"), "bool": ("BOOL", "BOOL", "BOOL", "bool"), "string": ("STRING", "STRING", "STRING", "object"),
    "complex64": ("COMPLEX64", "COMPLEX64", "COMPLEX64", "complex64"), "complex128": ("COMPLEX128", "COMPLEX128", "COMPLEX128", "complex128"),
}
for _n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "int4"):
    SAME[_n] = (_n.upper(), _n.upper(), _n.upper(), _n)
VOC = {k: {v[i]: n for n, v in SAME.items()} for i, k in enumerate(("onnx", "tf", "tfl", "np"))}
VOC["np"].update({"bool_": "bool", "str": "string", "str_": "string", "float": "double", "int": "int64", "object_": "string", "single": "float", "half": "half", "double": "double",
                  "ubyte": "uint8", "byte": "int8", "intc": "int32", "longlong": "int64"})
VOC["text"] = {"float": "float", "float32": "float", "float16": "half", "half": "half", "double": "double", "float64": "double", "string": "string", "bool": "bool", "bfloat16": "bfloat16"}
for _n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "complex64", "complex128"):
    VOC["text"][_n] = _n
STANDS = {      # (kind, name) -> what may stand in for it, and why
    ("tf", "BFLOAT16"): {("onnx", "FLOAT16")},          # ONNX operators do not take bfloat16 below opset 13
    ("tf", "QUINT8"): {("onnx", "UINT8")}, ("tf", "QINT8"): {("onnx", "INT8")}, ("tf", "QINT32"): {("onnx", "INT32")},
    ("tf", "RESOURCE"): {("onnx", "INT64"), ("onnx", "UNDEFINED")},        # no data, any type will do
    ("tf", "VARIANT"): {("onnx", "UNDEFINED")}, ("tfl", "RESOURCE"): {("onnx", "UNDEFINED"), ("tf", "RESOURCE")}, ("tfl", "VARIANT"): {("onnx", "UNDEFINED"), ("tf", "VARIANT")},
}
FOLD = {"Add": {"add"}, "AddV2": {"add"}, "GreaterEqual": {"greater_equal"}, "Greater": {"greater"}, "Less": {"less"}, "LessEqual": {"less_equal"}, "Cast": {"asarray", "array"},
        "ConcatV2": {"concatenate"}, "Mul": {"multiply"}, "Pack": {"stack"}, "Range": {"arange"}, "Sqrt": {"sqrt"}, "Sub": {"subtract"}, "Maximum": {"maximum"}, "Minimum": {"minimum"},
        "Equal": {"equal"}, "NotEqual": {"not_equal"}, "Neg": {"negative"}, "Abs": {"abs", "absolute", "fabs"}, "Exp": {"exp"}, "Log": {"log"}, "FloorDiv": {"floor_divide"},
        "RealDiv": {"divide", "true_divide"}, "Transpose": {"transpose"}, "Reshape": {"reshape"}, "Squeeze": {"squeeze"}, "ExpandDims": {"expand_dims"}, "Prod": {"prod"}, "Sum": {"sum"},
        "Rsqrt": set(), "ListDiff": {"isin", "in1d"}, "Fill": {"full"}, "Pow": {"power"}, "Square": {"square"}, "LogicalAnd": {"logical_and"}, "LogicalOr": {"logical_or"}, "LogicalNot": {"logical_not"}}
ENUM_FIELDS = {     # field of the schema -> enum (None in a class: that class has a field of the name that is no enum)
    "FusedActivationFunction": "ActivationFunctionType", "Padding": "Padding", "WeightsFormat": "FullyConnectedOptionsWeightsFormat", "KernelType": "LSTMKernelType",
    "Combiner": "CombinerType", "InDataType": "TensorType", "OutDataType": "TensorType", "OutputType": "TensorType", "OutType": "TensorType", "Mode": "MirrorPadMode",
    "IdxOutType": "TensorType", "Type": "LSHProjectionType",
    "QuantizedBiasType": "TensorType", "KeyDtype": "TensorType", "ValueDtype": "TensorType",
}
OPTIONAL_ENUM = {"QuantizedBiasType", "KeyDtype", "ValueDtype"}      # nothing reads these
SUBGRAPH_FIELDS = {"ThenSubgraphIndex", "ElseSubgraphIndex", "CondSubgraphIndex", "BodySubgraphIndex", "Subgraph"}


def vocab(v, tfl=False):
    """(kind, name) a value stands for, or None"""
    if isinstance(v, Const):
        if tfl and isinstance(v.v, int) and not isinstance(v.v, bool):
            return ("tfl", TFL.get(v.v, "#%d" % v.v))
        return ("str", v.v) if isinstance(v.v, str) else ("int", v.v) if isinstance(v.v, int) and not isinstance(v.v, bool) else None
    n = getattr(v, "name", None)
    if not isinstance(n, str):
        return None
    p = n.split(".")
    if len(p) > 1 and p[-2] == "TensorProto":
        return ("onnx", p[-1])
    if p[-1].startswith("DT_"):
        return ("tf", p[-1][3:])
    if p[0] == "numpy" or p[0] == "builtins":
        return ("np", p[-1])
    return None


TFL = {v: k for k, v in load_oracle("tflite")["enums"]["TensorType"].items()}


def tables(proj):
    """(module, node, name, [(key, value)]) of every dictionary whose entries can be evaluated"""
    for m in proj.modules.values():
        if m.name.startswith("tf2onnx.tflite."):
            continue
        ip = OptInterp(proj, {m.name}, set())
        ip.known, ip.scale = {}, 2
        ip.reset()
        done = set()
        for name, bs in sorted(m.defs.items()):
            for b in bs:
                if isinstance(b, (ast.Assign, ast.AnnAssign)) and isinstance(b.value, (ast.Dict, ast.DictComp, ast.Call, ast.BinOp)):
                    st = State()
                    try:
                        v = ip.global_value(m, name, st)
                    except (KeyError, AttributeError):
                        continue
                    o = st.heap.get(v.a) if isinstance(v, Ref) else None
                    if isinstance(o, DictO) and o.items:
                        done.add(b.value)
                        yield m, b.value, name, list(o.items.items())
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Dict) and n not in done and len(n.keys) > 1 and all(isinstance(x, (ast.Constant, ast.Name, ast.Attribute)) for x in n.keys + n.values):
                out = []
                for k, v in zip(n.keys, n.values):
                    kv = [one(ip, m, x) for x in (k, v)]
                    if None in kv:
                        break
                    out.append(tuple(kv))
                else:
                    yield m, n, "line", out


def one(ip, m, e):
    if isinstance(e, ast.Constant):
        return Const(e.value)
    try:
        r = ip.proj.resolve_expr(m, e)
        n = getattr(r, "name", None)
        if type(r).__name__ == "Ext":
            return r
        if type(r).__name__ == "Global":
            return None
    except Exception:
        return None
    return None


def judge_table(rep, m, items):
    fix = is_fixture(m)
    ints = all(isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool) for k, v in items)
    vals = [vocab(v) for k, v in items]
    kinds = {v[0] for v in vals if v}
    if ints and kinds and kinds <= {"onnx", "tf", "np"} and None not in vals:
        ks = [vocab(k, True) for k, v in items]
    else:
        ks = [vocab(k) for k, v in items]
    if None in ks or None in vals:
        return []
    pair = ({k[0] for k in ks}, kinds)
    if any(len(x) != 1 for x in pair):
        return []
    a, b = (next(iter(x)) for x in pair)
    bad = []
    if a == "int" and b == "int" and len(items) >= 10 and sorted(k[1] for k in ks) == list(range(1, len(items) + 1)):
        ir = load_oracle("onnx")["ir"]
        for k, v in zip(ks, vals):
            fix or rep.count("opset to IR version entries")
            want = ir.get(str(k[1]))
            if want is not None and v[1] != want and not (want < 4 and k[1] in (7, 8) and v[1] == 4):
                bad.append(("ir-version", "%s" % k[1], "opset %d is given IR version %d, released with %d" % (k[1], v[1], want)))
        return bad
    if a == "str" and b == "str":
        enums = load_oracle("tflite")["enums"]
        if all(v[1] in enums for v in vals):
            got = dict((k[1], v[1]) for k, v in zip(ks, vals))
            if not any(k in ENUM_FIELDS for k in got):
                return []       # still in the spelling of the schema file
            for k, v in got.items():
                fix or rep.count("enum fields")
                if ENUM_FIELDS.get(k, v) != v:
                    bad.append(("enum-field", k, "field %s is decoded as %s, the schema says %s" % (k, v, ENUM_FIELDS[k])))
            for k in ENUM_FIELDS:
                if k not in got and k not in OPTIONAL_ENUM:
                    bad.append(("enum-field", k, "field %s of the schema is not decoded as %s" % (k, ENUM_FIELDS[k])))
            return bad
        return []
    if a == "str" and b == "np" and all(k[1] in FOLD for k in ks):
        for k, v in zip(ks, vals):
            fix or rep.count("fold functions")
            if v[1] not in FOLD[k[1]]:
                bad.append(("fold-function", k[1], "%s is folded with numpy.%s" % (k[1], v[1])))
        return bad
    voc = {"onnx", "tf", "tfl", "np"}
    if b == "str" and a in voc and all(v[1] in VOC["text"] for v in vals):
        b = "text"
        vals = [("text", v[1]) for v in vals]
    if a == "str" and b in voc and all(k[1] in VOC["text"] for k in ks):
        a = "text"
        ks = [("text", k[1]) for k in ks]
    if a == b or not ({a, b} <= voc | {"text"}):
        return []
    for k, v in zip(ks, vals):
        fix or rep.count("element type entries")
        x, y = VOC[a].get(k[1]), VOC[b].get(v[1])
        if v in STANDS.get(k, ()) or k in STANDS.get(v, ()):
            continue
        if x is None and y is None:
            continue
        if x != y:
            bad.append(("type-entry", "%s %s" % (k[0], k[1]), "%s %s is mapped to %s %s" % (k + v)))
    return bad


def layouts(proj):
    for m in proj.modules.values():
        for name, bs in m.defs.items():
            p = name.split("_TO_")
            if len(p) == 2 and sorted(p[0]) == sorted(p[1]) and len(set(p[0])) == len(p[0]) and len(bs) == 1 and isinstance(bs[0], ast.Assign):
                ip = OptInterp(proj, {m.name}, set())
                ip.known, ip.scale = {}, 2
                ip.reset()
                st = State()
                v = ip.global_value(m, name, st)
                o = st.heap.get(v.a) if isinstance(v, Ref) else v
                items = [x.v for x in o.items if isinstance(x, Const)] if isinstance(o, (ListO, Tup)) else None
                yield m, bs[0], name, items, [p[0].index(c) for c in p[1]]


def run(rep):
    proj = Project(fixtures=("tables",))
    for r, t in RULES.items():
        rep.rule(r, t)
    got = {}

    def hit(m, node, name, bad):
        for rule, key, msg in bad:
            if is_fixture(m):
                got.setdefault(name, set()).add(rule)
            else:
                rep.find(rule, "%s %s" % (m.name, key), msg, loc(m, node))

    for m, d, name, items in tables(proj):
        hit(m, d, name, judge_table(rep, m, items))
    for m, b, name, items, want in layouts(proj):
        if items is None:
            continue
        rep.count("layout permutations")
        if items != want:
            hit(m, b, name, [("layout", name, "%s is %s, it has to be %s" % (name, items, want))])
    for m in proj.modules.values():
        ip = OptInterp(proj, {m.name}, set())
        ip.known, ip.scale = {}, 2
        ip.reset()
        for name, bs in sorted(m.defs.items()):
            if not all(isinstance(b, ast.Assign) and isinstance(b.value, (ast.List, ast.ListComp, ast.Tuple, ast.Set)) for b in bs):
                continue
            st = State()
            v = ip.global_value(m, name, st)
            o = st.heap.get(v.a) if isinstance(v, Ref) else v
            items = {x.v for x in getattr(o, "items", ()) if isinstance(x, Const)} if isinstance(o, (ListO, Tup)) else set()
            if len(items & SUBGRAPH_FIELDS) > 1:
                is_fixture(m) or rep.count("subgraph fields", len(items))
                for k in sorted(SUBGRAPH_FIELDS - items):
                    hit(m, bs[-1], name, [("enum-field", k, "field %s, the number of a subgraph, is not decoded as one" % k)])
    types = load_oracle("tf")["types"]
    for m in proj.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                ks = [k for k in n.keywords if k.arg and k.arg.startswith("DT_") and isinstance(k.value, ast.Constant)]
                for k in ks:
                    rep.count("numbers of TensorFlow types")
                    if types.get(k.arg) != k.value.value:
                        hit(m, n, "bad_numbers", [("type-number", k.arg, "%s is given the number %s, it is %s" % (k.arg, k.value.value, types.get(k.arg)))])
    orc = load_oracle("tflite")
    for m, c in readers.enums(proj, "tf2onnx.tflite."):
        want = orc["enums"].get(c.node.name)
        if want is None:
            continue
        for s in c.node.body:
            if isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant):
                rep.count("enum members")
                k = s.targets[0].id
                if k in want and want[k] != s.value.value or k not in want and s.value.value in want.values():
                    rep.find("enum-value", "%s.%s" % (c.node.name, k), "%s.%s is %s, the schema says %s" % (c.node.name, k, s.value.value, want.get(k)), loc(m, s))
    for pkg in ["tf2onnx.tflite."] + [m.name for m in proj.modules.values() if is_fixture(m)]:
        for m, c in readers.table_classes(proj, pkg):
            want = orc["readers"].get(c.node.name, {})
            rep.count("schema tables")
            for f, fi in readers.fields(c):
                if f not in want:
                    rep.count("fields the oracle does not have")
                    continue
                b = readers.behaviour(proj, fi, {m.name})
                if b is None:
                    rep.count("readers not followed")
                    continue
                rep.count("field readers")
                rep.sample("readers", "%s.%s: %s" % (c.node.name, f, " | ".join(b)))
                if b != want[f] and is_fixture(m):
                    got.setdefault("reader " + f, set()).add("reader-field")
                elif b != want[f]:
                    rep.find("reader-field", "%s.%s" % (c.node.name, f), "reads %s, the schema says %s" % (" | ".join(x for x in b if x not in want[f]), " | ".join(x for x in want[f] if x not in b)),
                             loc(m, fi.node))
            for f in want:
                if f not in c.methods and not f.endswith(("AsNumpy", "IsNone", "Length")) and want.get(f):
                    rep.count("fields without reader")
    for n in ("bad_types", "bad_ir", "bad_fold", "NHWC_TO_NWHC", "bad_numbers", "bad_enum", "bad_subgraphs", "reader Type"):
        rep.selftest("%s is reported" % n, n in got)
    rep.selftest("nothing else is", set(got) <= {"bad_types", "bad_ir", "bad_fold", "NHWC_TO_NWHC", "bad_numbers", "bad_enum", "bad_subgraphs", "reader Type"})
    rep.floor("element type entries", 60)
    rep.floor("field readers", 250)
    rep.floor("enum members", 250)
    rep.assumptions += ["oracles/tflite.json, tf.json and onnx.json state the schema, types and releases of the installed TensorFlow and onnx",
                        "bfloat16, quantized, resource and variant tensors may be given the stand-in types listed in vf/checks/c16.py"]
