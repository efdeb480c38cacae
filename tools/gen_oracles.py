"""Regenerate /verif/oracles/*.json from the installed onnx, onnxruntime and tensorflow packages (never from /repo)."""
import json, os, sys
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracles")
import onnx
from onnx import defs, helper
def sch(s):
    def dflt(a):
        if not a.default_value.name:
            return None
        v = helper.get_attribute_value(a.default_value)
        if isinstance(v, bytes):
            v = v.decode()
        elif not isinstance(v, (int, float, str)):
            v = [x.decode() if isinstance(x, bytes) else x for x in v] if hasattr(v, "__iter__") else None
        return v
    ats = {n: [int(a.type.value if hasattr(a.type,'value') else a.type), bool(a.required), dflt(a)] for n, a in s.attributes.items()}
    variadic = len(s.inputs) > 0 and int(s.inputs[-1].option.value if hasattr(s.inputs[-1].option,'value') else s.inputs[-1].option) == 2
    def ty(p):
        return sorted(p.types) if hasattr(p, "types") else []
    return {"since": s.since_version, "dep": bool(s.deprecated), "attrs": ats, "in": [s.min_input, s.max_input],
            "out": [s.min_output, s.max_output],
            "intypes": [ty(p) for p in s.inputs], "outtypes": [ty(p) for p in s.outputs],
            "intypestr": [getattr(p, 'type_str', getattr(p,'typeStr','')) for p in s.inputs],
            "outtypestr": [getattr(p, 'type_str', getattr(p,'typeStr','')) for p in s.outputs]}
res = {}
for s in defs.get_all_schemas_with_history():
    res.setdefault(s.domain, {}).setdefault(s.name, []).append(sch(s))
for d in res.values():
    for l in d.values():
        l.sort(key=lambda x: x["since"])
ir = {str(o): helper.find_min_ir_version_for([helper.make_opsetid("", o)]) for o in range(1, 30) if (("ai.onnx", o) in helper.OP_SET_ID_VERSION_MAP)}
dt = {k: v for k, v in onnx.TensorProto.DataType.items()}
npd = {}
for k, v in dt.items():
    try:
        npd[k] = helper.tensor_dtype_to_np_dtype(v).name
    except Exception:
        pass
attrt = dict(onnx.AttributeProto.AttributeType.items())
json.dump({"onnx_version": onnx.__version__, "schemas": res, "ir": ir, "dtypes": dt, "np": npd, "attrtypes": attrt},
          open(os.path.join(out, "onnx.json"), "w"), sort_keys=True, separators=(",", ":"))
import onnxruntime as ort
from onnxruntime.capi import onnxruntime_pybind11_state as st
ms = {}
if hasattr(st, "get_all_operator_schema"):
    for s in st.get_all_operator_schema():
        if s.domain in ("com.microsoft",):
            ats = {n: [int(a.type.value if hasattr(a.type,'value') else a.type), bool(a.required)] for n, a in s.attributes.items()}
            ms.setdefault(s.domain, {}).setdefault(s.name, []).append({"since": s.since_version, "attrs": ats, "in": [s.min_input, s.max_input], "out": [s.min_output, s.max_output]})
json.dump({"ort_version": ort.__version__, "schemas": ms}, open(os.path.join(out, "ort.json"), "w"), sort_keys=True, separators=(",", ":"))
import tensorflow as tf
from tensorflow.python.framework import op_def_registry
from tensorflow.python.framework import c_api_util
from tensorflow.core.framework import op_def_pb2, types_pb2
try:
    from tensorflow.python.client import pywrap_tf_session as c
    buf = c.TF_GetAllOpList()
    l = op_def_pb2.OpList(); l.ParseFromString(c.TF_GetBuffer(buf) if not isinstance(buf, bytes) else buf)
except Exception as e:
    print("fallback", e); raise
tfops = {}
for o in l.op:
    tfops[o.name] = {
        "in": [[a.name, a.number_attr or a.type_list_attr] for a in o.input_arg],
        "out": [[a.name, a.number_attr or a.type_list_attr] for a in o.output_arg],
        "min": {a.name: a.minimum for a in o.attr if a.has_minimum},
        "attrs": {a.name: [a.type, a.HasField("default_value"), (list(a.allowed_values.list.type) if a.type=="type" else [s.decode() for s in a.allowed_values.list.s]) if a.HasField("allowed_values") else None] for a in o.attr},
        "io_types": sorted({types_pb2.DataType.Name(a.type)[3:].lower() for a in list(o.input_arg) + list(o.output_arg) if a.type}),
        "tin": [a.type_attr or types_pb2.DataType.Name(a.type) if not a.type_list_attr else "" for a in o.input_arg],
        "tout": [a.type_attr or types_pb2.DataType.Name(a.type) if not a.type_list_attr else "" for a in o.output_arg],
        "stateful": o.is_stateful}
json.dump({"tf_version": tf.__version__, "ops": tfops, "types": dict(types_pb2.DataType.items()),
   "np": {k: getattr(tf.dtypes.as_dtype(v).as_numpy_dtype, "__name__", "?") for k, v in types_pb2.DataType.items() if 0 < v < 24 and v not in (20,21)}},
    open(os.path.join(out, "tf.json"), "w"), sort_keys=True, separators=(",", ":"))
from tensorflow.lite.python import schema_py_generated as sp
tl = {}
for n in dir(sp):
    cls = getattr(sp, n)
    if isinstance(cls, type) and not n.endswith("T"):
        ints = {k: v for k, v in vars(cls).items() if isinstance(v, int) and not k.startswith("_")}
        if ints and not any(callable(v) for k, v in vars(cls).items() if not k.startswith("_")):
            tl[n] = ints
# what every field reader of the schema reads, in the normal form of vf/readers.py (from the source of the module, in a process of its own)
import subprocess
rd = json.loads(subprocess.run(["python3", os.path.join(os.path.dirname(os.path.abspath(__file__)), "schema_readers.py"), sp.__file__], check=True, capture_output=True, text=True).stdout)
json.dump({"tf_version": tf.__version__, "enums": tl, "readers": rd}, open(os.path.join(out, "tflite.json"), "w"), sort_keys=True, separators=(",", ":"))

# ---- members and signatures of modules the repository imports (and a few it might)
import importlib, inspect
STD = """os os.path sys logging copy re json math struct time datetime collections itertools functools operator contextlib tempfile shutil io gzip
zipfile urllib urllib.request urllib.parse traceback types typing enum inspect importlib argparse uuid string textwrap numbers random hashlib
pathlib warnings abc dataclasses subprocess threading queue bisect heapq fnmatch glob platform pprint base64 builtins""".split()
PKG = """numpy numpy.linalg numpy.random numpy.lib numpy.ma numpy.testing onnx onnx.helper onnx.numpy_helper onnx.onnx_pb onnx.defs onnx.checker
onnx.shape_inference onnx.external_data_helper onnx.version_converter onnx.utils google.protobuf.message google.protobuf.json_format
google.protobuf.text_format packaging.version""".split()
members, sigs = {}, {}
def sig(full, f):
    try:
        s = inspect.signature(f)
    except (TypeError, ValueError):
        return
    pos, req, kwo, va, vk = [], 0, [], False, False
    for p in s.parameters.values():
        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD):
            pos.append([p.name, p.default is p.empty, p.kind == p.POSITIONAL_ONLY])
        elif p.kind == p.VAR_POSITIONAL:
            va = True
        elif p.kind == p.VAR_KEYWORD:
            vk = True
        else:
            kwo.append([p.name, p.default is p.empty])
    sigs[full] = [pos, va, kwo, vk]
for m in STD + PKG:
    mod = importlib.import_module(m)
    members[m] = sorted(dir(mod))
    for n in dir(mod):
        if n.startswith("_"):
            continue
        try:
            v = getattr(mod, n)
        except Exception:
            continue
        if inspect.isclass(v) and (m.startswith("onnx") or m.startswith("google")) and hasattr(getattr(v, "DESCRIPTOR", None), "enum_types"):
            d = v.DESCRIPTOR
            members[m + "." + n] = sorted(set(dir(v)) | {x for en in d.enum_types for x in list(en.values_by_name) + [en.name]} |
                                          {x.name for x in d.fields} | {x.name for x in d.nested_types})
        elif inspect.isfunction(v) and m in PKG:
            sig(m + "." + n, v)
        elif m == "numpy" and callable(v) and not inspect.isclass(v):
            sig(m + "." + n, v)
json.dump({"members": members, "sigs": sigs}, open(os.path.join(out, "members.json"), "w"), sort_keys=True, indent=None)
