"""Abstract models of the repository's graph API (Graph, Node and a few utils) for the abstract interpreter."""
import json
import os

from .absint import (Interp, Const, OpsetC, Tup, Ref, Sym, FnV, ClsV, ExtV, BI, BM, ListO, DictO, InstO, NodeO, GraphO, State,
                     NONE, TRUE, FALSE, Val, Budget)
from .project import AnalysisBroken

ORA = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "oracles")


def load_oracle(n):
    with open(os.path.join(ORA, n + ".json")) as f:
        return json.load(f)


_onnx = load_oracle("onnx")
_tf = load_oracle("tf")

EXT_CONSTS = {}
for k, v in _onnx["dtypes"].items():
    EXT_CONSTS["TensorProto." + k] = v
for k, v in _tf["types"].items():
    EXT_CONSTS["types_pb2." + k] = v
for k, v in _onnx["attrtypes"].items():
    EXT_CONSTS["AttributeProto." + k] = v

NODE_METHODS = {"get_attr", "get_attr_value", "get_attr_int", "get_attr_str", "set_attr", "set_attr_onnx", "is_const",
                "is_graph_input", "is_scalar", "get_tensor_value", "set_tensor_value", "get_body_graphs",
                "set_body_graph_as_attr", "maybe_cast_input", "is_nhwc", "scalar_to_dim1", "is_while",
                "get_implicit_inputs", "update_proto", "get_onnx_attrs", "get_value_attr", "child_name",
                "is_graph_input_default_const"}
GRAPH_METHODS = {"make_node", "make_const", "make_consts", "remove_node", "insert_new_node_on_input", "insert_new_node_on_output",
                 "insert_node_on_output", "replace_all_inputs", "replace_input", "replace_inputs", "remove_input",
                 "get_shape", "get_dtype", "set_shape", "set_dtype", "copy_shape", "copy_dtype", "get_rank",
                 "get_node_by_output", "get_node_by_name", "get_node_by_output_in_current_graph",
                 "find_output_consumers", "get_nodes", "reset_nodes", "is_target", "create_new_graph_with_same_config",
                 "add_graph_output", "add_graph_input", "add_graph_input_with_default", "copy_const", "is_const",
                 "get_tensor_value", "safe_remove_nodes", "safe_to_remove_nodes", "is_safe_to_remove_nodes",
                 "delete_unused_nodes", "topological_sort", "update_node_shape_dtype", "rename_tensors",
                 "change_node_name", "extract_sub_graph_nodes", "update_proto", "set_node_by_name", "append_node",
                 "make_graph", "make_model", "is_empty_input"}

NODE_FIELDS = {"name", "type", "input", "inputs", "output", "attr", "attr_onnx", "graph", "domain", "skip_conversion",
               "data_format", "op", "output_shapes", "output_dtypes", "summary", "need_skip", "_skip_conversion",
               "_op", "_attr", "_input", "_output"} | NODE_METHODS


class Monitor:
    """no-op base; rules subclass it"""
    n_paths = 0

    def tensor_asked(self, *a): pass
    def call_unknown(self, *a): pass
    def value_stored(self, *a): pass
    def consts_made(self, *a): pass
    def final_node(self, ip, st, addr, o):
        pass

    def __getattr__(self, name):
        if name.startswith("_"):
            raise AttributeError(name)
        return self._noop

    def _noop(self, *a, **k):
        return None


# utils functions modelled instead of interpreted: full name -> method
INTR = {
    "tf2onnx.utils:make_name": "i_make_name",
    "tf2onnx.utils:make_sure": "i_make_sure",
    "tf2onnx.utils:port_name": "i_port_name",
    "tf2onnx.utils:node_name": "i_opaque",
    "tf2onnx.tf_loader:find_function": "i_find_function",
    "tf2onnx.utils:map_onnx_to_numpy_type": "i_opaque",
    "tf2onnx.utils:map_numpy_to_onnx_dtype": "i_opaque",
    "tf2onnx.utils:construct_graph_from_nodes": "i_subgraph",
    "tf2onnx.graph:Graph": "i_subgraph",
    "tf2onnx.graph:Node": "i_opaque",
}


def premapping_attrs(proj):
    """(attributes of TF nodes the loader drops, attribute names that passes before the mapping may add to any node)"""
    c = proj.__dict__.get("_premap")
    if c is not None:
        return c
    import ast
    from .registry import const_eval
    m = proj.mod("tf2onnx.tf_utils")
    try:
        ign = set(const_eval(proj, m, [d for d in m.defs["TF_IGNORED_NODE_ATTRS"]][-1].value))
    except (KeyError, ValueError, IndexError):
        raise AnalysisBroken("TF_IGNORED_NODE_ATTRS is gone from tf_utils")
    tfattrs = set()
    for d in _tf["ops"].values():
        tfattrs.update(d["attrs"])
    ext = {"to", "data_format"}
    for name, mod in proj.modules.items():
        if not any(name.startswith("tf2onnx." + p) for p in ("rewriter", "tf_loader", "tf_utils", "tfonnx", "tflite_", "tfjs", "shape_inference", "late_rewriters", "utils", "graph", "custom_opsets")):
            continue
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call):
                f = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
                if f in ("set_attr", "set_attr_onnx", "make_attribute") and n.args and isinstance(n.args[0], ast.Constant):
                    ext.add(n.args[0].value)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                ext.add(n.slice.value)
            if isinstance(n, ast.Dict):
                ext.update(k.value for k in n.keys if isinstance(k, ast.Constant) and isinstance(k.value, str))
            if isinstance(n, ast.keyword) and n.arg:
                ext.add(n.arg)
    proj._premap = (frozenset(ign - {"DstT"}), frozenset(ext - (tfattrs - {"to", "data_format"})))
    return proj._premap


class GraphInterp(Interp):
    GRAPH = Ref(("graph",))
    roots = (("graph",), ("tfnode",))

    def __init__(self, proj, monitor, opset):
        super().__init__(proj, monitor, EXT_CONSTS)
        self.opset = opset
        self.ignored_attrs, self.extra_attrs = premapping_attrs(proj)
        for k in INTR:
            m, q = k.split(":")
            if m not in proj.modules or (q not in proj.modules[m].functions and q not in proj.modules[m].classes):
                raise AnalysisBroken("modelled function %s is gone" % k)

    # ---------------------------------------------------------------- initial state
    def init_state(self):
        st = State()
        st.heap[("graph",)] = GraphO(key="G", opset=OpsetC(self.opset), dtypes={}, shapes={}, producers={}, dead=frozenset(),
                                     redir=frozenset(), epoch=0, parent=None, meta={})
        return st

    def tf_node(self, st, optype, n_in, n_out, kind="tf", attrs=None, in_open=False, out_open=False, orig=None):
        a = ("tfnode",)
        key = Sym("NODE")
        st.heap[("ins", a)] = ListO(items=tuple(Sym("in", key, i) for i in range(n_in)), open=in_open, kind="list")
        st.heap[("outs", a)] = ListO(items=tuple(Sym("out", key, i) for i in range(n_out)), open=out_open, kind="list")
        st.heap[a] = NodeO(kind=kind, key=key, type=Const(optype) if isinstance(optype, str) else optype, name=Sym("name", key),
                           attrs=dict(attrs or {}), may=frozenset(), open=True, inputs=Ref(("ins", a)), outputs=Ref(("outs", a)),
                           domain=Const(""), skip=FALSE, removed=False, site=None, graph=self.GRAPH, meta=("orig", orig))
        g = st.heap[("graph",)]
        g = g.clone(producers=dict(g.producers))
        for i in range(n_out or 1):
            g.producers[Sym("out", key, i)] = a
        st.heap[("graph",)] = g
        return Ref(a)

    def lift(self, st, x, node=None):
        """heap object for an existing node known only structurally"""
        if isinstance(x, Ref):
            return x
        a = ("lift", x)
        if a not in st.heap:
            st.heap[("ins", a)] = ListO(items=(), open=True, kind="list")
            st.heap[("outs", a)] = ListO(items=(), open=True, kind="list")
            st.heap[a] = NodeO(kind="lift", key=x, type=Sym("type", x), name=Sym("name", x), attrs={}, may=frozenset(), open=True,
                               inputs=Ref(("ins", a)), outputs=Ref(("outs", a)), domain=Sym("domain", x), skip=Sym("skip", x),
                               removed=False, site=None, graph=Sym("graphof", x), meta=())
        return Ref(a)

    def lifted(self, st, x):
        a = ("lift", x)
        return Ref(a) if a in st.heap else None

    def gc(self, st):
        self.roots = [a for a in st.heap if a[0] in ("graph", "tfnode", "lift", "ggraph")]
        # lists of live nodes are reached through the nodes
        super().gc(st)

    def gc_graph(self, st, dead):
        for a, o in list(st.heap.items()):
            if isinstance(o, GraphO):
                if any(p in dead for p in o.producers.values()):
                    st.heap[a] = o.clone(producers={k: v for k, v in o.producers.items() if v not in dead})

    def nkey(self, o, ref):
        return o.key if o.key is not None else ref

    # ---------------------------------------------------------------- tensors and nodes
    def gobj(self, st):
        return st.heap[("graph",)]

    def gset(self, st, **kw):
        st.heap[("graph",)] = st.heap[("graph",)].clone(**kw)

    def producer(self, st, t):
        """node value producing tensor t"""
        t = self.res(st, t)
        g = self.gobj(st)
        a = g.producers.get(t)
        if a is not None and a in st.heap and not st.heap[a].removed:
            return Ref(a)
        return Sym("nodeof", self.frz(st, t))

    def mutate(self, st, what, ref, e):
        g = self.gobj(st)
        self.gset(st, epoch=g.epoch + 1 if g.epoch < 3 else 3)
        st.facts["mutated"] = True
        if self.mon:
            self.mon.graph_mutation(self, st, what, ref, e)

    # ---------------------------------------------------------------- node attribute access
    def node_attr(self, st, b, o, name, e, fid):
        key = self.nkey(o, b)
        if name == "name":
            return [(st, o.name)]
        if name == "type":
            return [(st, o.type)]
        if name == "input":
            return [(st, o.inputs)]
        if name == "output":
            return [(st, o.outputs)]
        if name == "inputs":
            if o.removed is True and self.mon:
                self.mon.use_after_remove(self, st, b, o, "inputs", e)
            l = st.heap.get(o.inputs.a)
            if isinstance(l, ListO) and not l.open:
                return [(st, self.mklist(st, e, fid, [self.producer(st, x) for x in l.items]))]
            if isinstance(l, ListO) and l.items:
                return [(st, self.mklist(st, e, fid, [self.producer(st, x) for x in l.items], True))]
            return [(st, Sym("innodes", key))]
        if name in ("attr", "attr_onnx"):
            return [(st, Sym("attrs", b))]
        if name == "graph":
            if o.removed is True and self.mon:
                self.mon.use_after_remove(self, st, b, o, "graph", e)
            return [(st, self.GRAPH if o.kind != "lift" else self.GRAPH)]
        if name == "domain":
            return [(st, o.domain)]
        if name in ("skip_conversion", "_skip_conversion"):
            return [(st, o.skip)]
        if name in ("output_shapes", "output_dtypes"):
            l = st.heap.get(o.outputs.a)
            if o.removed is True and self.mon:
                self.mon.use_after_remove(self, st, b, o, name, e)
            if isinstance(l, ListO) and not l.open:
                f = self.shape_of if name == "output_shapes" else self.dtype_of
                return [(st, self.mklist(st, e, fid, [f(st, x, e) for x in l.items]))]
            return [(st, Sym(name, key))]
        if name == "data_format":
            return [(st, self.read_attr(st, b, "data_format", e))]
        if name == "op":
            return [(st, Sym("proto", key))]
        if name in NODE_METHODS:
            return [(st, BI(b, name))]
        if name == "need_skip":
            return [(st, BI(b, name))]
        if name == "summary":
            return [(st, Sym("summary", key))]
        return [(st, Sym("getattr", key, name))]

    def sym_attr(self, st, b, name, e, fid):
        if b.op == "proto":
            x = b.args[0]
            if name == "op_type":
                return self.getattr(st, self.node_value(st, x), "type", e, fid)
            return self.getattr(st, self.node_value(st, x), name, e, fid)
        if b.op == "aproto":
            if name in ("i", "f", "s", "ints", "floats", "strings", "t", "g"):
                return [(st, self.read_attr(st, b.args[0], b.args[1], e))]
            return [(st, Sym("getattr", b, name))]
        if b.op in ("out", "in", "uname") and name in ("output", "input", "inputs", "type", "attr", "name") and self.mon:
            self.mon.attr_of_tensor(self, st, b, name, e)
        l = self.lifted(st, b)
        if l is not None and name in NODE_FIELDS:
            return self.node_attr(st, l, st.heap[l.a], name, e, fid)
        if name == "name":
            if b.op == "nodeof" and isinstance(b.args[0], Sym) and b.args[0].op == "out":
                pass
            return [(st, Sym("name", b))]
        if name == "type":
            return [(st, self.res(st, Sym("type", b)))]
        if name == "input":
            return [(st, Sym("inputs", b))]
        if name == "inputs":
            return [(st, Sym("innodes", b))]
        if name == "output":
            return [(st, Sym("outputs", b))]
        if name in ("attr", "attr_onnx"):
            return [(st, Sym("attrs", b))]
        if name == "graph":
            return [(st, self.GRAPH)]
        if name == "opset" and b.op not in ("attrs",):
            return [(st, OpsetC(self.opset))]
        if name in NODE_METHODS or name in GRAPH_METHODS:
            return [(st, BI(b, name))]
        if name == "data_format":
            return [(st, Sym("attrval", b, "data_format"))]
        if name == "op":
            return [(st, Sym("proto", b))]
        return [(st, Sym("getattr", b, name))]

    def node_value(self, st, key):
        """value usable as a node for a node key"""
        if key == Sym("NODE"):
            return Ref(("tfnode",))
        return key

    def subscript(self, st, b, k, e, fid):
        o = self.obj(st, b)
        if isinstance(o, ListO) and o.open and isinstance(b, Ref) and b.a[0] in ("ins", "outs"):
            if isinstance(k, Const) and isinstance(k.v, int) and 0 <= k.v < len(o.items):
                return [(st, o.items[k.v])]
            own = b.a[1]
            n = st.heap.get(own)
            key = n.key if n is not None and n.key is not None else Ref(own)
            return [(st, Sym("in" if b.a[0] == "ins" else "out", key, k if not isinstance(k, Const) else k.v))]
        return super().subscript(st, b, k, e, fid)

    def sym_item(self, st, b, k, e, fid):
        kk = k.v if isinstance(k, Const) else self.frz(st, k)
        if b.op == "inputs":
            return [(st, Sym("in", b.args[0], kk))]
        if b.op == "outputs":
            return [(st, Sym("out", b.args[0], kk))]
        if b.op == "innodes":
            return [(st, self.producer(st, Sym("in", b.args[0], kk)))]
        if b.op == "attrs":
            own = b.args[0]
            return [(st, Sym("aproto", own, kk))]
        if b.op in ("output_shapes", "output_dtypes"):
            t = Sym("out", b.args[0], kk)
            if self.res(st, t) in self.gobj(st).dead:      # the list was read before the node was removed
                return [(st, self.res(st, Sym(b.op[7:-1], self.frz(st, t))))]
            return [(st, (self.shape_of if b.op == "output_shapes" else self.dtype_of)(st, t, e))]
        return [(st, Sym("item", b, self.frz(st, k)))]

    def never_has(self, n, key):
        """the loaded TF node cannot carry this attribute: its op does not define it and no pass before the mapping sets it"""
        if not isinstance(key, str):
            return False
        if ("del", key) in n.meta:
            return True
        if n.kind != "tf":
            return False
        if n.meta and n.meta[0] == "orig":
            d = _tf["ops"].get(n.meta[1])
            if d is not None:
                if key in d["attrs"]:
                    return key in self.ignored_attrs
                return key not in self.extra_attrs
        return False

    def read_attr(self, st, own, key, e, default=None):
        """value of attribute `key` (python str or Val) of node `own`"""
        if isinstance(key, Const):
            key = key.v
        n = self.obj(st, own)
        if n is None and isinstance(own, Sym):
            l = self.lifted(st, own)
            n = self.obj(st, l) if l is not None else None
        nk = own
        if isinstance(n, NodeO):
            nk = self.nkey(n, own)
            if self.mon:
                self.mon.attr_read(self, st, own, n, key, e)
            if key in n.attrs and key not in n.may:
                return n.attrs[key]
            if key not in n.attrs and (not n.open or self.never_has(n, key)):
                return default if default is not None else NONE
        else:
            if self.mon:
                self.mon.attr_read(self, st, own, None, key, e)
        s = Sym("attrval", nk, key)
        if default is not None and default != NONE:
            return Sym("attrvald", nk, key, self.frz(st, default))
        return self.res(st, s)

    # ---------------------------------------------------------------- shapes/dtypes
    def shape_of(self, st, t, e):
        t = self.res(st, t)
        g = self.gobj(st)
        if self.mon:
            self.mon.tensor_asked(self, st, t, "shape", e)
        if t in g.dead:
            if self.mon:
                self.mon.use_after_remove(self, st, t, None, "shape", e)
            return NONE
        v = g.shapes.get(t)
        if v is not None:
            return v
        return self.res(st, Sym("shape", self.frz(st, t)))

    def dtype_of(self, st, t, e):
        t = self.res(st, t)
        g = self.gobj(st)
        if self.mon:
            self.mon.tensor_asked(self, st, t, "dtype", e)
        if t in g.dead:
            if self.mon:
                self.mon.use_after_remove(self, st, t, None, "dtype", e)
            return NONE
        v = g.dtypes.get(t)
        if v is not None:
            return self.res(st, v)
        return self.res(st, Sym("dtype", self.frz(st, t)))

    # ---------------------------------------------------------------- writes
    def node_setattr(self, st, b, o, name, v, t, fid):
        if name == "type":
            st.heap[b.a] = o.clone(type=self.res(st, v))
            st.facts["mutated"] = True
            if self.mon:
                self.mon.type_change(self, st, b, o, v, t)
        elif name == "domain":
            st.heap[b.a] = o.clone(domain=v)
        elif name in ("skip_conversion", "_skip_conversion"):
            st.heap[b.a] = o.clone(skip=v)
        elif name in ("input", "_input"):
            st.facts["mutated"] = True
            if self.mon:
                self.mon.direct_write(self, st, b, o, name, t)
            self._set_list(st, o.inputs, v)
        elif name in ("output", "_output"):
            if self.mon:
                self.mon.direct_write(self, st, b, o, name, t)
            self._set_list(st, o.outputs, v)
        elif name == "data_format":
            a = dict(o.attrs)
            a["data_format"] = v
            st.heap[b.a] = o.clone(attrs=a)
        return [st]

    def _set_list(self, st, ref, v):
        si = self.seq_items(st, v)
        l = st.heap[ref.a]
        if si is not None:
            st.heap[ref.a] = l.clone(items=tuple(si[0]), open=not si[1])
        else:
            st.heap[ref.a] = l.clone(items=(), open=True)

    def sym_setattr(self, st, b, name, v, t, fid):
        if b.op == "proto" and name == "op_type":
            return self.assign_type(st, b.args[0], v, t, fid)
        if name in ("type", "domain", "skip_conversion", "_skip_conversion", "data_format", "input", "output"):
            r = self.lift(st, b)
            return self.node_setattr(st, r, st.heap[r.a], name, v, t, fid)
        return [st]

    def assign_type(self, st, key, v, t, fid):
        if key == Sym("NODE"):
            r = Ref(("tfnode",))
        elif isinstance(key, Ref):
            r = key
        else:
            r = self.lift(st, key)
        return self.node_setattr(st, r, st.heap[r.a], "type", v, t, fid)

    def sym_setitem(self, st, b, k, v, t, fid):
        if self.mon:
            self.mon.value_stored(self, st, b, k, v)
        if b.op == "shape" and self.mon:
            self.mon.shape_edited(self, st, b, "item assignment", t)
        if b.op == "inputs":
            r = self.lift(st, b.args[0])
            if self.mon:
                self.mon.direct_write(self, st, r, st.heap[r.a], "input[]", t)
        elif b.op == "attrs" and isinstance(k, Const):
            self.do_set_attr(st, b.args[0], k, v, t)

    def setitem(self, st, b, k, v, t, fid):
        if isinstance(b, Ref) and b.a[0] in ("ins", "outs") and self.mon:
            self.mon.direct_write(self, st, Ref(b.a[1]), st.heap.get(b.a[1]), "input[]" if b.a[0] == "ins" else "output[]", t)
        super().setitem(st, b, k, v, t, fid)

    def sym_delitem(self, st, b, k, t):
        if b.op == "shape" and self.mon:
            self.mon.shape_edited(self, st, b, "del", t)
        if b.op == "attrs":
            r = self.lift(st, b.args[0])
            o = st.heap[r.a]
            a = dict(o.attrs)
            if isinstance(k, Const):
                a.pop(k.v, None)
                st.heap[r.a] = o.clone(attrs=a, may=o.may - {k.v}, meta=o.meta + (("del", k.v),))

    def e_Compare(self, e, st, fid):
        return super().e_Compare(e, st, fid)

    def contains(self, st, cont, x):
        if isinstance(cont, Sym) and cont.op == "attrs" and isinstance(x, Const):
            n = self.obj(st, cont.args[0])
            if n is None and isinstance(cont.args[0], Sym):
                l = self.lifted(st, cont.args[0])
                n = self.obj(st, l) if l is not None else None
            if isinstance(n, NodeO):
                if self.mon:
                    self.mon.attr_read(self, st, cont.args[0], n, x.v, None)
                if x.v in n.attrs and x.v not in n.may:
                    return TRUE
                if x.v not in n.attrs and (not n.open or self.never_has(n, x.v)):
                    return FALSE
                s = Sym("hasattrib", self.nkey(n, cont.args[0]), x.v)
                t = self.truth(st, s)
                return s if t is None else Const(t)
        return super().contains(st, cont, x)

    def do_set_attr(self, st, nv, k, v, e):
        r = self.lift(st, nv)
        o = st.heap.get(r.a)
        if not isinstance(o, NodeO):
            return
        k = self.res(st, k)
        if isinstance(k, Const):
            a = dict(o.attrs)
            a[k.v] = self.frz(st, v)
            st.heap[r.a] = o.clone(attrs=a, may=o.may - {k.v}, meta=tuple(m for m in o.meta if m != ("del", k.v)))
        else:
            st.heap[r.a] = o.clone(open=True)
        if self.mon:
            self.mon.set_attr(self, st, r, o, k, v, e)

    # ---------------------------------------------------------------- Node methods
    def node_method(self, st, b, o, name, args, kw, e, fid):
        key = self.nkey(o, b)
        A = lambda i, n, d=None: args[i] if len(args) > i else kw.get(n, d)
        if name == "set_attr":
            self.do_set_attr(st, b, A(0, "name"), A(1, "value"), e)
            return [(st, NONE)]
        if name == "set_attr_onnx":
            st.heap[b.a] = o.clone(open=True)
            return [(st, NONE)]
        if name == "get_attr":
            k = self.res(st, A(0, "name"))
            if isinstance(k, Const):
                if self.mon:
                    self.mon.attr_read(self, st, b, o, k.v, e)
                if k.v not in o.attrs and (not o.open or self.never_has(o, k.v)):
                    return [(st, A(1, "default", NONE))]
                if k.v in o.attrs and k.v not in o.may:
                    ap = Sym("aproto", b, k.v)
                    st.pc[("none", ap)] = False
                    return [(st, ap)]
                return [(st, Sym("aproto", b, k.v))]
            return [(st, Sym("aproto", b, k))]
        if name in ("get_attr_value", "get_attr_int", "get_attr_str"):
            k = self.res(st, A(0, "name"))
            return [(st, self.read_attr(st, b, k, e, A(1, "default") if name == "get_attr_value" else None))]
        if name == "is_const":
            if isinstance(o.type, Const):
                return [(st, Const(o.type.v in ("Const", "ConstV2")))]
            return [(st, Sym("isconst", key))]
        if name == "is_graph_input":
            if isinstance(o.type, Const):
                return [(st, Const(o.type.v in ("Placeholder", "PlaceholderWithDefault", "PlaceholderV2")))]
            return [(st, Sym("isinput", key))]
        if name == "set_tensor_value":
            if self.mon:
                self.mon.set_tensor_value(self, st, b, o, A(0, "new_val"), e)
            return [(st, NONE)]
        if name == "get_tensor_value":
            al = A(0, "as_list", TRUE)
            return [(st, Sym("tval", key, al if isinstance(al, Const) else TRUE))]
        if name == "set_body_graph_as_attr":
            self.do_set_attr(st, b, A(0, "attr_name"), A(1, "graph"), e)
            return [(st, NONE)]
        if name == "maybe_cast_input":
            self.mutate(st, "maybe_cast_input", b, e)
            if self.mon:
                self.mon.emit_simple(self, st, "Cast", {"to"}, 1, e)
            l = st.heap.get(o.inputs.a)
            if isinstance(l, ListO) and not l.open:
                st.heap[o.inputs.a] = l.clone(items=tuple(Sym("maybecast", x, self.site(e)) for x in l.items))
            return [(st, Sym("didcast", key, self.site(e)))]
        if name == "is_nhwc":
            self.read_attr(st, b, "data_format", e)
        if name == "get_body_graphs":
            if o.kind == "tf" and o.meta and o.meta[0] == "orig" and o.meta[1] in _tf["ops"] and o.type == Const(o.meta[1]):
                return [(st, NONE)]     # a node as loaded from TensorFlow has no body graphs
            return [(st, Sym("bodies", key))]
        return [(st, Sym("mcall", key, name, *[self.frz(st, a) for a in args]))]

    def sym_method(self, st, recv, name, args, kw, e, fid):
        if recv.op == "attrs":
            own = recv.args[0]
            if name == "get" and args:
                k = self.res(st, args[0])
                n = self.obj(st, own)
                if self.mon:
                    self.mon.attr_read(self, st, own, n, k.v if isinstance(k, Const) else k, e)
                if isinstance(n, NodeO) and isinstance(k, Const) and k.v not in n.attrs and (not n.open or self.never_has(n, k.v)):
                    return [(st, args[1] if len(args) > 1 else NONE)]
                ap = Sym("aproto", own, k.v if isinstance(k, Const) else k)
                return [(st, ap)]
            if name == "items" or name == "keys":
                return [(st, Sym("mcall", recv, name))]
            if name == "pop" and args:
                self.sym_delitem(st, recv, self.res(st, args[0]), e)
                return [(st, Sym("aproto", own, args[0]))]
            return [(st, Sym("mcall", recv, name, *[self.frz(st, a) for a in args]))]
        if recv.op == "shape" and name in ("append", "extend", "insert", "pop", "remove", "reverse", "sort", "clear") and self.mon:
            self.mon.shape_edited(self, st, recv, name, e)
        if recv.op in ("inputs", "outputs") and name in ("append", "extend", "insert", "pop", "remove"):
            r = self.lift(st, recv.args[0])
            if self.mon:
                self.mon.direct_write(self, st, r, st.heap[r.a], "input." + name, e)
            return [(st, NONE)]
        if name in ("decode", "encode") and recv.op in ("attrval", "attrvald", "item", "dget"):
            return [(st, recv)]
        both = name in NODE_METHODS and name in GRAPH_METHODS
        flag = bool(args) and isinstance(self.res(st, args[0]), Const) and isinstance(self.res(st, args[0]).v, bool)     # node.get_tensor_value(False)
        if name in NODE_METHODS and not (both and args and not flag):
            if name in ("is_const", "is_graph_input", "get_tensor_value", "get_attr", "get_attr_value", "get_attr_int",
                        "get_attr_str", "get_body_graphs"):
                l = self.lifted(st, recv)
                if l is not None:
                    return self.node_method(st, l, st.heap[l.a], name, args, kw, e, fid)
                if name == "is_const":
                    return [(st, Sym("isconst", recv))]
                if name == "is_graph_input":
                    return [(st, Sym("isinput", recv))]
                if name == "get_tensor_value":
                    al = args[0] if args else kw.get("as_list", TRUE)
                    return [(st, Sym("tval", recv, al if isinstance(al, Const) else TRUE))]
                if name == "get_body_graphs":
                    return [(st, Sym("bodies", recv))]
                k = self.res(st, args[0]) if args else kw.get("name", NONE)
                if name == "get_attr":
                    if self.mon and isinstance(k, Const):
                        self.mon.attr_read(self, st, recv, None, k.v, e)
                    return [(st, Sym("aproto", recv, k.v if isinstance(k, Const) else k))]
                d = args[1] if len(args) > 1 else kw.get("default")
                return [(st, self.read_attr(st, recv, k, e, d))]
            r = self.lift(st, recv)
            return self.node_method(st, r, st.heap[r.a], name, args, kw, e, fid)
        if name in GRAPH_METHODS:
            return self.graph_method(st, recv, None, name, args, kw, e, fid)
        return super().sym_method(st, recv, name, args, kw, e, fid)

    def list_method(self, st, recv, o, name, args, kw, e, fid):
        if recv.a[0] in ("ins", "outs") and name in ("append", "extend", "insert", "pop", "remove", "clear", "reverse", "sort"):
            st.facts["mutated"] = True
            if self.mon:
                self.mon.direct_write(self, st, Ref(recv.a[1]), st.heap.get(recv.a[1]),
                                      ("input." if recv.a[0] == "ins" else "output.") + name, e)
        return super().list_method(st, recv, o, name, args, kw, e, fid)

    # ---------------------------------------------------------------- Graph attributes/methods
    def graph_attr(self, st, b, o, name, e, fid):
        if name in ("opset", "_opset"):
            return [(st, o.opset)]
        if name in GRAPH_METHODS:
            return [(st, BI(b, name))]
        if name == "outputs":
            return [(st, Sym("goutputs", o.key))]
        if name in ("inputs", "input_names"):
            return [(st, Sym("g" + name, o.key))]
        if name == "parent_graph":
            return [(st, Sym("gparent", o.key))]
        if name in o.meta:
            return [(st, o.meta[name])]
        return [(st, Sym("gattr", o.key, name))]

    def new_graph(self, st, e, fid, key=None):
        a = ("ggraph", id(e), fid)
        st.heap[a] = GraphO(key=key or Sym("subgraph", self.site(e)), opset=OpsetC(self.opset), dtypes={}, shapes={}, producers={},
                            dead=frozenset(), redir=frozenset(), epoch=0, parent=None, meta={})
        return Ref(a)

    def graph_method(self, st, b, o, name, args, kw, e, fid):
        A = lambda i, n, d=None: args[i] if len(args) > i else kw.get(n, d)
        openkw = "**" in kw
        if name == "make_node":
            return self.do_make_node(st, b, args, kw, e, fid)
        if name == "make_const":
            nm = self.res(st, A(0, "name"))
            if self.mon:
                self.mon.node_name(self, st, nm, e, "make_const", not (isinstance(b, Ref) and b.a[0] == "ggraph"))
                self.mon.make_const(self, st, nm, A(1, "np_val"), e)
            return [(st, self.mk_node(st, e, fid, Const("Const"), [], {"value": Sym("tensor", self.frz(st, A(1, "np_val", NONE)))}, [nm], name=nm, const=True))]
        if name == "make_consts":
            si = self.seq_items(st, A(0, "values"))
            if si is not None and si[1]:
                out = []
                for i, x in enumerate(si[0]):
                    nm = Sym("uname", self.site(e), i)
                    if self.mon:
                        self.mon.consts_made(self, st, nm, x, e)
                    out.append(self.mk_node(st, e, fid, Const("Const"), [], {"value": Sym("tensor", x)}, [nm], name=nm, const=True))
                return [(st, self.mklist(st, e, fid, out))]
            if self.mon:
                self.mon.consts_made(self, st, Sym("consts", self.site(e)), A(0, "values"), e)
            return [(st, Sym("consts", self.site(e)))]
        if name == "copy_const":
            nm = Sym("uname", self.site(e))
            return [(st, self.mk_node(st, e, fid, Const("Const"), [], {"value": Sym("tensor")}, [nm], name=nm, const=True))]
        if name == "remove_node":
            self.do_remove(st, self.res(st, A(0, "node_name")), e)
            return [(st, NONE)]
        if name == "insert_new_node_on_input":
            return self.do_insert(st, b, "in", args, kw, e, fid)
        if name == "insert_new_node_on_output":
            return self.do_insert(st, b, "out", args, kw, e, fid)
        if name == "insert_node_on_output":
            self.mutate(st, name, args[0], e)
            n = args[0] if args else A(0, "node")
            t = A(1, "output_name")
            if t is None or self.res(st, t) == NONE:        # the first input of the node
                o = self.obj(st, n)
                l = st.heap.get(o.inputs.a) if isinstance(o, NodeO) else None
                t = l.items[0] if isinstance(l, ListO) and l.items else None
            if self.mon and t is not None:
                self.mon.redirect(self, st, self.res(st, t), e, n)
            return [(st, n)]
        if name == "replace_all_inputs":
            old, new = self.res(st, A(0, "old_input")), A(1, "new_input")
            self.mutate(st, name, old, e)
            if self.mon:
                self.mon.replace_all(self, st, old, new, A(2, "ops"), e)
            g = self.gobj(st)
            self.gset(st, redir=g.redir | {old})
            for a, n in list(st.heap.items()):
                if isinstance(n, NodeO) and n.kind != "tf" and A(2, "ops") is None:
                    l = st.heap.get(n.inputs.a)
                    if isinstance(l, ListO) and old in l.items:
                        st.heap[n.inputs.a] = l.clone(items=tuple(new if x == old else x for x in l.items))
            return [(st, Sym("mcall", "replaced"))]
        if name == "replace_input":
            self.mutate(st, name, args[0] if args else None, e)
            nv = A(0, "node")
            n = self.obj(st, nv)
            old, new, idx = self.res(st, A(1, "old_input")), A(2, "new_input"), A(3, "input_index", NONE)
            if self.mon and new is not None:
                self.mon.tensor_arg(self, st, new, "new_input of replace_input", e)
            if isinstance(n, NodeO):
                l = st.heap.get(n.inputs.a)
                if isinstance(l, ListO):
                    idx = self.res(st, idx)
                    if isinstance(idx, Const) and isinstance(idx.v, int):
                        if idx.v < len(l.items):
                            cur = self.res(st, l.items[idx.v])
                            if self.mon and self.settled_name(cur) and self.settled_name(old) and cur != old:
                                self.mon.bad_replace_input(self, st, idx.v, old, cur, e)
                            it = list(l.items)
                            it[idx.v] = new
                            st.heap[n.inputs.a] = l.clone(items=tuple(it))
                    elif idx == NONE:
                        st.heap[n.inputs.a] = l.clone(items=tuple(new if x == old else x for x in l.items))
                    else:
                        st.heap[n.inputs.a] = l.clone(items=tuple(Sym("maybe", x, self.frz(st, new)) for x in l.items))
            return [(st, NONE)]
        if name == "replace_inputs":
            self.mutate(st, name, args[0] if args else None, e)
            nv = A(0, "node")
            r = self.lift(st, nv) if nv is not None else None
            n = self.obj(st, r) if r is not None else None
            if isinstance(n, NodeO):
                self._set_list(st, n.inputs, A(1, "new_inputs"))
            return [(st, NONE)]
        if name == "remove_input":
            self.mutate(st, name, args[0] if args else None, e)
            nv = A(0, "node")
            n = self.obj(st, nv)
            if isinstance(n, NodeO):
                l = st.heap.get(n.inputs.a)
                idx = self.res(st, A(2, "input_index", NONE))
                tb = self.res(st, A(1, "to_be_removed"))
                if isinstance(l, ListO):
                    it = list(l.items)
                    if isinstance(idx, Const) and isinstance(idx.v, int) and -len(it) <= idx.v < len(it) and not l.open:
                        del it[idx.v]
                        st.heap[n.inputs.a] = l.clone(items=tuple(it))
                    elif idx == NONE and tb in it and not l.open:
                        it.remove(tb)
                        st.heap[n.inputs.a] = l.clone(items=tuple(it))
                    else:
                        st.heap[n.inputs.a] = l.clone(items=(), open=True)
            return [(st, NONE)]
        if name in ("get_shape", "get_dtype"):
            t = A(0, "name")
            f = self.shape_of if name == "get_shape" else self.dtype_of
            return [(st, f(st, t, e))]
        if name == "get_rank":
            s = self.shape_of(st, A(0, "name"), e)
            if s == NONE:
                return [(st, NONE)]
            return [(st, self.res(st, Sym("rank", self.frz(st, A(0, "name")))))]
        if name in ("set_shape", "set_dtype"):
            t, v = self.res(st, A(0, "name")), A(1, "val", A(1, "dtype"))
            g = self.gobj(st)
            fld = "shapes" if name == "set_shape" else "dtypes"
            d = dict(getattr(g, fld))
            d[t] = self.frz(st, v) if v is not None else Sym("unk")
            self.gset(st, **{fld: d})
            if self.mon:
                self.mon.set_meta(self, st, fld, t, v, e)
            return [(st, NONE)]
        if name in ("copy_shape", "copy_dtype"):
            s_, d_ = self.res(st, args[0]), self.res(st, args[1])
            f = self.shape_of if name == "copy_shape" else self.dtype_of
            v = f(st, s_, e)
            g = self.gobj(st)
            fld = "shapes" if name == "copy_shape" else "dtypes"
            d = dict(getattr(g, fld))
            d[d_] = v
            self.gset(st, **{fld: d})
            if self.mon:
                self.mon.set_meta(self, st, fld, d_, v, e)
            return [(st, NONE)]
        if name in ("get_node_by_output", "get_node_by_output_in_current_graph"):
            return [(st, self.producer(st, A(0, "output")))]
        if name == "get_node_by_name":
            nm = self.res(st, args[0])
            for a, n in st.heap.items():
                if isinstance(n, NodeO) and n.name == nm and not n.removed:
                    return [(st, Ref(a))]
            if isinstance(nm, Sym) and nm.op == "name":
                return [(st, nm.args[0])]
            return [(st, Sym("nodenamed", self.frz(st, nm)))]
        if name == "find_output_consumers":
            g = self.gobj(st)
            if self.mon:
                self.mon.consumers_asked(self, st, self.res(st, A(0, "output_name")), e)
            return [(st, Sym("consumers", self.frz(st, A(0, "output_name")), g.epoch))]
        if name == "get_nodes":
            g = self.gobj(st)
            return [(st, Sym("nodes", self.gkey(st, b), g.epoch))]
        if name == "create_new_graph_with_same_config":
            return [(st, self.new_graph(st, e, fid))]
        if name == "is_target":
            return [(st, Sym("istarget", *args))]
        if name in ("add_graph_output", "add_graph_input", "add_graph_input_with_default"):
            return [(st, Sym("mcall", name, *[self.frz(st, a) for a in args]))]
        if name in ("reset_nodes", "delete_unused_nodes", "topological_sort", "safe_remove_nodes", "rename_tensors", "change_node_name", "append_node", "set_node_by_name"):
            self.mutate(st, name, args[0] if args else None, e)
            if self.mon:
                self.mon.graph_call(self, st, name, args, kw, e)
            return [(st, NONE)]
        if name == "is_const":
            p = self.producer(st, A(0, "output"))
            if isinstance(p, Ref):
                return self.node_method(st, p, st.heap[p.a], "is_const", [], {}, e, fid)
            return [(st, Sym("isconst", p))]
        if name == "get_tensor_value":
            return [(st, Sym("tval", self.producer(st, A(0, "output")), A(1, "as_list", TRUE)))]
        if name == "update_node_shape_dtype":
            if self.mon:
                self.mon.updated(self, st, A(0, "node"), e)
            return [(st, NONE)]
        if self.mon:
            self.mon.graph_call(self, st, name, args, kw, e)
        return [(st, Sym("mcall", self.gkey(st, b), name, *[self.frz(st, a) for a in args]))]

    @staticmethod
    def settled_name(v):
        return isinstance(v, Sym) and v.op in ("out", "in", "uname") and not any(isinstance(a, Sym) and a.op not in ("NODE", "uname") for a in v.args)

    def gkey(self, st, b):
        o = self.obj(st, b)
        return o.key if isinstance(o, GraphO) else b

    # ---------------------------------------------------------------- node creation
    def mk_node(self, st, e, fid, optype, inputs, attrs, outputs, name=None, may=frozenset(), open_=False, in_open=False, out_open=False,
                domain=Const(""), skip=TRUE, const=False, meta=()):
        a = self.new_addr(st, "node", e, fid)
        r = Ref(a)
        if name is None:
            name = Sym("name", r)
        st.heap[("ins", a)] = ListO(items=tuple(inputs), open=in_open, kind="list")
        if isinstance(outputs, int):
            outputs = [Sym("out", r, i) for i in range(outputs)]
        st.heap[("outs", a)] = ListO(items=tuple(outputs), open=out_open, kind="list")
        st.heap[a] = NodeO(kind="new", key=r, type=self.res(st, optype), name=name, attrs=dict(attrs), may=frozenset(may), open=open_,
                           inputs=Ref(("ins", a)), outputs=Ref(("outs", a)), domain=domain, skip=skip, removed=False,
                           site=(self.cur_mod.rel, e.lineno, self.cur_fi.qual if self.cur_fi else "?"), graph=self.GRAPH, meta=meta)
        g = self.gobj(st)
        pr = dict(g.producers)
        shapes, dtypes = g.shapes, g.dtypes
        for o in outputs:
            pr[o] = a
        self.gset(st, producers=pr, dead=g.dead - frozenset(outputs), epoch=min(g.epoch + 1, 3),
                  redir=g.redir - frozenset(inputs) - frozenset(outputs))
        st.facts["mutated"] = True
        return r

    def attrs_of(self, st, v):
        """-> (attrs, may, open)"""
        if v is None or v == NONE:
            return {}, frozenset(), False
        v = self.res(st, v)
        o = self.obj(st, v)
        if isinstance(o, DictO):
            attrs, may, op = {}, set(), o.open
            for k, x in o.items.items():
                k2 = self.res(st, k)
                if isinstance(k2, Const):
                    attrs[k2.v] = self.frz(st, x)
                    if k in o.may:
                        may.add(k2.v)
                else:
                    op = True
            return attrs, frozenset(may), op
        return {}, frozenset(), True

    def do_make_node(self, st, b, args, kw, e, fid):
        names = ["op_type", "inputs", "attr", "output_count", "outputs", "skip_conversion", "op_name_scope", "name", "shapes",
                 "dtypes", "domain", "infer_shape_dtype", "branches"]
        p = dict(zip(names, args))
        openkw = False
        for k, v in kw.items():
            if k == "**":
                openkw = True
            elif k in names:
                p[k] = v
            else:
                if self.mon:
                    self.mon.bad_api_call(self, st, "make_node", k, e)
                return []
        for k in p:
            p[k] = self.res(st, p[k])
        attrs, may, op = self.attrs_of(st, p.get("attr"))
        br = self.obj(st, p["branches"]) if "branches" in p else None
        if isinstance(br, DictO):
            for k, v in br.items.items():
                if isinstance(k, Const):
                    attrs[k.v] = v
            op = op or br.open
        elif "branches" in p and p["branches"] != NONE:
            op = True
        ins = self.seq_items(st, p.get("inputs", Tup(())))
        if isinstance(self.res(st, p.get("inputs", NONE)), Const):
            ins = None
        outs = p.get("outputs", NONE)
        out_open = False
        if outs != NONE:
            so = self.seq_items(st, outs)
            if so is not None and not isinstance(outs, Const):
                outputs, out_open = list(so[0]), not so[1]
            else:
                outputs, out_open = [], True
                if isinstance(outs, Sym) and outs.op == "outputs":
                    g = self.gobj(st)
                    self.gset(st, dead=frozenset(x for x in g.dead if not (isinstance(x, Sym) and x.op == "out" and x.args[0] == outs.args[0])))
        else:
            oc = p.get("output_count", Const(1))
            outputs = oc.v if isinstance(oc, Const) and isinstance(oc.v, int) else 0
            out_open = not isinstance(oc, Const)
        nm = p.get("name", NONE)
        if nm == NONE:
            nm = None
        scope = p.get("op_name_scope", NONE)
        if nm is not None and self.mon:
            self.mon.node_name(self, st, Sym("fmt", scope, nm) if scope != NONE else nm, e, "make_node", not (isinstance(b, Ref) and b.a[0] == "ggraph"))
        if nm is not None and outs == NONE and isinstance(outputs, int):
            outputs = [Sym("port", nm, i) for i in range(outputs)]
        skip = p.get("skip_conversion", TRUE)
        optype = p.get("op_type", Sym("unk"))
        if isinstance(optype, Const) and optype.v in ("If", "Loop", "Scan"):
            skip = FALSE
        r = self.mk_node(st, e, fid, optype, list(ins[0]) if ins is not None else [], attrs, outputs,
                         name=nm if nm is None or scope == NONE else Sym("fmt", scope, nm),
                         may=may, open_=op or openkw, in_open=ins is None or not ins[1], out_open=out_open,
                         domain=p.get("domain", Const("")), skip=skip)
        # recorded types/shapes
        g = self.gobj(st)
        items = st.heap[("outs", r.a)].items
        shapes, dtypes = dict(g.shapes), dict(g.dtypes)
        for fld, d in (("shapes", shapes), ("dtypes", dtypes)):
            v = p.get(fld, NONE)
            si = self.seq_items(st, v) if v != NONE else None
            for i, x in enumerate(items):
                if si is not None and i < len(si[0]):
                    d[x] = self.frz(st, si[0][i])
                elif x in d:
                    del d[x]
        self.gset(st, shapes=shapes, dtypes=dtypes)
        if self.mon:
            self.mon.make_node(self, st, r, p, e)
        return [(st, r)]

    def do_insert(self, st, b, side, args, kw, e, fid):
        names = ["node", "op_type", "input_name", "name", "domain", "input_index"] if side == "in" else \
            ["op_type", "output_name", "name", "inputs", "domain"]
        p = dict(zip(names, args))
        attrs, op = {}, False
        for k, v in kw.items():
            if k == "**":
                op = True
            elif k in names:
                p[k] = v
            else:
                attrs[k] = self.frz(st, v)
        nm = p.get("name")
        if nm == NONE:
            nm = None
        if nm is not None and self.mon:
            self.mon.node_name(self, st, self.res(st, nm), e, "insert_new_node", not (isinstance(b, Ref) and b.a[0] == "ggraph"))
        self.mutate(st, "insert_" + side, p.get("node"), e)
        dom = p.get("domain", Const(""))
        if dom == NONE:
            dom = Const("")
        if side == "in":
            iv = self.res(st, p.get("input_name", Sym("unk")))
            si = self.seq_items(st, iv) if not isinstance(iv, Const) else None
            ins = list(si[0]) if si is not None else [iv]
            in_open = si is not None and not si[1]
        else:
            ov = self.res(st, p.get("output_name", NONE))
            if p.get("inputs") is not None and p["inputs"] != NONE:
                si = self.seq_items(st, p["inputs"])
                ins = list(si[0]) if si is not None else []
                in_open = si is None or not si[1]
            else:
                ins, in_open = [ov], False
        r = self.mk_node(st, e, fid, p.get("op_type", Sym("unk")), ins, attrs, 1, name=nm, open_=op, in_open=in_open, domain=dom)
        newout = st.heap[("outs", r.a)].items[0]
        if side == "in":
            n = self.obj(st, p.get("node"))
            if isinstance(n, NodeO):
                l = st.heap.get(n.inputs.a)
                idx = self.res(st, p.get("input_index", NONE))
                if isinstance(l, ListO):
                    it = list(l.items)
                    if isinstance(idx, Const) and isinstance(idx.v, int) and idx.v < len(it):
                        it[idx.v] = newout
                    elif idx == NONE and ins and ins[0] in it:
                        it[it.index(ins[0])] = newout
                    st.heap[n.inputs.a] = l.clone(items=tuple(it))
        else:
            g = self.gobj(st)
            if self.mon:
                self.mon.insert_on_output(self, st, r, ov, e)
        if self.mon:
            self.mon.make_node(self, st, r, {"op_type": p.get("op_type"), "via": Const("insert_" + side), "node": p.get("node")}, e)
        return [(st, r)]

    def do_remove(self, st, nm, e):
        target = None
        for a, n in st.heap.items():
            if isinstance(n, NodeO) and n.name == nm:
                target = Ref(a)
                break
        if target is None:
            if isinstance(nm, Sym) and nm.op == "name" and not isinstance(nm.args[0], Ref):
                target = self.lift(st, nm.args[0])
        self.mutate(st, "remove_node", target if target is not None else nm, e)
        if target is None:
            if self.mon:
                self.mon.removed(self, st, None, nm, e)
            return
        o = st.heap[target.a]
        if self.mon:
            self.mon.removed(self, st, target, o, e)
        st.heap[target.a] = o.clone(removed=True)
        l = st.heap.get(o.outputs.a)
        g = self.gobj(st)
        outs = set(l.items) if isinstance(l, ListO) else set()
        if o.kind == "lift" or (isinstance(l, ListO) and l.open):
            outs |= {Sym("out", o.key, i) for i in range(4)}
        if o.kind == "tf" and isinstance(l, ListO) and l.open:
            outs |= {Sym("out", o.key, i) for i in range(4)}
        shapes = {k: v for k, v in g.shapes.items() if k not in outs}
        dtypes = {k: v for k, v in g.dtypes.items() if k not in outs}
        self.gset(st, dead=g.dead | frozenset(outs), shapes=shapes, dtypes=dtypes)

    # ---------------------------------------------------------------- modelled utils
    def intrinsic(self, st, full, args, kw, e, fid):
        m = INTR.get(full)
        if m is not None:
            return getattr(self, m)(st, full, args, kw, e, fid)
        return None

    def i_make_name(self, st, full, args, kw, e, fid):
        return [(st, Sym("uname", self.site(e), self.call_ctx(fid, st)))]

    def call_ctx(self, fid, st):
        n = st.facts.get(("uname", fid), 0)
        st.facts[("uname", fid)] = min(n + 1, 40)
        return (fid, n)

    def i_make_sure(self, st, full, args, kw, e, fid):
        c = args[0] if args else kw.get("bool_val")
        if self.mon:
            self.mon.make_sure(self, st, c, args, e)
        out = []
        if isinstance(c, Ref):
            t = self.truth(st, c)
            return [(st, NONE)] if t is not False else []
        for s, t in self.split(st, c):
            if t:
                out.append((s, NONE))
        return out

    def i_port_name(self, st, full, args, kw, e, fid):
        nr = args[1] if len(args) > 1 else kw.get("nr", Const(0))
        return [(st, Sym("port", self.frz(st, args[0]), nr.v if isinstance(nr, Const) else nr))]

    def i_opaque(self, st, full, args, kw, e, fid):
        return [(st, Sym("call", full, *[self.frz(st, a) for a in args]))]

    def i_find_function(self, st, full, args, kw, e, fid):
        return [(st, Sym("func", *[self.frz(st, a) for a in args]))]

    def i_subgraph(self, st, full, args, kw, e, fid):
        return [(st, self.new_graph(st, e, fid))]

    def call_ext(self, st, name, args, kw, e, fid):
        if name == "logging.getLogger":
            return [(st, Sym("logger"))]
        return super().call_ext(st, name, args, kw, e, fid)

    # ---------------------------------------------------------------- joins
    def join_node(self, ad, x, y, stmt):
        attrs, may = {}, set(x.may | y.may)
        for k in list(x.attrs) + [k for k in y.attrs if k not in x.attrs]:
            if k in x.attrs and k in y.attrs:
                attrs[k] = x.attrs[k] if x.attrs[k] == y.attrs[k] else self.phi(stmt, ("a", k))
            else:
                attrs[k] = x.attrs.get(k) or y.attrs.get(k)
                may.add(k)
        ph = lambda f: getattr(x, f) if getattr(x, f) == getattr(y, f) else self.phi(stmt, f)
        return x.clone(attrs=attrs, may=frozenset(may), open=x.open or y.open, type=ph("type"), name=ph("name"), domain=ph("domain"),
                       skip=ph("skip"), removed=x.removed if x.removed == y.removed else None, meta=x.meta if x.meta == y.meta else ())

    def join_graph(self, ad, x, y, stmt):
        return x.clone(dtypes={k: v for k, v in x.dtypes.items() if y.dtypes.get(k) == v},
                       shapes={k: v for k, v in x.shapes.items() if y.shapes.get(k) == v},
                       producers={k: v for k, v in list(x.producers.items()) + list(y.producers.items())
                                  if x.producers.get(k, v) == v and y.producers.get(k, v) == v},
                       dead=x.dead & y.dead, redir=x.redir | y.redir, epoch=max(x.epoch, y.epoch))

    # ---------------------------------------------------------------- drive one function
    def finish(self, outs):
        """finalize every node still in the heap of the terminal states"""
        for s, v in outs:
            for a, o in list(s.heap.items()):
                if isinstance(o, NodeO):
                    self.final_node(s, a, o)
            if self.mon:
                self.mon.path_end(self, s, v)
