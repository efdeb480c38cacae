"""Element types of tensors on the paths of a conversion: what emitted operators are fed, against the ONNX operator schemas.

A type term is a name ("int64", "float", ...) or ("A", attr): the value of a type attribute of the converted TensorFlow op, together with the
values the path still allows it.  Tensors whose type is not settled have no term and take part in no judgement."""
import re

from .absint import Const, Sym, Ref, NodeO, ListO, Tup, DictO, NONE
from .absint import ExtV
from .gmodel import Monitor, load_oracle
from .emit import schema

ONNX = load_oracle("onnx")
TF = load_oracle("tf")
NAME = {v: k.lower() for k, v in ONNX["dtypes"].items()}      # 7 -> int64
NP = {"bool": "bool", "bool_": "bool", "int8": "int8", "int16": "int16", "int32": "int32", "int64": "int64", "uint8": "uint8", "uint16": "uint16",
      "uint32": "uint32", "uint64": "uint64", "float16": "float16", "float32": "float", "float64": "double", "float": "double", "int": "int64",
      "double": "double", "single": "float", "half": "float16", "str": "string", "str_": "string", "object": "string"}
TFNAME = {"DT_FLOAT": "float", "DT_DOUBLE": "double", "DT_HALF": "float16", "DT_INT8": "int8", "DT_INT16": "int16", "DT_INT32": "int32", "DT_INT64": "int64",
          "DT_UINT8": "uint8", "DT_UINT16": "uint16", "DT_UINT32": "uint32", "DT_UINT64": "uint64", "DT_BOOL": "bool", "DT_STRING": "string"}
TFENUM = {v: TFNAME.get(k) for k, v in TF["types"].items()}
INDEX = frozenset(("int16", "int32", "int64"))
ANY = frozenset(TFNAME.values())
WIDE = frozenset(("float", "double", "float16", "int32", "int64"))
KEEP = ("reshape", "transpose", "flatten", "copy", "squeeze", "ravel")
NOTYPE = {"If", "Loop", "Scan", "Constant", "ConstantOfShape", "SequenceEmpty"}


def tensor_types(l):
    """element types of a schema's type list; None when it involves anything but plain tensors"""
    out = set()
    for t in l:
        m = re.fullmatch(r"tensor\((\w+)\)", t)
        if m is None:
            return None
        out.add(m.group(1))
    return frozenset(out)


def subterms(x):
    yield x
    for a in x.args:
        if isinstance(a, Sym):
            yield from subterms(a)
        elif isinstance(a, Tup):
            for i in a.items:
                if isinstance(i, Sym):
                    yield from subterms(i)


class TypeMonitor(Monitor):
    """records: (op, site, terms) -> seen without joins"""

    def __init__(self):
        self.stats = {}
        self.records = {}
        self.outs = {}      # (rule, what, site, type, type) -> seen without joins
        self.orig = ()
        self.unit = None
        self.tf = None
        self.last = None

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def begin(self, ip, st, h):
        self.tf = TF["ops"].get(getattr(h, "op", "").split(":")[-1])
        n = st.heap.get(("tfnode",))
        if n is not None and self.tf is not None and not any(lst for _, lst in self.tf["out"]):
            self.orig = st.heap[n.outputs.a].items
            for i, x in enumerate(self.orig):
                st.facts[("read", i)] = x

    # ---------------------------------------------------------------- terms
    def arg(self, side, i):
        """type of input/output i of the converted TensorFlow op: a term, or None"""
        d = self.tf
        if d is None or not isinstance(i, int) or i < 0:
            return None
        ports = d["in" if side == "in" else "out"]
        for (nm, lst), ty in zip(ports, d["tin" if side == "in" else "tout"]):
            if lst:
                return ("A", ty) if ty in d["attrs"] else TFNAME.get(ty)      # the rest belongs to the list, or is not told apart from it
            if i == 0:
                return ("A", ty) if ty in d["attrs"] else TFNAME.get(ty)
            i -= 1
        return None

    def values(self, ip, st, attr):
        """values the path leaves to a type attribute; None if some condition on it is not understood"""
        allowed = self.tf["attrs"][attr][2]
        vals = {TFENUM.get(x) for x in allowed} if allowed else set(ANY)
        vals.discard(None)
        me = Sym("attrval", Sym("NODE"), attr)

        def is_attr(x):
            return x == me or isinstance(x, Sym) and x.op == "dtype" and self.declared(ip, st, x.args[0]) == ("A", attr)

        def named(vs):
            vs = [ip.res(st, v) for v in vs]
            out = set()
            for v in vs:
                t = NAME.get(v.v) if isinstance(v, Const) else self.of_dtype(ip, st, v)
                if not isinstance(t, str):
                    return None
                out.add(t)
            return out
        for k, v in st.pc.items():
            if isinstance(k, tuple):
                if len(k) == 2 and k[0] == "eq" and isinstance(k[1], Sym) and k[1].op == "getattr" and isinstance(v, Const):
                    c = self.predicate(ip, st, Sym("eq", k[1], v), attr)
                    if c is not None:
                        vals &= c
                    continue
                if k[0] in ("none", "min", "not") or len(k) != 2 or not is_attr(k[1]):
                    continue
                c = named([v] if k[0] == "eq" else list(v) if k[0] == "dom" else [Sym("?")])
                if c is None:
                    return None
                vals &= c
            elif isinstance(k, Sym) and k.op in ("eq", "in") and isinstance(v, bool) and len(k.args) == 2 and is_attr(k.args[0]):
                x = k.args[1]
                c = named(x.items if k.op == "in" and isinstance(x, Tup) else [x])
                if c is None:
                    if is_attr(x):
                        continue
                    return None
                vals = vals & c if v else vals - c
            elif isinstance(k, Sym) and k.op == "eq" and isinstance(v, bool) and len(k.args) == 2 and is_attr(k.args[1]):
                c = named([k.args[0]])
                if c is None:
                    return None
                vals = vals & c if v else vals - c
            elif isinstance(k, Sym) and any(is_attr(x) for x in subterms(k)):
                c = self.predicate(ip, st, k, attr)
                if c is None or not isinstance(v, bool):
                    return None
                vals = vals & c if v else vals - c
        return frozenset(vals)

    KIND = {"i": ("int8", "int16", "int32", "int64"), "u": ("uint8", "uint16", "uint32", "uint64"), "f": ("float16", "float", "double"), "b": ("bool",)}
    ABSTRACT = {"signedinteger": "i", "unsignedinteger": "u", "integer": "iu", "floating": "f", "inexact": "f", "number": "iuf", "bool_": "b"}

    def predicate(self, ip, st, k, attr):
        """the types of the attribute for which a condition on its kind holds"""
        def kinds(cs):
            return frozenset(t for c in cs for t in self.KIND.get(c, ()))
        if k.op in ("eq", "in") and len(k.args) == 2 and isinstance(k.args[0], Sym):
            x, c = k.args
            if x.op == "getattr" and x.args[1] in ("kind", Const("kind")) and self.of_dtype(ip, st, x.args[0]) == ("A", attr):
                if isinstance(c, Const) and isinstance(c.v, str):
                    return kinds(c.v)
                if k.op == "in" and isinstance(c, Tup) and all(isinstance(i, Const) and isinstance(i.v, str) for i in c.items):
                    return kinds("".join(i.v for i in c.items))
        if k.op == "call" and len(k.args) == 3 and k.args[0] == "numpy.issubdtype" and self.of_dtype(ip, st, k.args[1]) == ("A", attr):
            c = k.args[2]
            n = c.name.rpartition(".")[2] if isinstance(c, ExtV) else None
            if n in self.ABSTRACT:
                return kinds(self.ABSTRACT[n])
            if n in NP:
                return frozenset([NP[n]])
        return None

    def declared(self, ip, st, t):
        if isinstance(t, Sym) and t.op in ("in", "out") and len(t.args) == 2 and t.args[0] == Sym("NODE"):
            return self.arg(t.op, t.args[1])
        return self.term(ip, st, t, True)

    def term(self, ip, st, t, declared=False):
        t = ip.res(st, t)
        k = st.facts.get(("ty", t), 0)
        if k != 0:
            return k
        if isinstance(t, Sym):
            d = None if declared else ip.res(st, Sym("dtype", t))
            if isinstance(d, Const):
                return NAME.get(d.v)
            if t == Sym("in", Sym("NODE"), t.args[1] if len(t.args) > 1 else None):
                return self.arg("in", t.args[1])
            if t.op == "out" and t.args[0] == Sym("NODE"):
                return self.own_output(ip, st, t.args[1])
        return None

    def own_output(self, ip, st, i):
        """output of the node being converted: as TensorFlow has it until the node becomes another operator"""
        n = st.heap.get(("tfnode",))
        ty = ip.res(st, n.type) if n is not None else None
        if n is None or n.removed is not False or not isinstance(ty, Const):
            return None
        if n.meta and n.meta[0] == "orig" and ty.v == n.meta[1] and not schema("", ty.v, ip.opset):
            return self.arg("out", i)
        sc = schema("", ty.v, ip.opset)
        if sc is None or not isinstance(i, int) or not sc["outtypes"]:
            return None
        ts = tensor_types(sc["outtypes"][min(i, len(sc["outtypes"]) - 1)])
        return next(iter(ts)) if ts is not None and len(ts) == 1 else None

    def set_meta(self, ip, st, fld, t, v, e):
        if fld == "dtypes":
            d = self.of_dtype(ip, st, v) if v is not None else None
            st.facts[("rec", t)] = d
            if st.facts.get(("inf", t)) is None:
                self.retype(st, t, d)

    def retype(self, st, t, d):
        """what was known of the type of t changed: what was derived from it no longer holds"""
        st.facts[("ty", t)] = d
        todo = [t]
        if isinstance(t, Sym) and t.op == "out" and isinstance(t.args[0], Sym) and t.args[0].op == "nodeof":
            x = t.args[0].args[0]       # the same tensor, as far as is known
            st.facts[("ty", x)] = None
            todo.append(x)
        while todo:
            t = todo.pop()
            for k, v in list(st.facts.items()):
                if isinstance(k, tuple) and len(k) == 2 and k[0] == "dep" and v and t in v:
                    st.facts[k] = None
                    st.facts[("ty", k[1])] = st.facts[("inf", k[1])] = None
                    todo.append(k[1])

    def set_attr(self, ip, st, r, o, k, v, e):
        if k in ("to", "dtype", "value"):
            l = st.heap.get(o.outputs.a)
            for x in l.items if isinstance(l, ListO) else ():
                self.retype(st, x, None)
                st.facts[("inf", x)] = None

    def updated(self, ip, st, n, e):
        n = ip.obj(st, n) if n is not None else None
        if isinstance(n, NodeO):
            for x in st.heap[n.outputs.a].items:
                st.facts[("rec", x)] = st.facts[("dt0", x)] = None

    # ------------------------------------------------ what the readers of the op's outputs get
    def moved(self, st, old, new):
        for i in range(len(self.orig)):
            if st.facts.get(("read", i)) == old:
                st.facts[("read", i)] = new

    def replace_all(self, ip, st, old, new, ops, e):
        ops = ip.res(st, ops) if ops is not None else NONE
        new = ip.res(st, new) if new is not None else None
        if ops != NONE and not (isinstance(ops, Sym) and ops.op == "consumers"):
            new = None
        self.moved(st, old, new)

    def insert_on_output(self, ip, st, r, t, e):
        self.moved(st, t, st.heap[("outs", r.a)].items[0])

    def redirect(self, ip, st, t, e, node=None):
        n = ip.obj(st, ip.res(st, node)) if node is not None else None
        l = st.heap.get(n.outputs.a) if isinstance(n, NodeO) else None
        self.moved(st, t, l.items[0] if l is not None and len(l.items) == 1 else None)

    def of_dtype(self, ip, st, v):
        """term of an expression denoting an ONNX or numpy type"""
        v = ip.res(st, v)
        if isinstance(v, Const):
            return NAME.get(v.v) if isinstance(v.v, int) else NP.get(v.v) if isinstance(v.v, str) else None
        if isinstance(v, ExtV):
            m, _, n = v.name.rpartition(".")
            return NP.get(n) if m in ("numpy", "builtins") else None
        if not isinstance(v, Sym):
            return None
        if v.op == "dtype":
            t = v.args[0]
            if isinstance(t, Sym) and t.op in ("in", "out") and len(t.args) == 2 and t.args[0] == Sym("NODE"):
                return self.arg(t.op, t.args[1])        # as recorded when the model was loaded, whatever became of it since
            k = st.facts.get(("dt0", t), 0)      # as it was when the expression was evaluated, before anything was recorded for it
            return k if k != 0 else self.term(ip, st, t)
        if v.op == "attrval" and v.args[0] == Sym("NODE") and self.tf is not None and self.tf["attrs"].get(v.args[1], [""])[0] == "type":
            return ("A", v.args[1])
        if v.op == "call" and v.args[0] in ("tf2onnx.utils:map_onnx_to_numpy_type", "tf2onnx.utils:map_numpy_to_onnx_dtype", "numpy.dtype") and len(v.args) == 2:
            return self.of_dtype(ip, st, v.args[1])
        if v.op == "item" and "ONNX_TO_NUMPY_DTYPE" in str(v.args[0]):
            return self.of_dtype(ip, st, v.args[1])
        if v.op == "getattr" and v.args[1] in ("dtype", Const("dtype")):
            return self.of_value(ip, st, v.args[0])
        return None

    def of_value(self, ip, st, v):
        """term of the element type of a numpy expression"""
        v = ip.res(st, v)
        if isinstance(v, Sym) and v.op == "tval" and v.args[1] == Const(False) and isinstance(v.args[0], Sym) and v.args[0].op == "nodeof":
            return self.term(ip, st, v.args[0].args[0])
        if not isinstance(v, Sym) or v.op != "call":
            return None
        f, a = v.args[0], v.args[1:]
        if isinstance(f, Sym) and f.op == "getattr":
            m = f.args[1].v if isinstance(f.args[1], Const) else f.args[1]
            if m == "astype" and a:
                return self.of_dtype(ip, st, a[0])
            if m in KEEP:
                return self.of_value(ip, st, f.args[0])
            return None
        if not isinstance(f, str) or not f.startswith("numpy."):
            return None
        f = f[6:]
        pos = [x for x in a if not (isinstance(x, Tup) and len(x.items) == 2 and isinstance(x.items[0], Const) and isinstance(x.items[0].v, str))]
        kw = {x.items[0].v: x.items[1] for x in a if x not in pos}
        if f in ("array", "asarray", "zeros", "ones", "full", "empty", "arange", "eye", "identity"):
            at = {"array": 1, "asarray": 1, "zeros": 1, "ones": 1, "empty": 1, "full": 2, "identity": 1}.get(f, 9)
            d = kw.get("dtype", pos[at] if len(pos) > at else NONE)
            if d != NONE:
                return self.of_dtype(ip, st, d)
            if f in ("zeros", "ones", "empty", "eye", "identity"):
                return "double"
            if f in ("array", "asarray") and pos:
                return self.of_literal(ip, st, pos[0])
            return None
        if f in ("transpose", "reshape", "squeeze", "expand_dims", "copy", "flip", "tile", "ravel", "broadcast_to") and pos:
            return self.of_value(ip, st, pos[0])
        if f in NP and f not in ("object", "str"):
            return NP[f]
        return None

    def of_literal(self, ip, st, v):
        v = ip.res(st, v)
        if isinstance(v, Const):
            return {bool: "bool", int: "int64", float: "double"}.get(type(v.v))
        if isinstance(v, Tup) and v.items:
            ts = {self.of_literal(ip, st, x) for x in v.items}
            if ts == {"int64", "double"}:
                return "double"
            return ts.pop() if len(ts) == 1 else None
        return self.of_value(ip, st, v)

    # ---------------------------------------------------------------- events
    def make_const(self, ip, st, nm, v, e):
        if v is None:
            return
        t = self.of_value(ip, st, ip.frz(st, v))
        if nm is not None and nm != NONE:
            st.facts[("ty", nm)] = t
            self.count("typed constants" if t else "constants of unknown type")

    def make_node(self, ip, st, r, p, e):
        o = st.heap[r.a]
        ty = ip.res(st, o.type)
        outs = st.heap[("outs", r.a)].items
        terms = [None] * len(outs)
        deps = frozenset(x for x in (ip.res(st, x) for x in st.heap[o.inputs.a].items) if isinstance(x, Sym))
        if isinstance(ty, Const) and ip.res(st, o.domain) == Const("") and not (ty.v in TF["ops"] and ip.res(st, o.skip) == Const(False)):
            terms = self.out_terms(ip, st, r, o, ty.v, len(outs))
        g = ip.gobj(st)
        for x, t in zip(outs, terms):
            d = g.dtypes.get(x)
            d = self.of_dtype(ip, st, d) if d is not None else None
            al = [x]
            if isinstance(x, Sym) and x.op == "port" and isinstance(x.args[0], Sym) and x.args[0].op == "name" and isinstance(x.args[0].args[0], Sym):
                al.append(Sym("out", x.args[0].args[0], x.args[1]))
            for y in al:
                st.facts[("ty", y)] = t if t is not None else d
                st.facts[("inf", y)] = (t, ty.v, o.site) if t is not None else None
                st.facts[("rec", y)] = d
                st.facts[("dep", y)] = deps
                st.facts[("dt0", y)] = st.facts[("ty", y)]

        u = p.get("node")
        n = ip.obj(st, u) if u is not None else None
        if isinstance(n, NodeO) and n.kind == "new":        # its operand changed
            t = ip.res(st, n.type)
            if isinstance(t, Const):
                outs = st.heap[n.outputs.a].items
                for x, y in zip(outs, self.out_terms(ip, st, u, n, t.v, len(outs))):
                    st.facts[("ty", x)] = y
                    st.facts[("inf", x)] = (y, t.v, n.site) if y is not None else None
                    st.facts[("dep", x)] = frozenset(z for z in (ip.res(st, z) for z in st.heap[n.inputs.a].items) if isinstance(z, Sym))

    def out_terms(self, ip, st, r, o, op, n):
        sc = schema("", op, ip.opset)
        if sc is None or op in NOTYPE or len(st.heap[o.inputs.a].items) > sc["in"][1]:
            return [None] * n
        if op == "Cast":
            to = o.attrs.get("to")
            return [self.of_dtype(ip, st, to) if to is not None and "to" not in o.may else None] * n
        ins = st.heap[o.inputs.a]
        bind = {}
        for i, x in enumerate(ins.items):
            v = self.var(sc, "in", i)
            if v is not None and v not in bind:
                t = self.term(ip, st, x)
                if t is not None:
                    bind[v] = t
        res = []
        for i in range(n):
            v = self.var(sc, "out", i)
            ts = tensor_types(sc["outtypes"][min(i, len(sc["outtypes"]) - 1)]) if sc["outtypes"] else None
            if ts is not None and len(ts) == 1:
                res.append(next(iter(ts)))
            else:
                res.append(bind.get(v))
        if any(a in sc["attrs"] for a in ("dtype", "to", "output_datatype")):
            return [t if self.var(sc, "out", i) in bind and False else None for i, t in enumerate(res)]
        return res

    def span(self, ip, st, t):
        """the types a term may be"""
        if isinstance(t, str):
            return frozenset((t,))
        return self.values(ip, st, t[1]) if t is not None else None

    def variants(self, ip, st):
        """the path conditions on types that merged partitions had apart, one after the other, as st.pc"""
        gs = [g for g in st.alts if any(self.typed(k) for a in g for k, _ in a)]
        pc = st.pc
        combos = [()]
        for g in gs[-4:]:
            l = sorted(({(k, v) for k, v in a if self.typed(k)} for a in g), key=lambda a: sorted(map(repr, a)))
            combos = [c + (a,) for c in combos for a in l]
            if len(combos) > 64:
                self.count("type conditions not kept apart")
                break
        try:
            for c in combos:
                st.pc = dict(pc)
                for a in c:
                    st.pc.update(a)
                if not all(st.pc[k] == v for a in c for k, v in a):
                    continue
                self.last = None
                if self.feasible(ip, st):
                    yield
        finally:
            st.pc = pc
            self.last = None

    @staticmethod
    def typed(k):
        x = k if isinstance(k, Sym) else k[1] if isinstance(k, tuple) and len(k) == 2 and isinstance(k[1], Sym) else None
        return x is not None and any(y.op in ("dtype", "attrval") for y in subterms(x))

    def feasible(self, ip, st):
        """do the path conditions on element types agree with what the tensors are?"""
        if self.last is not None and self.last[0] is st:
            return self.last[1]
        ok = True
        for k, v in st.pc.items():
            if isinstance(k, Sym) and k.op == "eq" and len(k.args) == 2:
                x, y = k.args
                if not (isinstance(x, Sym) and x.op in ("dtype", "call", "attrval") or isinstance(y, Sym) and y.op == "dtype"):
                    continue
                a, b = self.of_dtype(ip, st, x), self.of_dtype(ip, st, y)
                if a is None or b is None:
                    continue
                a2, b2 = self.span(ip, st, a), self.span(ip, st, b)
                if v is True and a2 is not None and b2 is not None and not a2 & b2 or v is False and a == b:
                    ok = False
            elif isinstance(k, tuple) and k[0] == "eq" and isinstance(k[1], Sym) and k[1].op == "dtype":
                a, b = self.term(ip, st, k[1].args[0]), self.of_dtype(ip, st, v)
                if isinstance(a, str) and isinstance(b, str) and a != b:
                    ok = False
        self.last = (st, ok)
        return ok

    @staticmethod
    def var(sc, side, i):
        l = sc[side + "typestr"]
        return l[min(i, len(l) - 1)] if l else None

    def path_end(self, ip, st, v):
        for _ in self.variants(ip, st):
            self.one_end(ip, st)

    def one_end(self, ip, st):
        n = st.heap.get(("tfnode",))
        own = {}
        if n is not None and n.removed is False and self.tf is not None:
            ty = ip.res(st, n.type)
            lo = st.heap.get(n.outputs.a)
            if isinstance(ty, Const) and ip.res(st, n.domain) == Const("") and isinstance(lo, ListO):
                sc = schema("", ty.v, ip.opset)
                if sc is not None and isinstance(st.heap.get(n.inputs.a), ListO):
                    for i, (x, t) in enumerate(zip(lo.items, self.out_terms(ip, st, None, n, ty.v, len(lo.items)))):
                        own[x] = (t, ty.v, n.site)
        for k, x in st.facts.items():
            if isinstance(k, tuple) and len(k) == 2 and k[0] == "inf" and x is not None:
                d = st.facts.get(("rec", k[1]))
                if d is not None:
                    self.compare(ip, st, "recorded-type", "output of %s" % x[1], x[2], x[0], d)
        for x, t in own.items():
            d = st.facts.get(("rec", x))
            if d is not None and t[0] is not None:
                self.compare(ip, st, "recorded-type", "output of %s" % t[1], t[2], t[0], d)
        for i in range(len(self.orig)):
            x, d = st.facts.get(("read", i)), self.arg("out", i)
            if x is None or d is None:
                continue
            inf = own.get(x) or st.facts.get(("inf", x))
            if inf is not None and inf[0] is not None and not self.cast_follows(st, x):
                self.compare(ip, st, "result-type", "output %d, of %s," % (i, inf[1]), inf[2], inf[0], d)

    def cast_follows(self, st, t):
        """has the path found that a Cast is the only reader of t"""
        one = cast = False
        for k, v in st.pc.items():
            if v is True and isinstance(k, Sym) and k.op == "eq" and isinstance(k.args[1], Const):
                x, c = k.args[0], k.args[1].v
                u = list(subterms(x)) if isinstance(x, Sym) else ()
                if any(y.op == "consumers" and y.args[0] == t for y in u):
                    one = one or x.op == "len" and c == 1
                    cast = cast or x.op == "type" and c == "Cast"
        return one and cast

    def compare(self, ip, st, rule, what, site, a, b):
        self.count("types of results")
        known = {x for x in (a, b) if isinstance(x, str)}
        for k, v in st.pc.items():      # the path settles the type of a tensor nothing is known of
            if isinstance(k, Sym) and k.op == "eq" and v is True and len(k.args) == 2 and any(isinstance(x, Sym) and x.op == "dtype" for x in k.args):
                x, y = self.of_dtype(ip, st, k.args[0]), self.of_dtype(ip, st, k.args[1])
                if x is None and y in known or y is None and x in known:
                    return
        l = []
        for t in (a, b):
            if isinstance(t, tuple):
                vs = self.values(ip, st, t[1])
                if vs is None:
                    return
                t = (t[1], vs)
            l.append(t)
        k = (rule, what, site, l[0], l[1])
        self.outs[k] = self.outs.get(k, False) or self.exact(st)

    def final_node(self, ip, st, addr, o):
        if o.removed is not False or o.kind == "lift":
            return
        t = ip.res(st, o.type)
        if not isinstance(t, Const) or not isinstance(t.v, str) or ip.res(st, o.domain) != Const(""):
            return
        if t.v in NOTYPE or o.kind == "new" and ip.res(st, o.skip) == Const(False):
            return
        if o.kind == "tf" and self.tf is None:
            return
        if t.v not in ONNX["schemas"][""]:
            return
        g = ip.gobj(st)
        lo = st.heap.get(o.outputs.a)
        if isinstance(lo, ListO) and lo.items and not lo.open and all(x in g.redir for x in lo.items):
            return
        l = st.heap.get(o.inputs.a)
        if not isinstance(l, ListO):
            return
        for _ in self.variants(ip, st):
            terms = []
            for x in l.items:
                y = self.term(ip, st, x)
                if isinstance(y, tuple):
                    vs = self.values(ip, st, y[1])
                    y = (y[1], vs) if vs is not None else None
                terms.append(y)
            self.count("operator inputs")
            if any(terms):
                rec = (t.v, o.kind, o.site, tuple(terms))
                self.records[rec] = self.records.get(rec, False) or self.exact(st)

    @staticmethod
    def exact(st):
        return not st.facts.get("joined") and not st.facts.get("blurred")


def judge(rec, opset):
    """yield (rule, input index, message)"""
    op, kind, site, terms = rec
    sc = schema("", op, opset)
    if sc is None or sc["dep"] or not sc["intypes"]:
        return
    bind = {}
    for i, t in enumerate(terms):
        if t is None:
            continue
        j = min(i, len(sc["intypes"]) - 1)
        if i != j and sc["in"][1] < 1000:
            continue
        ok = tensor_types(sc["intypes"][j])
        if ok is None:
            continue
        var = sc["intypestr"][j]
        if isinstance(t, str):
            if t not in ok:
                yield "type-not-accepted", i, "input %d of %s is %s, which it does not accept there" % (i, op, t)
                continue
        else:
            attr, vals = t
            if not vals:
                continue        # no type is left: the path cannot be taken
            if not vals & WIDE:
                continue        # rarely used types that the path has singled out are passed on as they are
            if not vals & ok:
                yield "type-not-accepted", i, "input %d of %s has type %s, none of whose values it accepts there" % (i, op, attr)
                continue
            bad = vals & frozenset(("int32", "int64")) - ok
            if vals <= INDEX and bad:
                yield "type-not-accepted", i, "input %d of %s has type %s, which may be %s there" % (i, op, attr, "/".join(sorted(bad)))
                continue
        if "(" in var or i >= len(sc["intypes"]) and sc["in"][1] > 1000 and op in ("Loop",):
            continue
        if var in bind:
            k, u = bind[var]
            m = clash(u, t)
            if m:
                yield "types-differ", i, "inputs %d and %d of %s must have one type, but %s" % (k, i, op, m)
        else:
            bind[var] = (i, t)


def judge_out(rec):
    rule, what, site, a, b = rec
    m = clash(a, b)
    if m:
        yield rule, "%s %s" % (what, {"recorded-type": "is not what is recorded for it: ", "result-type": "is not what TensorFlow's is: "}[rule] + m)


def clash(a, b):
    if isinstance(a, str) and isinstance(b, str):
        return "are %s and %s" % (a, b) if a != b else None
    if isinstance(b, str):
        a, b = b, a
    if isinstance(a, str):
        attr, vals = b
        if not vals:
            return None
        if a not in vals:
            return "one is %s and the other %s, which is never that" % (a, attr)
        other = vals - {a}
        if vals <= INDEX and other & {"int32", "int64"}:
            return "one is %s and the other %s, which may be %s" % (a, attr, "/".join(sorted(other & {"int32", "int64"})))
        if other & WIDE:
            return "one is %s and the other %s, which may be %s" % (a, attr, "/".join(sorted(other & WIDE)))
        return None
    if a[0] == b[0]:
        return None
    if not a[1] & WIDE or not b[1] & WIDE:
        return None
    if not a[1] & b[1]:
        return "%s and %s are never the same" % (a[0], b[0])
    if a[1] <= INDEX and b[1] <= INDEX and len((a[1] | b[1]) & {"int32", "int64"}) > 1:
        return "%s and %s may differ" % (a[0], b[0])
    return None



