"""C07: a conversion makes use of every operand the operator computes from."""
from ..absint import Const, Ref, Sym
from ..drive import OPSETS, explore, pmap, handler_units, TF
from ..emit import opaque_valued
from ..operands import OperandMonitor
from ..project import Project, is_fixture
from .. import registry

EXPLANATION = ("For every registered handler of a TensorFlow op (and of a TFLite operator) and every opset it serves, abstract interpretation collects which operands "
               "of the converted node each successful path uses: in the operands and attributes of the operators it leaves, in the constants it makes, in what it "
               "redirects consumers to, or in the conditions it takes. A path that uses an operand nowhere computes a result the operand cannot influence: a finding, "
               "unless listed with a reason.")
RULES = {"operand-dropped": "every successful conversion path uses each operand of the operator (its value, not only its shape or type)"}
E = frozenset()
CONTROL_FLOW = {"If", "StatelessIf", "While", "StatelessWhile"}
# what TFLite's register.cc and the kernels' Prepare accept at most, for operators whose conversion may rewrite the operands
TFLITE = {
    "TFL_FULLY_CONNECTED": 3, "TFL_CONV_2D": 3, "TFL_DEPTHWISE_CONV_2D": 3, "TFL_CONV_3D": 3, "TFL_TRANSPOSE_CONV": 4, "TFL_CONV_3D_TRANSPOSE": 4,
    "TFL_ADD": 2, "TFL_SUB": 2, "TFL_MUL": 2, "TFL_DIV": 2, "TFL_BATCH_MATMUL": 2, "TFL_GATHER": 2, "TFL_GATHER_ND": 2, "TFL_SCATTER_ND": 3,
    "TFL_SPLIT": 2, "TFL_SPLIT_V": 3, "TFL_STRIDED_SLICE": 4, "TFL_SLICE": 3, "TFL_PADV2": 3, "TFL_PAD": 2, "TFL_MIRROR_PAD": 2, "TFL_TILE": 2,
    "TFL_TOPK_V2": 2, "TFL_ONE_HOT": 4, "TFL_SELECT": 3, "TFL_SELECT_V2": 3, "TFL_SPARSE_TO_DENSE": 4, "TFL_SPACE_TO_BATCH_ND": 3,
    "TFL_BATCH_TO_SPACE_ND": 3, "TFL_REVERSE_V2": 2, "TFL_REVERSE_SEQUENCE": 2, "TFL_MATRIX_SET_DIAG": 2, "TFL_SEGMENT_SUM": 2, "TFL_CUMSUM": 2,
    "TFL_RANGE": 3, "TFL_FILL": 2, "TFL_EXPAND_DIMS": 2, "TFL_BROADCAST_TO": 2, "TFL_PRELU": 2, "TFL_RESIZE_BILINEAR": 2, "TFL_RESIZE_NEAREST_NEIGHBOR": 2,
    "TFL_TRANSPOSE": 2, "TFL_ARG_MAX": 2, "TFL_ARG_MIN": 2, "TFL_SOFTMAX": 1, "TFL_QUANTIZE": 1, "TFL_DEQUANTIZE": 1, "TFL_NON_MAX_SUPPRESSION_V4": 5,
    "TFL_NON_MAX_SUPPRESSION_V5": 6, "TFL_UNSORTED_SEGMENT_SUM": 3, "TFL_UNSORTED_SEGMENT_MAX": 3, "TFL_UNSORTED_SEGMENT_MIN": 3,
    "TFL_UNSORTED_SEGMENT_PROD": 3, "TFL_TFLite_Detection_PostProcess": 3, "TFL_LEAKY_RELU": 1, "TFL_MAX_POOL_2D": 1, "TFL_AVERAGE_POOL_2D": 1,
    "TFL_SUM": 2, "TFL_MEAN": 2, "TFL_REDUCE_MAX": 2, "TFL_REDUCE_MIN": 2, "TFL_REDUCE_PROD": 2, "TFL_REDUCE_ANY": 2, "TFL_REDUCE_ALL": 2,
    "TFL_SQUEEZE": 1, "TFL_RESHAPE": 1, "TFL_UNIQUE": 1, "TFL_SHAPE": 1, "TFL_MULTINOMIAL": 2, "TFL_L2_NORMALIZATION": 1,
}
# TensorFlow ops that TFLite operators become: the bias comes along as one more operand
WITH_BIAS = {"Conv2D": 3, "DepthwiseConv2dNative": 3, "Conv3D": 3, "Conv2DBackpropInput": 4, "Conv3DBackpropInputV2": 4}
# operands the result does not depend on
EXEMPT = {
}
# operands that do not matter on some paths
PARTIAL = {
    ("StridedSlice", "begin"): "masked dimensions take none; all may be masked", ("StridedSlice", "end"): "as begin",
}
# operands that an attribute makes irrelevant: its value, on paths that tested it
UNLESS = {("LSTMBlockCell", i): ("use_peephole", False) for i in (4, 5, 6)}
UNLESS.update({(op, i): ("is_training", True) for op in ("FusedBatchNorm", "FusedBatchNormV2", "FusedBatchNormV3") for i in (3, 4)})


def operands(h):
    """-> [(index, name)], input counts to analyse (None: what the op defines)"""
    op = h.op.split(":")[-1]
    if op in TFLITE:
        n = TFLITE[op]
        return [(i, "operand %d" % i) for i in range(n)], [(n, False, 1, True)]
    ks = []
    for nm, lst in TF["ops"][op]["in"]:
        if lst:
            break
        ks.append((len(ks), nm))
    return ks, None


def lengths(k):
    """(op, bound on the left?, n) of a comparison of the operand count with a number"""
    if not isinstance(k, Sym) or k.op not in ("eq", "lt", "le") or len(k.args) != 2:
        return None
    for i in (0, 1):
        a, b = k.args[i], k.args[1 - i]
        if isinstance(a, Sym) and a.op == "len" and isinstance(b, Const) and isinstance(b.v, int) \
                and any(x == Ref(("ins", ("tfnode",))) for x in a.args):
            return k.op, i == 1, b.v
    return None


def field_of(v):
    """attribute of the converted op a term is the value of"""
    while isinstance(v, Sym):
        if v.op in ("attrval", "attrvald", "aproto") and isinstance(v.args[1], str):
            return v.args[1] if v.args[0] == Sym("NODE") else None
        if v.op == "getattr" and v.args[1] in ("i", "f", "s"):
            v = v.args[0]
        elif v.op in ("call", "bool") and v.args and isinstance(v.args[-1], Sym) and "bool" in str((v.op,) + v.args[:-1]):
            v = v.args[-1]
        else:
            return None
    return None


class Paths(OperandMonitor):
    def few(self, st, i):
        """the path knows that the node has no operand i, or that it is empty"""
        attr, truth = UNLESS.get((self.h.op.split(":")[-1], i), (None, None))
        for k, x in st.pc.items():
            if attr and isinstance(k, Sym) and x is truth and field_of(k) == attr:
                return True
            if isinstance(k, Sym) and x is True and k.op == "in" and len(k.args) == 2 and k.args[0] == Const(0) \
                    and isinstance(k.args[1], Sym) and k.args[1].op == "shape" and k.args[1].args and k.args[1].args[0] == Sym("in", Sym("NODE"), i):
                return True
        return False

    def path_end(self, ip, st, v):
        before = dict(self.paths)
        super().path_end(ip, st, v)
        for k, n in self.paths.items():
            if before.get(k) != n:
                self.absent.setdefault(k, []).append(frozenset(i for i in range(8) if self.few(st, i)))

    def begin(self, ip, st, h):
        super().begin(ip, st, h)
        self.absent = {}


def analyse(proj, units):
    def job(u):
        h, lo, hi, ks, ios = u
        out, n, undecided = {}, 0, 0
        runs, scale = explore(proj, h, lo, hi, Paths, ios=ios)
        for mon, c in runs:
            if mon.n_paths == 0:
                undecided += 1
                continue
            n += len(ks) * len(c)
            for i, nm in ks:
                for (r, exact), cnt in mon.paths.items():
                    if i in r or -1 in r:
                        continue
                    if not exact:
                        undecided += 1
                        continue
                    if all(i in a for a in mon.absent[(r, exact)]):
                        continue
                    out.setdefault((i, nm), set()).update(c)
        return out, n, undecided
    return [(u[0],) + r for u, r in zip(units, pmap(job, units))]


def pick(hs, fix):
    res = []
    mine = [h for h in hs if is_fixture(h.mod) == fix]
    for h, lo, hi in [(h, min(OPSETS), max(OPSETS)) for h in mine if h.kind == "to_tf"] + handler_units([h for h in mine if h.kind != "to_tf"]):
        op = h.op.split(":")[-1]
        if op in CONTROL_FLOW or opaque_valued(op) or op not in TFLITE and op not in TF["ops"]:
            continue
        ks, ios = operands(h)
        res.append((h, lo, hi, ks, ios))
        if op in WITH_BIAS:
            n = WITH_BIAS[op]
            res.append((h, lo, hi, [(n - 1, "bias")], [(n, False, 1, False)]))
    return res


def run(rep):
    proj = Project(fixtures=("operands",))
    hs, _ = registry.load(proj)
    for r, t in RULES.items():
        rep.rule(r, t)
    got = {}
    for h, out, n, und in analyse(proj, pick(hs, False) + pick(hs, True)):
        op = h.op.split(":")[-1]
        if is_fixture(h.mod):
            got[h.cls.node.name] = {i for i, _ in out}
            continue
        rep.count("handlers")
        rep.count("operand x opset obligations", n)
        rep.count("undecided (joined paths)", und)
        for (i, nm), ops in sorted(out.items()):
            if (op, nm) in EXEMPT or (op, nm) in PARTIAL:
                rep.sample("exempt", "%s.%s: %s" % (op, nm, EXEMPT.get((op, nm)) or PARTIAL[(op, nm)]))
                continue
            rep.find("operand-dropped", "%s.%s" % (op, nm), "a path of the conversion of %s uses %s (input %d) nowhere" % (h.op, nm, i),
                     "%s:%d (%s)" % (h.mod.rel, h.fi.node.lineno, h.fi.qual), ops)
    rep.selftest("operand dropped on one path flagged %s" % got.get("Drops"), got.get("Drops") == {2})
    rep.selftest("operand list rebuilt without the last flagged %s" % got.get("Rebuilds"), got.get("Rebuilds") == {2})
    rep.selftest("operand list rebuilt with the rest silent %s" % got.get("Keeps"), got.get("Keeps") == set())
    rep.selftest("operands folded into constants and conditions silent %s" % got.get("Folds"), got.get("Folds") == set())
    rep.floor("handlers", 380)
    rep.floor("operand x opset obligations", 4000)
    rep.assumptions += ["the operands of TensorFlow ops are those of the op definitions in the installed TensorFlow (oracles/tf.json); of TFLite operators those listed in TFLITE",
                        "a condition on an operand's value (a constant it folds, say) is a use of it"]
