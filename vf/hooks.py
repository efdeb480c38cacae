"""Rules over graph-API events on the paths of a conversion unit (one monitor, findings selected per property)."""
from .absint import Const, Sym, Ref, NodeO, ListO, Tup, NONE
from .gmodel import Monitor, load_oracle
from .emit import opaque_valued, exists, GRAPH_LEVEL

E = frozenset()
TENSOR = ("out", "in", "port", "uname")
PSEUDO_OUT = ("IteratorV2", "FIFOQueueV2", "IteratorGetNext", "QueueDequeueV2", "QueueDequeueManyV2", "QueueDequeueUpToV2")

GRADIENT_OUTPUTS = {("SoftmaxCrossEntropyWithLogits", 1), ("SparseSoftmaxCrossEntropyWithLogits", 1)}     # only training reads them


def single_output(ty):
    d = load_oracle("tf")["ops"].get(ty)
    if d is not None:
        return len(d["out"]) == 1 and not d["out"][0][1]
    d = load_oracle("onnx")["schemas"].get("", {}).get(ty)
    return d is None or all(v["out"][1] <= 1 for v in d)


def is_tensor_name(v):
    return isinstance(v, Sym) and v.op in TENSOR


class ApiMonitor(Monitor):
    """found: (rule, key) -> [message, site, exact]"""

    def __init__(self):
        self.stats = {}
        self.found = {}
        self.unit = None
        self.orig = ()
        self.control_flow = False

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def hit(self, ip, st, rule, key, msg, e):
        fi = ip.cur_fi
        site = (ip.cur_mod.rel, getattr(e, "lineno", 0), fi.qual if fi else "?") if e is not None else None
        exact = not st.facts.get("joined")
        k = (rule, "%s:%s" % (fi.full.split(":")[1] if fi and e is not None else "", key) if e is not None else key)
        if k not in self.found or exact and not self.found[k][2]:
            self.found[k] = [msg, site, exact]

    def add(self, st, k, ts):
        st.facts[k] = st.facts.get(k, E) | frozenset(ts)

    # ------------------------------------------------ outputs survive
    def begin(self, ip, st, h):
        n = st.heap.get(("tfnode",))
        # these own the functions they inline
        self.control_flow = getattr(h, "op", "") in ("While", "StatelessWhile", "If", "StatelessIf", "TFL_WHILE", "TFL_IF")
        if n is not None:
            self.orig = st.heap[n.outputs.a].items

    def make_node(self, ip, st, r, p, e):
        self.count("make_node")
        o = st.heap[r.a]
        l = st.heap[("outs", r.a)]
        # taking the node's name is not enough: an output that is also a graph output is not named after its node (Graph.__init__ renames it)
        outs = list(l.items)
        self.add(st, "prod", outs)
        if l.open:
            st.facts["prodopen"] = True
        via = p.get("via")
        if via is None:
            for fld in ("shapes", "dtypes"):
                v = ip.res(st, p.get(fld, NONE))
                if isinstance(v, Sym) and v.op == fld[:-1] or isinstance(v, Const) and isinstance(v.v, int) and not isinstance(v.v, bool):
                    self.hit(ip, st, "count-mismatch", "%s:%s" % (self.tname(ip, st, o), fld),
                             "make_node of %s is given one %s where a list with one per output belongs" % (self.tname(ip, st, o), fld[:-1]), e)
                si = ip.seq_items(st, v) if v != NONE and not isinstance(v, Const) else None
                if si is not None and si[1] and si[0] and not l.open and len(si[0]) != len(l.items):
                    self.hit(ip, st, "count-mismatch", "%s:%s" % (self.tname(ip, st, o), fld),
                             "make_node of %s is given %d %s for %d outputs" % (self.tname(ip, st, o), len(si[0]), fld, len(l.items)), e)
            l = p.get("inputs")
            if isinstance(l, Sym) and l.op == "outputs" and isinstance(l.args[0], Sym) and l.args[0].op == "nodeof":
                self.wired(ip, st, Sym("out", l.args[0], "*"), "the input list of make_node(%s)" % self.tname(ip, st, o), e)
            for i, x in enumerate(st.heap[("ins", r.a)].items):
                self.tensor_arg(ip, st, x, "input %d of make_node(%s)" % (i, self.tname(ip, st, o)), e)
        # an output of this name still belongs to a live node
        outs = set(outs)
        for a, n in st.heap.items():
            if isinstance(n, NodeO) and a != r.a and n.removed is False and n.kind != "lift":
                lo = st.heap.get(n.outputs.a)
                if isinstance(lo, ListO):
                    for x in lo.items:
                        if x in outs and not (isinstance(x, Sym) and x.op == "uname" and st.facts.get("joined")):
                            self.hit(ip, st, "output-taken", self.tname(ip, st, o),
                                     "make_node of %s claims an output name that a node still in the graph produces" % self.tname(ip, st, o), e)

    def tname(self, ip, st, o):
        t = ip.res(st, o.type)
        return t.v if isinstance(t, Const) else "?"

    def tensor_arg(self, ip, st, x, what, e):
        x = ip.res(st, x)
        if isinstance(x, Ref):
            o = st.heap.get(x.a)
            if isinstance(o, NodeO):
                self.hit(ip, st, "node-as-tensor", what, "%s is a node, not the name of a tensor" % what, e)
            elif isinstance(o, ListO):
                self.hit(ip, st, "node-as-tensor", what, "%s is a list, not the name of a tensor" % what, e)
        elif isinstance(x, Const) and not isinstance(x.v, (str, bytes)) and x.v is not None:
            self.hit(ip, st, "node-as-tensor", what, "%s is %r, not the name of a tensor" % (what, x.v), e)

        elif isinstance(x, Sym) and x.op == "out" and isinstance(x.args[0], Sym) and x.args[0].op == "nodeof":
            self.wired(ip, st, x, what, e)
        elif isinstance(x, Sym) and x.op in ("dtype", "shape", "rank", "outputs", "inputs", "innodes", "proto", "tensor"):
            self.hit(ip, st, "node-as-tensor", what, "%s is the %s of something, not the name of a tensor" % (what, x.op), e)

    def tensor_asked(self, ip, st, x, what, e):
        x = ip.res(st, x)
        if isinstance(x, Sym) and x.op == "out" and isinstance(x.args[0], Sym) and x.args[0].op == "nodeof":
            self.wired(ip, st, x, "the %s asked for" % what, e)

    def wired(self, ip, st, x, what, e):
        """output k of the op producing tensor t stands in for t: right only if the op has one output"""
        n = x.args[0]
        t = n.args[0]
        if not (isinstance(t, Sym) and t.op == "in"):
            return
        self.count("producer outputs used as operands")
        ty = ip.res(st, Sym("type", n))
        ty = ty.v if isinstance(ty, Const) else None
        if ty is not None and single_output(ty):
            return
        if any(v is True and isinstance(k, Sym) and k.op in ("isconst", "is_const", "graphinput") and k.args[0] in (n, t) for k, v in st.pc.items()):
            return
        self.hit(ip, st, "producer-output", "%s" % t, "%s is output %s of the op producing %s, whichever output of it that is" % (what, x.args[1], t), e)

    # ------------------------------------------------ other ops are left alone
    def foreign(self, ip, st, t):
        """is t an input of the converted op, or a tensor of an op feeding it"""
        t = ip.res(st, t)
        return isinstance(t, Sym) and (t.op == "in" and self.feeds(t.args[0]) or t.op == "out" and self.foreign_key(t.args[0]))

    def feeds(self, k):
        return k == Sym("NODE") or self.foreign_key(k)

    def foreign_key(self, k):
        return isinstance(k, Sym) and (k.op == "nodeof" and isinstance(k.args[0], Sym) and k.args[0].op == "in" and self.feeds(k.args[0].args[0]) or
                                       k.op == "loopvar")

    def foreign_node(self, ip, st, r, o):
        """an op other than the converted one and those made by the conversion, unless this path knows it has at most one reader"""
        if not isinstance(o, NodeO) or o.kind != "lift" or self.control_flow or not self.foreign_key(o.key):
            return False
        ts = [o.key.args[0]] if o.key.op == "nodeof" else []
        return not any(self.lonely(k, v, ts, o.key) for k, v in st.pc.items())

    def lonely(self, k, v, ts, key):
        """does the path condition k == v say that a tensor in ts, or an output of the node `key`, has at most one reader"""
        if isinstance(k, tuple) and len(k) == 2 and k[0] == "eq" and self.readers(k[1], ts, key):
            return isinstance(v, int) and v <= 1 or getattr(v, "v", 2) in (0, 1)
        if not isinstance(k, Sym):
            return False
        if self.readers(k, ts, key):
            return v is False       # empty
        if k.op in ("eq", "ne", "lt", "le", "gt", "ge") and len(k.args) == 2:
            x, c = k.args
            if self.readers(c, ts, key):
                x, c, op = c, x, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le"}.get(k.op, k.op)
            else:
                op = k.op
            if self.readers(x, ts, key):
                c = c.v if isinstance(c, Const) else c
                if not isinstance(c, int):
                    return True
                t = {"eq": lambda n: n == c, "ne": lambda n: n != c, "lt": lambda n: n < c, "le": lambda n: n <= c, "gt": lambda n: n > c,
                     "ge": lambda n: n >= c}[op]
                return all(t(n) is not v for n in range(2, max(c, 0) + 3))
            return False
        return "consumers(" in str(k) and any("consumers(%s," % t in str(k) for t in ts)      # some predicate over the readers

    def readers(self, x, ts, key):
        if isinstance(x, Sym) and x.op == "len" and x.args:
            x = x.args[0]
        if not isinstance(x, Sym) or x.op != "consumers":
            return False
        t = x.args[0]
        return t in ts or isinstance(t, Sym) and t.op == "out" and t.args[0] == key

    def redirected(self, ip, st, t, what, e):
        if self.foreign(ip, st, t) and not self.control_flow:
            self.hit(ip, st, "foreign-redirect", "%s %s" % (what, t), "%s redirects every reader of a tensor of another op (%s)" % (what, t), e)

    def insert_on_output(self, ip, st, r, t, e):
        self.redirected(ip, st, t, "insert_new_node_on_output", e)

    def set_attr(self, ip, st, r, o, k, v, e):
        if self.foreign_node(ip, st, r, o):
            self.hit(ip, st, "foreign-edit", "set_attr %s" % (o.key,), "changes an attribute of another op (%s)" % (o.key,), e)

    def set_tensor_value(self, ip, st, r, o, v, e):
        if self.foreign_node(ip, st, r, o):
            self.hit(ip, st, "foreign-edit", "set_tensor_value %s" % (o.key,), "changes the value of a constant other ops may read (%s)" % (o.key,), e)

    def type_change(self, ip, st, r, o, v, e):
        if self.foreign_node(ip, st, r, o):
            self.hit(ip, st, "foreign-edit", "type %s" % (o.key,), "changes the operator of another op (%s)" % (o.key,), e)

    def direct_write(self, ip, st, r, o, how, e):
        if self.foreign_node(ip, st, r, o):
            self.hit(ip, st, "foreign-edit", "%s %s" % (how, o.key), "changes %s of another op (%s)" % (how, o.key), e)

    def replace_all(self, ip, st, old, new, ops, e):
        self.count("replace_all_inputs")
        if ops is None or ip.res(st, ops) == NONE:
            self.redirected(ip, st, old, "replace_all_inputs", e)
        self.tensor_arg(ip, st, old, "old_input of replace_all_inputs", e)
        if new is not None:
            self.tensor_arg(ip, st, new, "new_input of replace_all_inputs", e)
        self.add(st, "prod", [old])

    def redirect(self, ip, st, t, e, node=None):
        self.redirected(ip, st, t, "insert_node_on_output", e)
        self.add(st, "prod", [t])

    def consumers_asked(self, ip, st, t, e):
        self.add(st, "asked", [t])

    def path_end(self, ip, st, v):
        n = st.heap.get(("tfnode",))
        if n is None or n.kind != "tf":
            return
        gone = n.removed is True
        if not gone:
            # a node left with an operator ONNX does not have needs the same: only readers sent elsewhere are served
            t, d = ip.res(st, n.type), ip.res(st, n.domain)
            if not (isinstance(t, Const) and isinstance(d, Const) and d.v == "" and t.v in load_oracle("tf")["ops"] and t.v not in GRAPH_LEVEL and not exists("", t.v)):
                return
        if n.meta and len(n.meta) > 1 and n.meta[0] == "orig" and (n.meta[1] in PSEUDO_OUT or opaque_valued(n.meta[1])):
            return
        self.count("conversion paths that remove the node" if gone else "conversion paths that leave the node aside")
        prod = st.facts.get("prod", E) | st.facts.get("asked", E)
        if st.facts.get("prodopen") or st.facts.get("zero"):
            return      # a loop that may not run leaves it undecided
        for i, o in enumerate(self.orig):
            self.count("outputs of removed nodes")
            if o not in prod and not (n.meta[0] == "orig" and (n.meta[1], i) in GRADIENT_OUTPUTS):
                self.hit(ip, st, "output-lost", "output %d" % i, "%s the node and neither produces its output %d again nor redirects its readers" % ("removes" if gone else "leaves aside", i), None)

    # ------------------------------------------------ removed nodes
    def use_after_remove(self, ip, st, x, o, what, e):
        self.hit(ip, st, "use-after-remove", what, "asks for %s after the node was removed (%s)" % (
            what, "the answer is always None" if what in ("shape", "dtype") else "raises"), e)

    def removed(self, ip, st, target, o, e):
        self.count("remove_node")
        if self.foreign_node(ip, st, target, o):
            self.hit(ip, st, "foreign-remove", "%s" % (o.key,), "removes another op (%s)" % (o.key,), e)
        if isinstance(o, NodeO) and o.removed is True and o.kind != "lift":
            self.hit(ip, st, "removed-twice", self.tname(ip, st, o), "removes a node that is already removed", e)

    # ------------------------------------------------ names
    def node_name(self, ip, st, nm, e, what, main=True):
        self.count("explicit names")
        self.add(st, "names", [])
        # names looked up first and found free are shared on purpose
        looked = any(isinstance(k, tuple) and k[0] == "none" and v is True and isinstance(k[1], Sym) and k[1].op in ("nodeof", "nodenamed")
                     and isinstance(k[1].args[0], Const) for k, v in st.pc.items())
        if not self.unique(nm) and not looked and main:
            self.hit(ip, st, "fixed-name", "%s %s" % (what, nm.v if isinstance(nm, Const) else "?"),
                     "%s with the name %s, the same for every instance of the op" % (what, nm), e)

    def unique(self, v):
        """does the name involve something that differs per instance (unknown values are taken to)"""
        return not isinstance(v, Const) or v.v is None

    # ------------------------------------------------ references
    def unbound_local(self, ip, st, name, e):
        if not st.facts.get("zero"):        # a loop that may not run leaves it undecided
            self.hit(ip, st, "unbound-variable", name, "reads local variable %s, which this path has not bound" % name, e)

    def missing_attr(self, ip, st, t, name, e):
        self.hit(ip, st, "no-such-attribute", "%s.%s" % (t, name), "reads .%s of a %s, which has none" % (name, t), e)

    def addition(self, ip, st, a, b, e):
        self.count("sums of unknown values")
        for x, y in ((a, b), (b, a)):
            if (isinstance(x, Const) and isinstance(x.v, str) or isinstance(x, Sym) and x.op == "fmt") and \
                    isinstance(y, Sym) and y.op in ("dtype", "rank", "len", "shape", "inputs", "outputs"):
                self.hit(ip, st, "text-and-number", y.op, "adds text and the %s of something" % y.op, e)

    # ------------------------------------------------ other preconditions
    def bad_api_call(self, ip, st, what, k, e):
        self.hit(ip, st, "bad-argument", "%s:%s" % (what, k), "%s has no parameter %s" % (what, k), e)

    def bad_replace_input(self, ip, st, idx, old, cur, e):
        self.hit(ip, st, "replace-mismatch", "input %d" % idx, "replace_input names an old input that is not input %d of the node at that point" % idx, e)

    def attr_of_tensor(self, ip, st, v, name, e):
        self.hit(ip, st, "tensor-as-node", name, "takes .%s of the name of a tensor" % name, e)

    def shape_edited(self, ip, st, t, how, e):
        self.hit(ip, st, "shape-edited", how, "edits the list get_shape returned (%s), which is the shape the graph has on record" % how, e)
