"""Which operands of the converted op a conversion path makes use of."""
from .absint import Const, Sym, Ref, NONE, ListO, Tup
from .emit import EmitMonitor

E = frozenset()
NODE = Sym("NODE")
# what only describes a tensor, not its values
ABOUT = {"isconst", "isinput", "shape", "dtype", "type", "consumers", "outputs", "rank", "isnone"}


def used_in(x, about=False):
    """indices of the operands whose values the term is made of (-1: any)"""
    res = set()
    todo = [x]
    while todo:
        t = todo.pop()
        if isinstance(t, Sym):
            if t.op in ABOUT and not about:
                continue
            if t.op == "in" and len(t.args) == 2 and t.args[0] == NODE:
                i = t.args[1]
                i = i.v if isinstance(i, Const) else i
                res.add(i if isinstance(i, int) else -1)
                continue
            if t.op in ("star", "ins", "slice", "mcall") and any(a == Ref(("ins", ("tfnode",))) for a in t.args):
                res.add(-1)
            todo += [a for a in t.args if isinstance(a, (Sym, Tup, tuple))]
        elif isinstance(t, Tup):
            todo += list(t.items)
        elif isinstance(t, tuple):
            todo += list(t)
    return res


class OperandMonitor(EmitMonitor):
    about = False

    def begin(self, ip, st, h):
        self.paths = {}
        self.h = h
        self.dynamic = False

    def note(self, ip, st, v):
        if v is None:
            return
        u = used_in(ip.frz(st, v), self.about)
        if u:
            r = st.facts.get("ud", E)
            if not u <= r:
                st.facts["ud"] = r | u

    def make_const(self, ip, st, nm, v, e):
        self.note(ip, st, v)

    consts_made = make_const

    def set_tensor_value(self, ip, st, b, o, v, e):
        self.note(ip, st, v)

    def replace_all(self, ip, st, old, new, ops, e):
        self.note(ip, st, new)
        if ops is None or ip.res(st, ops) == NONE:
            st.facts["full"] = st.facts.get("full", E) | {old}

    def dead(self, ip, st, o):
        """no reader is left of any output: all were handed the outputs of others"""
        lo = st.heap.get(o.outputs.a) if isinstance(o.outputs, Ref) else None
        full = st.facts.get("full", E) & ip.gobj(st).redir
        return isinstance(lo, ListO) and lo.items and not lo.open and all(x in full for x in lo.items)

    def value_stored(self, ip, st, b, k, v):
        self.note(ip, st, k)
        self.note(ip, st, v)

    def call_unknown(self, ip, st, fn, args):
        for a in args:
            self.note(ip, st, a)

    def graph_call(self, ip, st, name, args, kw, e):
        for a in list(args) + list(kw.values()):
            self.note(ip, st, a)

    def final_node(self, ip, st, addr, o):
        if o.removed is True or self.dead(ip, st, o):
            return
        u = set()
        l = st.heap.get(o.inputs.a) if isinstance(o.inputs, Ref) else None
        if isinstance(l, ListO):
            for x in l.items:
                u |= used_in(ip.frz(st, x), self.about)
            if l.open:
                u.add(-1)
        else:
            u.add(-1)
        for x in o.attrs.values():
            u |= used_in(ip.frz(st, x), self.about)
        r = st.facts.get("ud", E)
        if not u <= r:
            st.facts["ud"] = r | u

    def path_end(self, ip, st, v):
        u = set(st.facts.get("ud", E))
        for k, x in st.pc.items():
            u |= used_in(k if not (isinstance(k, tuple) and len(k) == 2) else k[1], self.about)
        k = (frozenset(u), not st.facts.get("joined") and not st.facts.get("zero"))
        self.paths[k] = self.paths.get(k, 0) + 1
