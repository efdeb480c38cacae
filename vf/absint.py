"""Abstract interpreter over the repository's Python source (never executes it).

Domain: constants, tuples, heap objects (lists, dicts, instances, ONNX nodes, graphs) and structural unknowns (Sym).
Unknown branch conditions partition the trace (bounded); equal partitions are merged at every statement, and above a
bound they are joined, which turns differing facts into unknowns.  Rules only report facts that are definite in a
partition; unknowns stay silent and are counted as undecided.
"""
import ast
import operator

from .project import (FuncInfo, ClassInfo, Module, Ext, Global, AnalysisBroken, dotted)


# ---------------------------------------------------------------- values
class Val:
    __slots__ = ()
    refs = ()      # heap addresses this value mentions


class Const(Val):
    __slots__ = ("v", "h")

    def __init__(self, v):
        self.v = v
        self.h = hash((type(v).__name__, v))

    def __eq__(self, o):
        return isinstance(o, Const) and type(o.v) is type(self.v) and o.v == self.v

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "%r" % (self.v,)


class OpsetC(Const):
    """the opset under analysis: comparisons against it are recorded, so that one run covers every opset of its cell"""
    __slots__ = ()


NONE = Const(None)
TRUE = Const(True)
FALSE = Const(False)


def refs_of(vals):
    """heap addresses mentioned by some values"""
    r = ()
    for v in vals:
        if isinstance(v, Val):
            x = v.refs
            if x and x != r:
                r = r + tuple(a for a in x if a not in r) if r else x
    return r


class Tup(Val):
    __slots__ = ("items", "h", "refs")

    def __init__(self, items):
        self.items = tuple(items)
        self.h = hash(("Tup", self.items))
        self.refs = refs_of(self.items)

    def __eq__(self, o):
        return isinstance(o, Tup) and o.h == self.h and o.items == self.items

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "(%s)" % ", ".join(map(repr, self.items))


class Ref(Val):
    __slots__ = ("a", "h", "refs")

    def __init__(self, a):
        self.a = a
        self.refs = (a,)
        self.h = hash(("Ref", a))

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "Ref%s" % (self.a,)


class Sym(Val):
    __slots__ = ("op", "args", "h", "size", "refs")

    def __init__(self, op, *args):
        self.op = op
        size = 1
        for a in args:
            size += a.size if isinstance(a, Sym) else 1
        if size > 60:
            args = ("#", hash((op,) + tuple(args)))
            size = 3
        self.args = args
        self.size = size
        self.h = hash((op, args))
        self.refs = refs_of(args)

    def __eq__(self, o):
        return self is o or (isinstance(o, Sym) and o.h == self.h and o.op == self.op and o.args == self.args)

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "%s(%s)" % (self.op, ",".join(map(repr, self.args)))


class FnV(Val):
    __slots__ = ("fi", "node", "mod", "fid", "h")

    def __init__(self, fi, node, mod, fid):
        self.fi, self.node, self.mod, self.fid = fi, node, mod, fid
        self.h = hash(("FnV", id(node), fid))

    def __eq__(self, o):
        return isinstance(o, FnV) and o.node is self.node and o.fid == self.fid

    def __hash__(self):
        return self.h

    def __repr__(self):
        return "Fn(%s)" % (self.fi.full if self.fi else "lambda@%d" % self.node.lineno)


class ClsV(Val):
    __slots__ = ("ci",)

    def __init__(self, ci):
        self.ci = ci

    def __eq__(self, o):
        return isinstance(o, ClsV) and o.ci is self.ci

    def __hash__(self):
        return hash(id(self.ci))

    def __repr__(self):
        return "Cls(%s)" % self.ci.full


class ModV(Val):
    __slots__ = ("m",)

    def __init__(self, m):
        self.m = m

    def __eq__(self, o):
        return isinstance(o, ModV) and o.m is self.m

    def __hash__(self):
        return hash(id(self.m))


class ExtV(Val):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return isinstance(o, ExtV) and o.name == self.name

    def __hash__(self):
        return hash(("ExtV", self.name))

    def __repr__(self):
        return "Ext(%s)" % self.name


class BM(Val):
    """bound project method"""
    __slots__ = ("recv", "fi", "refs")

    def __init__(self, recv, fi):
        self.recv, self.fi = recv, fi
        self.refs = recv.refs

    def __eq__(self, o):
        return isinstance(o, BM) and o.fi is self.fi and o.recv == self.recv

    def __hash__(self):
        return hash((id(self.fi), self.recv))


class BI(Val):
    """method `name` of a non-project value (list.append, Sym.foo, graph.make_node ...)"""
    __slots__ = ("recv", "name", "refs")

    def __init__(self, recv, name):
        self.recv, self.name = recv, name
        self.refs = recv.refs

    def __eq__(self, o):
        return isinstance(o, BI) and o.name == self.name and o.recv == self.recv

    def __hash__(self):
        return hash((self.name, self.recv))

    def __repr__(self):
        return "BI(%r.%s)" % (self.recv, self.name)


class PartV(Val):
    __slots__ = ("fn", "args", "kw", "refs")

    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, tuple(args), tuple(sorted(kw.items()))
        self.refs = refs_of((fn,) + self.args + tuple(v for _, v in self.kw))

    def __eq__(self, o):
        return isinstance(o, PartV) and (o.fn, o.args, o.kw) == (self.fn, self.args, self.kw)

    def __hash__(self):
        return hash((self.fn, self.args, self.kw))


# ---------------------------------------------------------------- heap objects (treated as immutable; replaced on write)
class Obj:
    fields = ()

    def __init__(self, **kw):
        for f in self.fields:
            setattr(self, f, kw[f])

    def clone(self, **kw):
        d = {f: getattr(self, f) for f in self.fields}
        d.update(kw)
        return type(self)(**d)

    def __eq__(self, o):
        if self is o:
            return True
        if type(self) is not type(o):
            return False
        for f in self.fields:
            a, b = getattr(self, f), getattr(o, f)
            if a is not b and a != b:
                return False
        return True

    def __ne__(self, o):
        return not self.__eq__(o)

    __hash__ = None


class ListO(Obj):
    fields = ("items", "open", "kind")   # kind: list|set ; open: unknown further elements

    def __repr__(self):
        return "ListO%s%s" % (list(self.items), "..." if self.open else "")


class DictO(Obj):
    fields = ("items", "may", "open")  # items: dict Val->Val ; may: frozenset of keys that may be absent

    def __repr__(self):
        return "DictO%s%s" % (self.items, "..." if self.open else "")


class InstO(Obj):
    fields = ("cls", "attrs")


class NodeO(Obj):
    # kind: 'tf' original node under conversion, 'new' made by the code, 'lift' some existing node
    fields = ("kind", "key", "type", "name", "attrs", "may", "open", "inputs", "outputs", "domain", "skip", "removed",
              "site", "graph", "meta")


class GraphO(Obj):
    fields = ("key", "opset", "dtypes", "shapes", "producers", "dead", "redir", "epoch", "parent", "meta")


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("frames", "heap", "pc", "facts", "alts")

    def __init__(self):
        self.frames = {}
        self.heap = {}
        self.pc = {}
        self.facts = {}
        self.alts = ()      # disjunctions of path conditions: what merged partitions knew apart

    def fork(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.heap = dict(self.heap)
        s.pc = dict(self.pc)
        s.facts = dict(self.facts)
        s.alts = self.alts
        return s


class Budget(Exception):
    pass


def pc_is_none(v):
    return ("none", v)


RET, BRK, CONT, EXC = "ret", "brk", "cont", "exc"

BINOPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
          ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod, ast.Pow: operator.pow,
          ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
          ast.LShift: operator.lshift, ast.RShift: operator.rshift}


class Interp:
    EXC_CAP = 4
    MAX_DEPTH = 14
    CAP = 24
    STEP_BUDGET = 1500000
    scale = 1       # raises the bounds above when a finding needs confirming on partitions that were never joined

    def __init__(self, proj, monitor=None, ext_consts=None):
        self.proj = proj
        self.mon = monitor
        self.ext_consts = ext_consts or {}
        self.fids = {}
        self.gcache = {}
        self.steps = 0
        self.joined = 0
        self.limited = False
        self.stack = []     # list of (fi, callsite node, mod)
        self.unknown_calls = {}

    # ------------------------------------------------ helpers
    def cap(self):
        n = self.steps / self.scale
        return int(self.scale * (self.CAP if n < 150000 else 10 if n < 300000 else 5 if n < 450000 else 2))

    def site(self, node):
        mod = self.cur_mod
        return (mod.rel if mod else "?", getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    @property
    def cur_mod(self):
        return self.modstack[-1]

    @property
    def cur_fi(self):
        return self.stack[-1][0] if self.stack else None

    def new_addr(self, st, kind, node, fid):
        base = (kind, id(node), fid)
        n = 0
        while (base + (n,)) in st.heap:
            n += 1
        return base + (n,)

    def alloc(self, st, kind, node, fid, obj):
        a = self.new_addr(st, kind, node, fid)
        st.heap[a] = obj
        return Ref(a)

    def mklist(self, st, node, fid, items, open_=False, kind="list"):
        return self.alloc(st, kind, node, fid, ListO(items=tuple(items), open=open_, kind=kind))

    def mkdict(self, st, node, fid, items, may=frozenset(), open_=False):
        return self.alloc(st, "dict", node, fid, DictO(items=dict(items), may=frozenset(may), open=open_))

    def obj(self, st, v):
        if isinstance(v, Ref):
            return st.heap.get(v.a)
        return None

    def res(self, st, v):
        """resolve a Sym through equality facts of this partition"""
        if isinstance(v, Sym):
            r = st.pc.get(("eq", v))
            if r is not None:
                return r
        return v

    def seq_items(self, st, v):
        """(items, closed) of a sequence value or None"""
        v = self.res(st, v)
        if isinstance(v, Tup):
            return v.items, True
        o = self.obj(st, v)
        if isinstance(o, ListO):
            return o.items, not o.open
        if isinstance(o, DictO):
            return tuple(o.items), not o.open and not o.may
        if isinstance(v, Const) and isinstance(v.v, str):
            return tuple(Const(c) for c in v.v), True
        if isinstance(v, Const) and isinstance(v.v, range):
            return tuple(Const(i) for i in v.v), True
        return None

    # ------------------------------------------------ truth
    def truth(self, st, v):
        """-> True/False/None"""
        v = self.res(st, v)
        if isinstance(v, Const):
            return bool(v.v)
        if isinstance(v, Tup):
            return bool(v.items)
        if isinstance(v, (FnV, ClsV, ModV, BM, BI, PartV)):
            return True
        if isinstance(v, ExtV):
            return True
        o = self.obj(st, v)
        if isinstance(o, ListO):
            if o.items:
                return True
            return None if o.open else False
        if isinstance(o, DictO):
            if any(k not in o.may for k in o.items):
                return True
            return None if (o.open or o.items) else False
        if isinstance(o, (InstO, NodeO, GraphO)):
            return True
        if isinstance(v, Sym):
            if v.op == "not":
                t = self.truth(st, v.args[0])
                return None if t is None else not t
            t = st.pc.get(v)
            if t is not None:
                return t
            if st.pc.get(pc_is_none(v)) is True:
                return False
            if v.op == "isnone":
                return st.pc.get(pc_is_none(v.args[0]))
            if v.op in ("uname", "concat", "fmt", "name", "port"):
                return True
            if v.op == "len" and st.pc.get(("min", v), 0) > 0:
                return True
            if v.op == "eq":
                d = st.pc.get(("dom", v.args[0]))
                if d is not None and isinstance(v.args[1], Const) and v.args[1] not in d:
                    return False
                d = st.pc.get(("not", v.args[0]))
                if d is not None and v.args[1] in d:
                    return False
                k = v.args[0]
                if isinstance(k, Sym) and k.op == "type" and isinstance(v.args[1], Const) and v.args[1].v not in ("Const", "ConstV2") and \
                        st.pc.get(Sym("isconst", k.args[0])) is True:
                    return False
            if v.op == "isconst":
                d = st.pc.get(("eq", Sym("type", v.args[0])))
                if d is not None:
                    return (d.v if isinstance(d, Const) else d) in ("Const", "ConstV2")
        return None

    def assume(self, st, v, b):
        """record that v is truthy/falsy; returns False if contradictory"""
        return self.assume1(st, v, b) and (not st.alts or self.propagate(st))

    def propagate(self, st):
        """drop the alternatives the path conditions refute; False if a disjunction has none left"""
        again = True
        while again:
            again = False
            keep = []
            for g in st.alts:
                live = []
                for alt in g:
                    sat = True
                    for k, val in alt:
                        cur = st.pc.get(k)
                        if cur is None and isinstance(k, Sym):
                            cur = self.truth(st, k)
                        if cur is None:
                            sat = False
                        elif cur != val:
                            break
                    else:
                        if sat:
                            live = None     # holds already
                            break
                        live.append(alt)
                if live is None:
                    continue
                if not live:
                    return False
                if len(live) == 1:
                    for k, val in live[0]:
                        st.pc.setdefault(k, val)
                    again = True
                else:
                    keep.append(frozenset(live) if len(live) < len(g) else g)
            st.alts = tuple(keep)
        return True

    @staticmethod
    def merge_pcs(t, states):
        """t.pc and t.alts become what the states have in common, plus the disjunction of what they have apart"""
        common = dict(states[0].pc)
        alts = list(states[0].alts)
        for s in states[1:]:
            common = {k: v for k, v in common.items() if s.pc.get(k) == v}
            alts = [g for g in alts if g in s.alts or any(all(s.pc.get(k) == val for k, val in alt) for alt in g)]
        lits = set()
        if len(states) <= 8:
            for s in states:
                d = frozenset((k, v) for k, v in s.pc.items() if k not in common and (isinstance(k, Sym) and isinstance(v, bool) or
                                                                                     isinstance(k, tuple) and k[0] in ("eq", "none")))
                if not d or len(d) > 40:
                    lits = None
                    break
                lits.add(d)
            if lits and len(lits) > 1:
                alts.append(frozenset(lits))
        if len(states) > 8 or len(alts) > 8 or lits is None and not any(len(s.pc) == len(common) for s in states):
            t.facts["blurred"] = 1      # some condition was forgotten, beyond what any one of the states knew
        t.pc = common
        t.alts = tuple(alts[-8:])

    def assume1(self, st, v, b):
        t = self.truth(st, v)
        if t is not None:
            return t == b
        if isinstance(v, Sym):
            if v.op == "not":
                return self.assume(st, v.args[0], not b)
            if v.op == "and" and b:
                for a in v.args:
                    if not self.assume(st, a, True):
                        return False
                st.pc[v] = True
                return True
            if v.op == "or" and not b:
                for a in v.args:
                    if not self.assume(st, a, False):
                        return False
                st.pc[v] = False
                return True
            st.pc[v] = b
            if v.op == "isnone":
                st.pc[pc_is_none(v.args[0])] = b
                if b:
                    st.pc[("eq", v.args[0])] = NONE
            elif v.op == "eq" and b and isinstance(v.args[1], Const) and isinstance(v.args[0], Sym):
                st.pc[("eq", v.args[0])] = v.args[1]
            elif v.op == "in" and b and isinstance(v.args[1], Tup) and all(isinstance(x, Const) for x in v.args[1].items):
                d = st.pc.get(("dom", v.args[0]))
                st.pc[("dom", v.args[0])] = frozenset(v.args[1].items) if d is None else d & frozenset(v.args[1].items)
            elif v.op == "in" and not b and isinstance(v.args[1], Tup) and all(isinstance(x, Const) for x in v.args[1].items):
                st.pc[("not", v.args[0])] = frozenset(v.args[1].items) | st.pc.get(("not", v.args[0]), frozenset())
                if ("dom", v.args[0]) in st.pc:
                    st.pc[("dom", v.args[0])] -= frozenset(v.args[1].items)
            elif v.op == "isinstance" and b and isinstance(v.args[0], Sym):
                st.pc[pc_is_none(v.args[0])] = False
            elif b and v.op not in ("eq", "lt", "in", "isinstance"):
                st.pc[pc_is_none(v)] = False
        elif isinstance(v, Ref):
            st.pc[("t", v)] = b
        return True

    def split(self, st, v):
        """-> list of (state, bool)"""
        t = self.truth(st, v)
        if t is None and isinstance(v, Ref):
            t = st.pc.get(("t", v)) if False else None
        if t is not None:
            return [(st, t)]
        a, b = st, st.fork()
        out = []
        if self.assume(a, v, True):
            out.append((a, True))
        if self.assume(b, v, False):
            out.append((b, False))
        return out

    # ------------------------------------------------ compare
    def eq(self, st, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                return Const(bool(a.v == b.v))
            except Exception:
                return Sym("eq", a, b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Sym) and isinstance(y, Const) and isinstance(y.v, int) and st.pc.get(("min", x), -10 ** 9) > y.v:
                return FALSE
        if a == b and not isinstance(a, Sym):
            return TRUE
        if a == b:
            return TRUE
        sa, sb = self.seq_items(st, a), self.seq_items(st, b)
        if sa and sb and not isinstance(a, Const) and not isinstance(b, Const) and sa[1] and sb[1]:
            if len(sa[0]) != len(sb[0]):
                return FALSE
            rs = [self.eq(st, x, y) for x, y in zip(sa[0], sb[0])]
            if any(r == FALSE for r in rs):
                return FALSE
            if all(r == TRUE for r in rs):
                return TRUE
            return Sym("eq", self.frz(st, a), self.frz(st, b))
        if isinstance(a, Const) and (isinstance(b, (Tup, FnV, ClsV, ModV, BM)) or self.obj(st, b) is not None):
            return FALSE
        if isinstance(b, Const) and (isinstance(a, (Tup, FnV, ClsV, ModV, BM)) or self.obj(st, a) is not None):
            return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref) and a != b:
            oa, ob = self.obj(st, a), self.obj(st, b)
            if isinstance(oa, NodeO) and isinstance(ob, NodeO) and oa.kind == "new" and ob.kind == "new":
                return FALSE
        if isinstance(a, Const):
            a, b = b, a
        elif not isinstance(b, Const) and hash(b) < hash(a):
            a, b = b, a
        s = Sym("eq", self.frz(st, a), self.frz(st, b))
        if isinstance(b, Const):
            d = st.pc.get(("dom", a))
            if d is not None and b not in d:
                return FALSE
            d = st.pc.get(("not", a))
            if d is not None and b in d:
                return FALSE
            if b == NONE:
                s = Sym("isnone", a)
            # names freshly generated never equal a literal
            if isinstance(a, Sym) and (a.op == "uname" or a.op in ("out", "port") and b.v == ""):
                return FALSE
        t = self.truth(st, s)
        return s if t is None else Const(t)

    def frz(self, st, v, depth=0):
        """structural snapshot of a value (containers by content)"""
        v = self.res(st, v)
        if type(v) is OpsetC:
            self.opset_exact = True
        if isinstance(v, Ref) and depth < 4:
            o = st.heap.get(v.a)
            if isinstance(o, ListO):
                t = Tup([self.frz(st, x, depth + 1) for x in o.items])
                return Sym("openlist", v, t) if o.open else t
            if isinstance(o, DictO):
                return Sym("dict", v, Tup([Tup([k, self.frz(st, x, depth + 1)]) for k, x in o.items.items()]))
        if isinstance(v, Tup):
            return Tup([self.frz(st, x, depth + 1) for x in v.items])
        return v

    def opset_compare(self, op, a, b):
        x, flip = (b, False) if type(a) is OpsetC else (a, True)
        if isinstance(op, (ast.Is, ast.IsNot)) or x == NONE:
            return
        if not (isinstance(x, Const) and isinstance(x.v, int)) or type(x) is OpsetC:
            self.opset_exact = True
            return
        c = x.v
        if isinstance(op, (ast.Eq, ast.NotEq)):
            self.opset_bounds.update((c, c + 1))
        elif isinstance(op, (ast.Lt, ast.GtE)) != flip:
            self.opset_bounds.add(c)
        else:
            self.opset_bounds.add(c + 1)

    def compare(self, st, op, a, b):
        a, b = self.res(st, a), self.res(st, b)
        if type(a) is OpsetC or type(b) is OpsetC:
            if isinstance(op, (ast.In, ast.NotIn)):
                self.opset_exact = True
            else:
                self.opset_compare(op, a, b)
        if isinstance(op, ast.Eq):
            return self.eq(st, a, b)
        if isinstance(op, ast.NotEq):
            return self.neg(st, self.eq(st, a, b))
        if isinstance(op, (ast.Is, ast.IsNot)):
            r = self.is_(st, a, b)
            return r if isinstance(op, ast.Is) else self.neg(st, r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(st, b, a)
            return r if isinstance(op, ast.In) else self.neg(st, r)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                f = {ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt, ast.GtE: operator.ge}[type(op)]
                return Const(bool(f(a.v, b.v)))
            except Exception:
                return Sym("cmp", type(op).__name__, a, b)
        a, b = self.frz(st, a), self.frz(st, b)
        for x, y, flip in ((a, b, False), (b, a, True)):
            lo = st.pc.get(("min", x)) if isinstance(x, Sym) else None
            if lo is not None and isinstance(y, Const) and isinstance(y.v, int):
                k = type(op)
                if flip:
                    k = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[k]
                if k is ast.Lt and y.v <= lo or k is ast.LtE and y.v < lo:
                    return FALSE
                if k is ast.Gt and y.v < lo or k is ast.GtE and y.v <= lo:
                    return TRUE
        if isinstance(op, ast.Lt):
            s, n = Sym("lt", a, b), False
        elif isinstance(op, ast.Gt):
            s, n = Sym("lt", b, a), False
        elif isinstance(op, ast.LtE):
            s, n = Sym("lt", b, a), True
        else:
            s, n = Sym("lt", a, b), True
        t = self.truth(st, s)
        if t is not None:
            return Const(t != n)
        return Sym("not", s) if n else s

    def neg(self, st, v):
        t = self.truth(st, v)
        if t is not None:
            return Const(not t)
        if isinstance(v, Sym) and v.op == "not":
            return v.args[0]
        return Sym("not", v)

    def is_(self, st, a, b):
        if b == NONE or a == NONE:
            x = a if b == NONE else b
            if isinstance(x, Const):
                return Const(x.v is None)
            if not isinstance(x, Sym):
                return FALSE
            if x.op in ("uname", "fmt", "concat", "out", "in", "len", "np", "name"):
                return FALSE
            t = st.pc.get(pc_is_none(x))
            if t is None and st.pc.get(x) is True:
                t = False
            if t is not None:
                return Const(t)
            return Sym("isnone", x)
        if isinstance(a, Const) and isinstance(b, Const):
            return Const(a == b)
        if a == b:
            return TRUE
        return Sym("is", a, b)

    def contains(self, st, cont, x):
        cont, x = self.res(st, cont), self.res(st, x)
        if isinstance(cont, Const) and isinstance(cont.v, str):
            if isinstance(x, Const) and isinstance(x.v, str):
                return Const(x.v in cont.v)
            return Sym("in", self.frz(st, x), cont)
        o = self.obj(st, cont)
        if isinstance(o, DictO):
            if x in o.items and x not in o.may:
                return TRUE
            if isinstance(x, Const) and x not in o.items and not o.open and all(isinstance(k, Const) for k in o.items):
                return FALSE
            if o.open or o.may or not all(isinstance(k, Const) for k in o.items):
                s = Sym("in", self.frz(st, x), cont)
                t = self.truth(st, s)
                return s if t is None else Const(t)
            cont = Tup(tuple(sorted(o.items, key=repr)))
        si = self.seq_items(st, cont)
        if si is not None:
            items, closed = si
            und = []
            for it in items:
                r = self.eq(st, it, x)
                t = self.truth(st, r)
                if t is True:
                    return TRUE
                if t is None:
                    und.append(it)
            if not und and closed:
                return FALSE
            s = Sym("in", self.frz(st, x), self.frz(st, cont))
            if closed and all(isinstance(i, Const) for i in items):
                d = st.pc.get(("dom", x))
                if d is not None:
                    if d <= frozenset(items):
                        return TRUE
                    if not (d & frozenset(items)):
                        return FALSE
                s = Sym("in", self.frz(st, x), Tup(items))
            t = self.truth(st, s)
            return s if t is None else Const(t)
        s = Sym("in", self.frz(st, x), self.frz(st, cont))
        t = self.truth(st, s)
        return s if t is None else Const(t)

    # ------------------------------------------------ expression evaluation: -> list of (state, value)
    def eval(self, e, st, fid):
        self.steps += 1
        if self.steps > self.STEP_BUDGET * self.scale:
            self.limited = True
            raise Budget()
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return [(st, Sym("expr", type(e).__name__, self.site(e)))]
        return m(e, st, fid)

    def eval_many(self, es, st, fid):
        res = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in res:
                if isinstance(e, ast.Starred):
                    for s2, v in self.eval(e.value, s, fid):
                        si = self.seq_items(s2, v)
                        if si is not None and si[1]:
                            nxt.append((s2, vs + list(si[0])))
                        else:
                            nxt.append((s2, vs + [Sym("star", self.frz(s2, v))]))
                else:
                    for s2, v in self.eval(e, s, fid):
                        nxt.append((s2, vs + [v]))
            res = nxt
        return res

    def e_Constant(self, e, st, fid):
        v = e.value
        if isinstance(v, bytes):
            try:
                v = v.decode()
            except Exception:
                return [(st, Sym("bytes", self.site(e)))]
        if v is Ellipsis:
            return [(st, Sym("ellipsis"))]
        return [(st, Const(v))]

    def e_JoinedStr(self, e, st, fid):
        parts = [p.value if isinstance(p, ast.FormattedValue) else p for p in e.values]
        out = []
        for s, vs in self.eval_many(parts, st, fid):
            if all(isinstance(v, Const) for v in vs):
                out.append((s, Const("".join(str(v.v) for v in vs))))
            else:
                out.append((s, Sym("fmt", *vs)))
        return out

    def e_Name(self, e, st, fid):
        return [(st, self.lookup(e.id, st, fid, e))]

    def lookup(self, name, st, fid, e=None):
        f = fid
        while f is not None:
            env = st.frames.get(f)
            if env is not None and name in env:
                return env[name]
            f = self.fparent.get(f)
        if e is not None and self.mon is not None:
            fi = self.cur_fi
            if fi is not None and name in fi.locals():
                self.mon.unbound_local(self, st, name, e)
                return Sym("unk", "unbound " + name)
        return self.lookup_global(self.cur_mod, name, st)

    def lookup_global(self, mod, name, st):
        r = self.proj.member(mod.name, name)
        if r is None:
            if name in ("True", "False", "None"):
                return Const({"True": True, "False": False, "None": None}[name])
            return ExtV("builtins." + name)
        return self.wrap(r, st)

    def wrap(self, r, st):
        if isinstance(r, FuncInfo):
            return FnV(r, r.node, r.mod, None)
        if isinstance(r, ClassInfo):
            return ClsV(r)
        if isinstance(r, Module):
            return ModV(r)
        if isinstance(r, Ext):
            return self.ext(r.name)
        if isinstance(r, Global):
            return self.global_value(r.mod, r.name, st)
        return Sym("unk", str(r))

    def ext(self, name):
        c = self.ext_consts.get(name)
        if c is None:
            tail = name.rsplit(".", 2)
            if len(tail) >= 2:
                c = self.ext_consts.get(".".join(tail[-2:]))
        if c is not None:
            return Const(c)
        return ExtV(name)

    def global_value(self, mod, name, st):
        key = (mod.name, name)
        if key not in self.gcache:
            self.gcache[key] = None
            self.gcache[key] = self._global_eval(mod, name)
        ent = self.gcache[key]
        if ent is None:
            return Sym("global", mod.name, name)
        v, heap = ent
        for a, o in heap.items():
            if a not in st.heap:
                st.heap[a] = o
        return v

    def _global_eval(self, mod, name):
        binds = [b for b in mod.defs[name] if isinstance(b, (ast.Assign, ast.AnnAssign))]
        if len(mod.defs[name]) != 1 or not binds or binds[0].value is None:
            # several module-level bindings: only the last plain assign counts if all are Assign
            if not binds or any(not isinstance(b, (ast.Assign, ast.AnnAssign)) for b in mod.defs[name]) or binds[-1].value is None:
                return None
        b = binds[-1]
        if isinstance(b, ast.Assign) and not (len(b.targets) == 1 and isinstance(b.targets[0], ast.Name)):
            return None
        # evaluate intermediate self-referencing bindings (X = f(X)) in order
        st = State()
        gf = ("g", mod.name, name)
        self.fparent.setdefault(gf, None)
        st.frames[gf] = {}
        self.modstack.append(mod)
        saved = self.steps
        self.steps = 0
        try:
            v = None
            for bb in binds:
                rs = self.eval(bb.value, st, gf)
                if len(rs) != 1:
                    return None
                st, v = rs[0]
                st.frames[gf][name] = v
            heap = {}
            for a, o in st.heap.items():
                heap[a] = o
            return v, heap
        except Budget:
            return None
        finally:
            self.steps = saved
            self.modstack.pop()

    def e_Attribute(self, e, st, fid):
        out = []
        for s, b in self.eval(e.value, st, fid):
            out.extend(self.getattr(s, self.res(s, b), e.attr, e, fid))
        return out

    def getattr(self, st, b, name, e, fid):
        """-> list of (state, value)"""
        if isinstance(b, ModV):
            r = self.proj.member(b.m.name, name)
            if r is None:
                if self.mon:
                    self.mon.missing_member(self, st, b.m, name, e)
                return [(st, Sym("missing", b.m.name, name))]
            return [(st, self.wrap(r, st))]
        if isinstance(b, ExtV):
            full = b.name + "." + name
            if full in self.proj.modules:
                return [(st, ModV(self.proj.modules[full]))]
            return [(st, self.ext(full))]
        if isinstance(b, ClsV):
            return self.class_attr(st, b.ci, b, name, e, fid)
        o = self.obj(st, b)
        if isinstance(o, InstO):
            if name in o.attrs:
                return [(st, o.attrs[name])]
            if name == "__class__":
                return [(st, ClsV(o.cls))]
            fi = o.cls.find(name)
            if fi is not None:
                if fi.kind == "property":
                    return self.call_function(fi, None, [b], {}, st, e, fid)
                if fi.kind == "static":
                    return [(st, FnV(fi, fi.node, fi.mod, None))]
                if fi.kind == "class":
                    return [(st, BM(ClsV(o.cls), fi))]
                return [(st, BM(b, fi))]
            fa = o.cls.find_assign(name)
            if fa is not None:
                return self.class_attr(st, o.cls, ClsV(o.cls), name, e, fid)
            return [(st, Sym("field", b, name))]
        if isinstance(o, NodeO):
            return self.node_attr(st, b, o, name, e, fid)
        if isinstance(o, GraphO):
            return self.graph_attr(st, b, o, name, e, fid)
        if isinstance(o, (ListO, DictO)) or isinstance(b, (Const, Tup)):
            if self.mon is not None:
                t = list if isinstance(o, ListO) else dict if isinstance(o, DictO) else tuple if isinstance(b, Tup) else type(b.v)
                if not hasattr(t, name) and t is not type(None) and t is not dict and not (t is list and hasattr(set, name)):   # sets are lists here
                    self.mon.missing_attr(self, st, t.__name__, name, e)
            return [(st, BI(b, name))]
        if isinstance(b, Sym):
            if self.mon is not None and b.op == "getattr" and b.args[1] in ("min", "max", "bits") and not hasattr(int, name) and \
                    isinstance(b.args[0], Sym) and b.args[0].op == "call" and b.args[0].args[0] == "numpy.iinfo":
                self.mon.missing_attr(self, st, "int", name, e)
            return self.sym_attr(st, b, name, e, fid)
        if isinstance(b, FnV) and name == "__name__":
            return [(st, Const(b.fi.node.name if b.fi else "<lambda>"))]
        return [(st, Sym("getattr", b, name))]

    def class_attr(self, st, ci, recv, name, e, fid):
        fi = ci.find(name)
        if fi is not None:
            if fi.kind == "class":
                return [(st, BM(recv, fi))]
            return [(st, FnV(fi, fi.node, fi.mod, None))]
        fa = ci.find_assign(name)
        if fa is not None:
            c, expr = fa
            key = ("cls", c.full, name)
            if key not in self.gcache:
                self.gcache[key] = None
                self.class_body(c)
            ent = self.gcache[key]
            if ent is None:
                return [(st, Sym("clsattr", ci.full, name))]
            for a, o in ent[1].items():
                st.heap.setdefault(a, o)
            return [(st, ent[0])]
        if name == "__name__":
            return [(st, Const(ci.node.name))]
        if self.mon and not ci.has_external_base() and not name.startswith("__"):
            self.mon.missing_attr(self, st, ci, name, e)
        return [(st, Sym("clsattr", ci.full, name))]

    def class_body(self, c):
        """the names a class body binds, once its statements have run in order"""
        st = State()
        gf = ("c", c.full)
        self.fparent.setdefault(gf, None)
        st.frames[gf] = {}
        body = [x for x in c.node.body if not isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef))
                and not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        self.modstack.append(c.mod)
        mon, self.mon = self.mon, None
        try:
            sts = [st]
            for x in body:
                outs = self.exec_block([x], sts, gf, None)
                if len(outs) != 1 or outs[0][1] is not None:
                    return
                sts = [outs[0][0]]
        finally:
            self.mon = mon
            self.modstack.pop()
        for n, v in sts[0].frames[gf].items():
            self.gcache[("cls", c.full, n)] = (v, dict(sts[0].heap))

    # hooks for the graph model (overridden)
    def node_attr(self, st, b, o, name, e, fid):
        return [(st, BI(b, name))]

    def graph_attr(self, st, b, o, name, e, fid):
        return [(st, BI(b, name))]

    def sym_attr(self, st, b, name, e, fid):
        return [(st, Sym("getattr", b, name))]

    def e_Subscript(self, e, st, fid):
        out = []
        for s, b in self.eval(e.value, st, fid):
            if isinstance(e.slice, ast.Slice):
                for s2, v in self.eval_slice(e.slice, s, fid):
                    out.append((s2, self.do_slice(s2, self.res(s2, b), v, e, fid)))
            else:
                for s2, k in self.eval(e.slice, s, fid):
                    out.extend(self.subscript(s2, self.res(s2, b), self.res(s2, k), e, fid))
        return out

    def eval_slice(self, sl, st, fid):
        parts = [p if p is not None else ast.Constant(value=None) for p in (sl.lower, sl.upper, sl.step)]
        for p in parts:
            if not hasattr(p, "lineno"):
                p.lineno, p.col_offset = 0, 0
        return self.eval_many(parts, st, fid)

    def do_slice(self, st, b, parts, e, fid):
        si = self.seq_items(st, b)
        if si is not None and not si[1] and all(isinstance(p, Const) for p in parts):
            items = si[0]
            lo, hi, step = ([p.v for p in parts] + [None, None, None])[:3] if len(parts) == 3 else (None, None, 2)
            src = Sym("slice", self.frz(st, b), *parts)
            if step in (None, 1) and (lo is None or (isinstance(lo, int) and lo >= 0)):
                lo = lo or 0
                if hi is None:
                    return self.mklist(st, e, fid, items[lo:], src)
                if isinstance(hi, int) and hi >= 0:
                    if hi <= len(items):
                        return self.mklist(st, e, fid, items[lo:hi])
                    return self.mklist(st, e, fid, items[lo:], src)
                if isinstance(hi, int):
                    return self.mklist(st, e, fid, items[lo:hi], src)
        if si is not None and si[1] and all(isinstance(p, Const) for p in parts):
            try:
                r = si[0][slice(*[p.v for p in parts])]
            except Exception:
                return Sym("slice", self.frz(st, b), *parts)
            if isinstance(b, Tup):
                return Tup(r)
            if isinstance(b, Const):
                return Const(b.v[slice(*[p.v for p in parts])])
            return self.mklist(st, e, fid, r)
        return Sym("slice", self.frz(st, b), *[self.frz(st, p) for p in parts])

    def subscript(self, st, b, k, e, fid):
        o = self.obj(st, b)
        if isinstance(o, DictO):
            if k in o.items:
                if k in o.may:
                    pass
                return [(st, o.items[k])]
            if isinstance(k, Const) and not o.open and all(isinstance(x, Const) for x in o.items):
                if self.mon:
                    self.mon.key_error(self, st, b, k, e)
                return []
            d = st.pc.get(("dom", k)) if isinstance(k, Sym) else None
            if d and not o.open and not o.may and all(isinstance(x, Const) for x in o.items) and d <= set(o.items):
                groups = {}
                for x in sorted(d, key=repr):
                    groups.setdefault(o.items[x], []).append(x)
                if len(groups) <= 4 and all(isinstance(v, Const) for v in groups):
                    out = []        # the key is one of a few: one state per value it may select
                    for v, ks in groups.items():
                        s2 = st if len(groups) == 1 else st.fork()
                        s2.pc[("dom", k)] = frozenset(ks)
                        if len(ks) == 1:
                            s2.pc[("eq", k)] = ks[0]
                        out.append((s2, v))
                    return out
            return [(st, Sym("item", self.frz(st, b) if not o.items else b, k))]
        si = self.seq_items(st, b)
        if si is not None and isinstance(k, Const) and isinstance(k.v, int) and not isinstance(k.v, bool):
            items, closed = si
            i = k.v
            if closed:
                if -len(items) <= i < len(items):
                    return [(st, items[i])]
                return []      # IndexError
            if 0 <= i < len(items):
                return [(st, items[i])]
            return [(st, Sym("item", b, k))]
        if isinstance(b, Sym):
            return self.sym_item(st, b, k, e, fid)
        return [(st, Sym("item", b, self.frz(st, k)))]

    def sym_item(self, st, b, k, e, fid):
        return [(st, Sym("item", b, self.frz(st, k)))]

    def e_List(self, e, st, fid):
        return [(s, self.mklist_star(s, e, fid, vs)) for s, vs in self.eval_many(e.elts, st, fid)]

    def mklist_star(self, st, e, fid, vs, kind="list"):
        if any(isinstance(v, Sym) and v.op == "star" for v in vs):
            keep = []
            for v in vs:
                if isinstance(v, Sym) and v.op == "star":
                    break
                keep.append(v)
            return self.mklist(st, e, fid, keep, True, kind)
        return self.mklist(st, e, fid, vs, False, kind)

    def e_Set(self, e, st, fid):
        return [(s, self.mklist_star(s, e, fid, vs, "set")) for s, vs in self.eval_many(e.elts, st, fid)]

    def e_Tuple(self, e, st, fid):
        out = []
        for s, vs in self.eval_many(e.elts, st, fid):
            if any(isinstance(v, Sym) and v.op == "star" for v in vs):
                out.append((s, Sym("tuple", *[self.frz(s, v) for v in vs])))
            else:
                out.append((s, Tup(vs)))
        return out

    def e_Dict(self, e, st, fid):
        res = [(st, [], False)]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for s, items, op in res:
                if k is None:
                    for s2, d in self.eval(v, s, fid):
                        o = self.obj(s2, d)
                        if isinstance(o, DictO):
                            nxt.append((s2, items + [(kk, vv, kk in o.may) for kk, vv in o.items.items()], op or o.open))
                        else:
                            nxt.append((s2, items, True))
                else:
                    for s2, kv in self.eval(k, s, fid):
                        for s3, vv in self.eval(v, s2, fid):
                            nxt.append((s3, items + [(self.res(s3, kv), vv, False)], op))
            res = nxt
        out = []
        for s, items, op in res:
            d, may = {}, set()
            for k, v, m in items:
                if k not in d or not m:
                    d[k] = v
                if m:
                    may.add(k)
                else:
                    may.discard(k)
            out.append((s, self.mkdict(s, e, fid, d, may, op)))
        return out

    def e_BinOp(self, e, st, fid):
        out = []
        for s, (a, b) in [(s, vs) for s, vs in self.eval_many([e.left, e.right], st, fid)]:
            out.append((s, self.binop(s, e.op, self.res(s, a), self.res(s, b), e, fid)))
        return out

    def binop(self, st, op, a, b, e, fid):
        if type(a) is OpsetC or type(b) is OpsetC:
            self.opset_exact = True
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                r = BINOPS[type(op)](a.v, b.v)
                if isinstance(r, str) and len(r) > 4000:
                    return Sym("str", self.site(e))
                return Const(r)
            except Exception:
                return Sym("binop", type(op).__name__, a, b)
        if isinstance(op, ast.Add):
            sa, sb = self.seq_items(st, a), self.seq_items(st, b)
            oa = self.obj(st, a)
            if sa and sb and not isinstance(a, Const):
                if isinstance(a, Tup) and isinstance(b, Tup):
                    return Tup(sa[0] + sb[0])
                if isinstance(oa, ListO):
                    if sa[1]:
                        return self.mklist(st, e, fid, sa[0] + sb[0], not sb[1])
                    return self.mklist(st, e, fid, sa[0], True)
            if isinstance(oa, ListO):
                return self.mklist(st, e, fid, oa.items, True)
            if isinstance(self.obj(st, b), ListO):
                return self.mklist(st, e, fid, (), True)
            if self.mon is not None:
                self.mon.addition(self, st, a, b, e)
            if isinstance(a, Const) and isinstance(a.v, str) or isinstance(b, Const) and isinstance(b.v, str):
                return Sym("concat", self.frz(st, a), self.frz(st, b))
        if isinstance(op, ast.Mult):
            for x, y in ((a, b), (b, a)):
                si = self.seq_items(st, x) if not isinstance(x, Const) else None
                if si and isinstance(self.obj(st, x), ListO):
                    if isinstance(y, Const) and isinstance(y.v, int) and y.v < 50 and si[1]:
                        return self.mklist(st, e, fid, si[0] * y.v)
                    return self.mklist(st, e, fid, (), True)
        if isinstance(op, ast.Mod) and isinstance(a, Const) and isinstance(a.v, str):
            return Sym("fmt", a, self.frz(st, b))
        return Sym("binop", type(op).__name__, self.frz(st, a), self.frz(st, b))

    def e_UnaryOp(self, e, st, fid):
        out = []
        for s, v in self.eval(e.operand, st, fid):
            v = self.res(s, v)
            if isinstance(e.op, ast.Not):
                out.append((s, self.neg(s, v)))
            elif isinstance(v, Const):
                try:
                    f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)]
                    out.append((s, Const(f(v.v))))
                except Exception:
                    out.append((s, Sym("unary", type(e.op).__name__, v)))
            else:
                out.append((s, Sym("unary", type(e.op).__name__, self.frz(s, v))))
        return out

    def e_BoolOp(self, e, st, fid):
        is_and = isinstance(e.op, ast.And)
        live = [(st, None)]
        done = []
        n = len(e.values)
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in live:
                for s2, v in self.eval(x, s, fid):
                    if i == n - 1:
                        done.append((s2, v))
                        continue
                    for s3, t in self.split(s2, v):
                        if t == is_and:
                            nxt.append((s3, None))
                        else:
                            done.append((s3, v if self.truth(s3, v) is not None and not isinstance(v, Sym) else
                                         (Const(t) if self._boolish(v) else self.res(s3, v))))
            live = nxt
        return done

    @staticmethod
    def _boolish(v):
        return isinstance(v, Sym) and v.op in ("eq", "not", "in", "lt", "isnone", "is", "isinstance", "and", "or", "any", "all")

    def e_Compare(self, e, st, fid):
        out = []
        for s, vs in self.eval_many([e.left] + e.comparators, st, fid):
            if len(vs) == 2:
                out.append((s, self.compare(s, e.ops[0], vs[0], vs[1])))
            else:
                rs = [self.compare(s, op, vs[i], vs[i + 1]) for i, op in enumerate(e.ops)]
                ts = [self.truth(s, r) for r in rs]
                if False in ts:
                    out.append((s, FALSE))
                elif all(t is True for t in ts):
                    out.append((s, TRUE))
                else:
                    out.append((s, Sym("and", *rs)))
        return out

    def e_IfExp(self, e, st, fid):
        out = []
        for s, c in self.eval(e.test, st, fid):
            for s2, t in self.split(s, c):
                out.extend(self.eval(e.body if t else e.orelse, s2, fid))
        return out

    def e_Lambda(self, e, st, fid):
        return [(st, FnV(None, e, self.cur_mod, fid))]

    def e_Starred(self, e, st, fid):
        return self.eval(e.value, st, fid)

    def e_NamedExpr(self, e, st, fid):
        out = []
        for s, v in self.eval(e.value, st, fid):
            self.assign(e.target, v, s, fid)
            out.append((s, v))
        return out

    def e_Await(self, e, st, fid):
        return self.eval(e.value, st, fid)

    def e_ListComp(self, e, st, fid):
        return self.comp(e, st, fid, "list")

    def e_SetComp(self, e, st, fid):
        return self.comp(e, st, fid, "set")

    def e_GeneratorExp(self, e, st, fid):
        return self.comp(e, st, fid, "list")

    def e_DictComp(self, e, st, fid):
        return self.comp(e, st, fid, "dict")

    def comp(self, e, st, fid, kind):
        # comprehension variables live in the same frame under their own names (shadowing restored after)
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        saved = {n: st.frames[fid].get(n) for n in names}
        # each live: (state, collected, open)
        res = self._comp_gen(e, 0, st, fid, kind)
        out = []
        for s, items, op in res:
            env = s.frames[fid]
            for n in names:
                if saved[n] is None:
                    env.pop(n, None)
                else:
                    env[n] = saved[n]
            if kind == "dict":
                d = {}
                for k, v in items:
                    d[k] = v
                out.append((s, self.mkdict(s, e, fid, d, frozenset(), op)))
            else:
                out.append((s, self.mklist(s, e, fid, items, op, kind)))
        if len(out) > self.cap():
            out = self.join_vals(out, e, fid)
        return out

    def _comp_gen(self, e, gi, st, fid, kind):
        g = e.generators[gi]
        out = []
        for s, it in self.eval(g.iter, st, fid):
            itk, closed = self.iter_elems(s, it, g, fid)
            live = [(s, [], False)]
            if itk is not None and len(itk) <= 24 and closed:
                for x in itk:
                    nxt = []
                    for s1, acc, op in live:
                        for s2, got, op2 in self._comp_one(e, gi, s1, fid, kind, g, x):
                            nxt.append((s2, acc + got, op or op2))
                    live = nxt
                    if len(live) > 16:
                        # too many partitions of element filters: keep one, as an open collection
                        s2 = live[0][0]
                        s2.pc = self.common_pc([l[0] for l in live])
                        live = [(s2, [], True)]
                out.extend(live)
            else:
                if itk:
                    for x in itk[:4]:
                        nxt = []
                        for s1, acc, op in live:
                            for s2, got, op2 in self._comp_one(e, gi, s1, fid, kind, g, x):
                                nxt.append((s2, acc + got, op or op2))
                        live = nxt[:6]
                    out.extend((s1, acc, True) for s1, acc, op in live)
                    continue
                el = self.elem_of(s, it, g)
                s1 = s.fork()
                got = self._comp_one(e, gi, s1, fid, kind, g, el)
                # element events were observed; result is an open collection
                elt = None
                for s2, gg, _ in got:
                    if gg:
                        elt = gg[0]
                if kind == "dict":
                    out.append((s, [], True))
                else:
                    key = Sym("comp", self.site(e), self.frz(s, it))
                    out.append((s, [], True))
        return out

    def _comp_one(self, e, gi, st, fid, kind, g, x):
        self.assign(g.target, x, st, fid)
        live = [st]
        done = []
        for c in g.ifs:
            nxt = []
            for s in live:
                for s2, v in self.eval(c, s, fid):
                    for s3, t in self.split(s2, v):
                        if t:
                            nxt.append(s3)
                        else:
                            done.append((s3, [], False))
            live = nxt
        for s in live:
            if gi + 1 < len(e.generators):
                done.extend(self._comp_gen(e, gi + 1, s, fid, kind))
            elif kind == "dict":
                for s2, vs in self.eval_many([e.key, e.value], s, fid):
                    done.append((s2, [(self.res(s2, vs[0]), vs[1])], False))
            else:
                for s2, v in self.eval(e.elt, s, fid):
                    done.append((s2, [v], False))
        return done

    def common_pc(self, states):
        pc = dict(states[0].pc)
        for s in states[1:]:
            for k in list(pc):
                if s.pc.get(k) != pc[k]:
                    del pc[k]
        return pc

    def iter_elems(self, st, it, node, fid):
        """elements of an iterable: (list or None, closed)"""
        it = self.res(st, it)
        si = self.seq_items(st, it)
        if si is not None:
            return list(si[0]), si[1]
        return None, False

    def elem_of(self, st, it, node, n=0):
        o = self.obj(st, it)
        if isinstance(o, ListO) and isinstance(o.open, Sym):
            return Sym("elem", o.open, self.site(node), n)
        return Sym("elem", self.frz(st, it), self.site(node), n)

    # ------------------------------------------------ calls
    def e_Call(self, e, st, fid):
        # super().x
        out = []
        for s, fn in self.eval_callee(e.func, st, fid):
            for s2, args in self.eval_many(e.args, s, fid):
                kws = [(s2, {}, False)]
                for kw in e.keywords:
                    nxt = []
                    for s3, d, op in kws:
                        for s4, v in self.eval(kw.value, s3, fid):
                            d2 = dict(d)
                            if kw.arg is None:
                                o = self.obj(s4, v)
                                op2 = op
                                if isinstance(o, DictO):
                                    for k, vv in o.items.items():
                                        if isinstance(k, Const) and isinstance(k.v, str):
                                            d2[k.v] = vv
                                        else:
                                            op2 = True
                                    if o.may or o.open:
                                        op2 = True
                                else:
                                    op2 = True
                                nxt.append((s4, d2, op2))
                            else:
                                d2[kw.arg] = v
                                nxt.append((s4, d2, op))
                    kws = nxt
                for s3, d, op in kws:
                    if op:
                        d = dict(d)
                        d["**"] = Sym("openkw")
                    out.extend(self.call(s3, self.res(s3, fn), args, d, e, fid))
        if len(out) > 1:
            out = self.merge_vals(out, e, fid)
        return out

    def eval_callee(self, f, st, fid):
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) \
                and f.value.func.id == "super":
            fi = self.cur_fi
            # find class that defines current method
            ci = fi.cls if fi is not None else None
            if ci is not None:
                selfname = fi.node.args.args[0].arg if fi.node.args.args else None
                recv = st.frames[fid].get(selfname) if selfname else None
                rc = None
                o = self.obj(st, recv) if recv is not None else None
                if isinstance(o, InstO):
                    rc = o.cls
                elif isinstance(recv, ClsV):
                    rc = recv.ci
                mro = (rc or ci).mro()
                if ci in mro:
                    for c in mro[mro.index(ci) + 1:]:
                        if f.attr in c.methods:
                            return [(st, BM(recv, c.methods[f.attr]))]
            return [(st, Sym("super", f.attr))]
        return self.eval(f, st, fid)

    def call(self, st, fn, args, kw, e, fid):
        if isinstance(fn, FnV):
            if fn.fi is not None:
                r = self.intrinsic(st, fn.fi.full, args, kw, e, fid)
                if r is not None:
                    return r
                return self.call_function(fn.fi, fn.fid, args, kw, st, e, fid)
            return self.call_lambda(fn, args, kw, st, e, fid)
        if isinstance(fn, BM):
            r = self.intrinsic(st, fn.fi.full, [fn.recv] + args, kw, e, fid)
            if r is not None:
                return r
            return self.call_function(fn.fi, None, [fn.recv] + args, kw, st, e, fid)
        if isinstance(fn, ClsV):
            return self.instantiate(st, fn.ci, args, kw, e, fid)
        if isinstance(fn, PartV):
            k2 = dict(fn.kw)
            k2.update(kw)
            return self.call(st, fn.fn, list(fn.args) + args, k2, e, fid)
        if isinstance(fn, ExtV):
            return self.call_ext(st, fn.name, args, kw, e, fid)
        if isinstance(fn, BI):
            return self.call_method(st, fn.recv, fn.name, args, kw, e, fid)
        if isinstance(fn, Sym):
            return self.call_sym(st, fn, args, kw, e, fid)
        o = self.obj(st, fn)
        if isinstance(o, InstO):
            fi = o.cls.find("__call__")
            if fi:
                return self.call_function(fi, None, [fn] + args, kw, st, e, fid)
        return [(st, Sym("call", fn, *[self.frz(st, a) for a in args]))]

    def intrinsic(self, st, full, args, kw, e, fid):
        return None

    def call_sym(self, st, fn, args, kw, e, fid):
        if self.mon:
            self.mon.call_unknown(self, st, fn, args)
        return [(st, Sym("call", fn, *[self.frz(st, a) for a in args]))]

    def instantiate(self, st, ci, args, kw, e, fid):
        r = self.intrinsic(st, ci.full, args, kw, e, fid)
        if r is not None:
            return r
        if ci.has_external_base():
            names = [dotted(b) or "" for b in ci.node.bases]
            if any(n in ("Exception", "ValueError", "RuntimeError") for n in names):
                return [(st, Sym("exception", ci.full))]
        ref = self.alloc(st, "inst", e, fid, InstO(cls=ci, attrs={}))
        init = ci.find("__init__")
        if init is None:
            return [(st, ref)]
        return [(s, ref) for s, _ in self.call_function(init, None, [ref] + args, kw, st, e, fid)]

    def call_lambda(self, fn, args, kw, st, e, fid):
        nf = self.new_fid(fid, e, fn.fid)
        env = {}
        if not self.bind(fn.node.args, args, kw, env, st, None, fn.mod, fid):
            return [(st, Sym("call", fn, *args))]
        st.frames[nf] = env
        self.modstack.append(fn.mod)
        self.depth += 1
        try:
            if self.depth > self.MAX_DEPTH + 6:
                return [(st, Sym("call", fn))]
            return self.eval(fn.node.body, st, nf)
        finally:
            self.depth -= 1
            self.modstack.pop()

    def new_fid(self, fid, e, parent):
        k = (fid, id(e), parent)
        n = self.fids.get(k)
        if n is None:
            n = len(self.fids) + 1
            self.fids[k] = n
        self.fparent[n] = parent
        return n

    def bind(self, a, args, kw, env, st, fi, mod, fid):
        """bind call arguments to parameters; returns False when the call cannot be bound"""
        kw = dict(kw)
        openkw = kw.pop("**", None)
        params = [p.arg for p in a.posonlyargs + a.args]
        openpos = False
        args = list(args)
        for i, v in enumerate(args):
            if isinstance(v, Sym) and v.op == "star":
                openpos = True
                args = args[:i]
                break
        n = len(params)
        if len(args) > n and a.vararg is None:
            return False
        for p, v in zip(params, args):
            env[p] = v
        if a.vararg is not None:
            rest = args[n:]
            if openpos:
                env[a.vararg.arg] = Sym("varargs", self.site(a) if hasattr(a, "lineno") else 0)
            else:
                env[a.vararg.arg] = Tup(rest)
        kwonly = [p.arg for p in a.kwonlyargs]
        extra = {}
        for k, v in kw.items():
            if k in params or k in kwonly:
                if k in env:
                    return False
                env[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                return False
        defs = a.defaults
        for p, d in zip(params[n - len(defs):], defs):
            if p not in env:
                env[p] = self.default_value(d, st, mod)
        for p, d in zip(kwonly, a.kw_defaults):
            if p not in env and d is not None:
                env[p] = self.default_value(d, st, mod)
        for p in params + kwonly:
            if p not in env:
                if openpos or openkw is not None:
                    env[p] = Sym("param", p)
                else:
                    return False
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, "dict", a, fid, DictO(items={Const(k): v for k, v in extra.items()}, may=frozenset(),
                                                                      open=openkw is not None))
        return True

    def default_value(self, d, st, mod):
        self.modstack.append(mod)
        gf = ("d", mod.name)
        self.fparent.setdefault(gf, None)
        st.frames.setdefault(gf, {})
        try:
            rs = self.eval(d, st, gf)
            return rs[0][1] if rs else Sym("default")
        finally:
            self.modstack.pop()

    def call_function(self, fi, closure, args, kw, st, e, fid):
        if fi.is_gen:
            return [(st, Sym("gen", fi.full, *[self.frz(st, a) for a in args[:4]]))]
        if fi.kind == "class" and (not args or not isinstance(args[0], (ClsV, Sym))):
            pass
        cnt = sum(1 for f in self.stack if f[0] is fi)
        if self.depth >= self.MAX_DEPTH or cnt >= 2:
            if self.mon:
                self.mon.opaque_call(self, st, fi, args, kw, e)
            return [(st, Sym("call", fi.full, *[self.frz(st, a) for a in args[:6]]))]
        self.entered.add(fi.full)
        nf = self.new_fid(fid, e, closure)
        env = {}
        if not self.bind(fi.node.args, args, kw, env, st, fi, fi.mod, nf):
            if self.mon:
                self.mon.bad_call(self, st, fi, args, kw, e)
            return []
        st.frames[nf] = env
        self.stack.append((fi, e, self.cur_mod))
        self.modstack.append(fi.mod)
        self.depth += 1
        try:
            outs = self.exec_block(fi.node.body, [st], nf, fi)
        finally:
            self.depth -= 1
            self.modstack.pop()
            self.stack.pop()
        res = []
        closures = fi.__dict__.get("_has_closures")
        if closures is None:
            closures = fi._has_closures = any(isinstance(n, (ast.FunctionDef, ast.Lambda)) for n in ast.walk(fi.node) if n is not fi.node)
        for s, sig, v in outs:
            if not closures or not self.escapes(s, v, nf):
                s.frames.pop(nf, None)
            if sig == EXC:
                self.note_exc(s)
                continue
            res.append((s, v if sig == RET else NONE))
        if len(res) > 1:
            res = self.merge_vals(res, e, fid)
        return res

    def escapes(self, st, v, nf):
        """does a closure over frame nf survive the call?"""
        def has(x):
            if isinstance(x, FnV):
                return x.fid == nf
            if isinstance(x, Tup):
                return any(has(y) for y in x.items)
            if isinstance(x, PartV):
                return has(x.fn) or any(has(y) for y in x.args) or any(has(y) for _, y in x.kw)
            return False
        if has(v):
            return True
        for o in st.heap.values():
            if isinstance(o, ListO):
                if any(has(x) for x in o.items):
                    return True
            elif isinstance(o, DictO):
                if any(has(x) for x in o.items.values()):
                    return True
            elif isinstance(o, InstO):
                if any(has(x) for x in o.attrs.values()):
                    return True
        return False

    def note_exc(self, st):
        if self.excstack:
            self.excstack[-1].append(st)

    # ------------------------------------------------ builtins / external calls
    def call_ext(self, st, name, args, kw, e, fid):
        if any(type(a) is OpsetC for a in args):
            self.opset_exact = True
        if name.startswith("builtins."):
            m = getattr(self, "b_" + name[9:], None)
            if m is not None:
                r = m(st, args, kw, e, fid)
                if r is not None:
                    return r
        if name == "functools.partial" and args:
            return [(st, PartV(args[0], args[1:], kw))]
        if name in ("copy.copy", "copy.deepcopy") and args:
            o = self.obj(st, args[0])
            if isinstance(o, ListO):
                return [(st, self.mklist(st, e, fid, o.items, o.open, o.kind))]
            if isinstance(o, DictO):
                return [(st, self.mkdict(st, e, fid, o.items, o.may, o.open))]
            if isinstance(args[0], (Const, Tup)):
                return [(st, args[0])]
        if name == "sys.exit":
            return []
        return [(st, Sym("call", name, *([self.frz(st, a) for a in args] + [Tup([Const(k), self.frz(st, v)]) for k, v in sorted(kw.items())])))]

    def b_len(self, st, args, kw, e, fid):
        si = self.seq_items(st, args[0])
        if si is not None and si[1]:
            return [(st, Const(len(si[0])))]
        s = Sym("len", self.frz(st, args[0]))
        if si is not None and si[0]:
            st.pc[("min", s)] = len(si[0])
        return [(st, self.res(st, s))]

    def b_range(self, st, args, kw, e, fid):
        args = [self.res(st, a) for a in args]
        if all(isinstance(a, Const) and isinstance(a.v, int) for a in args):
            try:
                r = range(*[a.v for a in args])
            except Exception:
                return []
            if len(r) <= 64:
                return [(st, self.mklist(st, e, fid, [Const(i) for i in r]))]
        return [(st, Sym("range", *args))]

    def _seqconv(self, st, args, e, fid, kind):
        if not args:
            return [(st, self.mklist(st, e, fid, (), False, kind))]
        si = self.seq_items(st, args[0])
        if si is not None:
            items = si[0]
            if kind == "set":
                seen = []
                for x in items:
                    if x not in seen:
                        seen.append(x)
                items = seen
            return [(st, self.mklist(st, e, fid, items, not si[1], kind))]
        # unknown sequence: a fresh open list remembering its source
        return [(st, Sym("seqcopy", kind, self.frz(st, args[0])))] if kind != "list" else \
            [(st, self.mklist(st, e, fid, (), True, kind))]

    def b_list(self, st, args, kw, e, fid):
        return self._seqconv(st, args, e, fid, "list")

    def b_set(self, st, args, kw, e, fid):
        return self._seqconv(st, args, e, fid, "set")

    def b_tuple(self, st, args, kw, e, fid):
        if not args:
            return [(st, Tup(()))]
        si = self.seq_items(st, args[0])
        if si is not None and si[1]:
            return [(st, Tup(si[0]))]
        return [(st, Sym("tuple", self.frz(st, args[0])))]

    def b_dict(self, st, args, kw, e, fid):
        items, may, op = {}, set(), False
        if args:
            o = self.obj(st, args[0])
            if isinstance(o, DictO):
                items, may, op = dict(o.items), set(o.may), o.open
            else:
                si = self.seq_items(st, args[0])
                if si is not None and all(isinstance(x, Tup) and len(x.items) == 2 for x in si[0]):
                    for x in si[0]:
                        items[x.items[0]] = x.items[1]
                    op = not si[1]
                else:
                    op = True
        for k, v in kw.items():
            if k == "**":
                op = True
            else:
                items[Const(k)] = v
        return [(st, self.mkdict(st, e, fid, items, may, op))]

    def b_str(self, st, args, kw, e, fid):
        a = self.res(st, args[0]) if args else Const("")
        if isinstance(a, Const):
            return [(st, Const(str(a.v)))]
        return [(st, Sym("fmt", self.frz(st, a)))]

    def b_int(self, st, args, kw, e, fid):
        a = self.res(st, args[0]) if args else Const(0)
        if isinstance(a, Const):
            try:
                return [(st, Const(int(a.v)))]
            except Exception:
                return []
        return [(st, Sym("int", self.frz(st, a)))]

    def b_float(self, st, args, kw, e, fid):
        a = self.res(st, args[0]) if args else Const(0.0)
        if isinstance(a, Const):
            try:
                return [(st, Const(float(a.v)))]
            except Exception:
                return []
        return [(st, Sym("float", self.frz(st, a)))]

    def b_bool(self, st, args, kw, e, fid):
        t = self.truth(st, args[0])
        if t is not None:
            return [(st, Const(t))]
        return [(st, args[0])]

    def b_isinstance(self, st, args, kw, e, fid):
        v, c = self.res(st, args[0]), args[1]
        cs = c.items if isinstance(c, Tup) else (c,)
        names = {x.name for x in cs if isinstance(x, ExtV)}
        proj = [x.ci for x in cs if isinstance(x, ClsV)]
        if isinstance(v, Const):
            py = {"builtins.str": str, "builtins.int": int, "builtins.float": float, "builtins.bool": bool,
                  "builtins.bytes": bytes, "builtins.list": list, "builtins.tuple": tuple, "builtins.dict": dict}
            if all(n in py for n in names):
                return [(st, Const(any(isinstance(v.v, py[n]) for n in names)))]
            return [(st, Const(any(isinstance(v.v, py[n]) for n in names if n in py)))]
        o = self.obj(st, v)
        if isinstance(v, Tup):
            return [(st, Const("builtins.tuple" in names))]
        if isinstance(o, ListO):
            return [(st, Const("builtins." + o.kind in names))]
        if isinstance(o, DictO):
            return [(st, Const("builtins.dict" in names))]
        if isinstance(o, InstO):
            if proj:
                return [(st, Const(any(p in o.cls.mro() for p in proj)))]
            return [(st, FALSE)]
        if isinstance(o, NodeO):
            return [(st, Const(any(p.qual == "Node" for p in proj)))]
        if isinstance(o, GraphO):
            return [(st, Const(any(p.qual == "Graph" for p in proj)))]
        if isinstance(v, Sym) and v.op in ("uname", "fmt", "concat", "out", "in", "name"):
            return [(st, Const("builtins.str" in names))]
        return [(st, Sym("isinstance", self.frz(st, v), c))]

    def b_hasattr(self, st, args, kw, e, fid):
        o = self.obj(st, args[0])
        if isinstance(o, InstO) and isinstance(args[1], Const):
            return [(st, Const(args[1].v in o.attrs or o.cls.find(args[1].v) is not None))]
        return [(st, Sym("hasattr", self.frz(st, args[0]), args[1]))]

    def b_getattr(self, st, args, kw, e, fid):
        if len(args) >= 2 and isinstance(args[1], Const) and isinstance(args[1].v, str):
            return self.getattr(st, self.res(st, args[0]), args[1].v, e, fid)
        return [(st, Sym("getattr", self.frz(st, args[0]), self.frz(st, args[1])))]

    def b_print(self, st, args, kw, e, fid):
        return [(st, NONE)]

    def b_zip(self, st, args, kw, e, fid):
        sis = [self.seq_items(st, a) for a in args]
        if sis and all(s is not None and s[1] for s in sis):
            return [(st, self.mklist(st, e, fid, [Tup(t) for t in zip(*[s[0] for s in sis])]))]
        known = [len(s[0]) for s in sis if s is not None and s[1]]
        if known and len(known) < len(sis):
            n = min(known)
            if n <= 16:
                items = []
                for i in range(n):
                    row = []
                    for a, s in zip(args, sis):
                        if s is not None and i < len(s[0]):
                            row.append(s[0][i])
                        else:
                            r = self.subscript(st, self.res(st, a), Const(i), e, fid)
                            row.append(r[0][1] if r else Sym("item", self.frz(st, a), i))
                    items.append(Tup(row))
                return [(st, self.mklist(st, e, fid, items))]
        src = Sym("zip", *[self.frz(st, a) for a in args])
        if sis and all(s is not None for s in sis) and all(s[0] for s in sis):
            return [(st, self.mklist(st, e, fid, [Tup(t) for t in zip(*[s[0] for s in sis])], src))]
        return [(st, src)]

    def b_enumerate(self, st, args, kw, e, fid):
        si = self.seq_items(st, args[0])
        if si is not None and si[1]:
            return [(st, self.mklist(st, e, fid, [Tup([Const(i), x]) for i, x in enumerate(si[0])]))]
        src = Sym("enumerate", self.frz(st, args[0]))
        if si is not None and si[0]:
            return [(st, self.mklist(st, e, fid, [Tup([Const(i), x]) for i, x in enumerate(si[0])], src))]
        return [(st, src)]

    def b_reversed(self, st, args, kw, e, fid):
        si = self.seq_items(st, args[0])
        if si is not None and si[1]:
            return [(st, self.mklist(st, e, fid, tuple(reversed(si[0]))))]
        return [(st, Sym("reversed", self.frz(st, args[0])))]

    def b_sorted(self, st, args, kw, e, fid):
        si = self.seq_items(st, args[0])
        if si is not None and si[1] and all(isinstance(x, Const) for x in si[0]) and not kw:
            try:
                return [(st, self.mklist(st, e, fid, [Const(x) for x in sorted(y.v for y in si[0])]))]
            except Exception:
                pass
        if si is not None and si[1] and not kw:
            return [(st, self.mklist(st, e, fid, [Sym("sorted", i, self.frz(st, args[0])) for i in range(len(si[0]))]))]
        return [(st, Sym("sorted", self.frz(st, args[0])))]

    def b_any(self, st, args, kw, e, fid):
        return self._anyall(st, args, e, True)

    def b_all(self, st, args, kw, e, fid):
        return self._anyall(st, args, e, False)

    def _anyall(self, st, args, e, is_any):
        si = self.seq_items(st, args[0])
        if si is None:
            return [(st, Sym("any" if is_any else "all", self.frz(st, args[0])))]
        ts = [(x, self.truth(st, x)) for x in si[0]]
        if any(t is is_any for _, t in ts):
            return [(st, Const(is_any))]
        und = [x for x, t in ts if t is None]
        if not und and si[1]:
            return [(st, Const(not is_any))]
        if si[1]:
            return [(st, Sym("or" if is_any else "and", *und))]
        return [(st, Sym("any" if is_any else "all", self.frz(st, args[0]), self.site(e)))]

    def b_sum(self, st, args, kw, e, fid):
        si = self.seq_items(st, args[0])
        if si is not None and si[1] and all(isinstance(x, Const) and isinstance(x.v, (int, float)) for x in si[0]) and len(args) == 1:
            return [(st, Const(sum(x.v for x in si[0])))]
        return [(st, Sym("sum", self.frz(st, args[0])))]

    def _minmax(self, st, args, kw, e, f, nm):
        vs = args
        if len(args) == 1:
            si = self.seq_items(st, args[0])
            vs = list(si[0]) if si is not None and si[1] else None
        if vs and not kw and all(isinstance(x, Const) for x in vs):
            try:
                return [(st, Const(f(x.v for x in vs)))]
            except Exception:
                pass
        return [(st, Sym(nm, *[self.frz(st, a) for a in args]))]

    def b_min(self, st, args, kw, e, fid):
        return self._minmax(st, args, kw, e, min, "min")

    def b_max(self, st, args, kw, e, fid):
        return self._minmax(st, args, kw, e, max, "max")

    def b_map(self, st, args, kw, e, fid):
        si = self.seq_items(st, args[1]) if len(args) == 2 else None
        if si is not None and si[1] and len(si[0]) <= 16:
            live = [(st, [])]
            for x in si[0]:
                nxt = []
                for s, acc in live:
                    for s2, v in self.call(s, args[0], [x], {}, e, fid):
                        nxt.append((s2, acc + [v]))
                live = nxt
            return [(s, self.mklist(s, e, fid, acc)) for s, acc in live]
        return [(st, Sym("map", *[self.frz(st, a) for a in args]))]

    def b_type(self, st, args, kw, e, fid):
        o = self.obj(st, args[0])
        if isinstance(o, InstO):
            return [(st, ClsV(o.cls))]
        return [(st, Sym("typeof", self.frz(st, args[0])))]

    def b_abs(self, st, args, kw, e, fid):
        a = self.res(st, args[0])
        if isinstance(a, Const):
            return [(st, Const(abs(a.v)))]
        return None

    # ------------------------------------------------ container methods
    def call_method(self, st, recv, name, args, kw, e, fid):
        o = self.obj(st, recv)
        if isinstance(o, ListO):
            return self.list_method(st, recv, o, name, args, kw, e, fid)
        if isinstance(o, DictO):
            return self.dict_method(st, recv, o, name, args, kw, e, fid)
        if isinstance(recv, Const) and isinstance(recv.v, str):
            return self.str_method(st, recv, name, args, kw, e, fid)
        if isinstance(o, NodeO):
            return self.node_method(st, recv, o, name, args, kw, e, fid)
        if isinstance(o, GraphO):
            return self.graph_method(st, recv, o, name, args, kw, e, fid)
        if isinstance(recv, Tup) and name in ("index", "count"):
            return [(st, Sym("call", name, recv, *args))]
        if isinstance(recv, Sym):
            return self.sym_method(st, recv, name, args, kw, e, fid)
        return [(st, Sym("mcall", self.frz(st, recv), name, *[self.frz(st, a) for a in args]))]

    def node_method(self, st, recv, o, name, args, kw, e, fid):
        return [(st, Sym("mcall", recv, name, *args))]

    graph_method = node_method

    def sym_method(self, st, recv, name, args, kw, e, fid):
        return [(st, Sym("mcall", recv, name, *([self.frz(st, a) for a in args] + [Tup([Const(k), self.frz(st, v)]) for k, v in sorted(kw.items())])))]

    def list_method(self, st, recv, o, name, args, kw, e, fid):
        def put(**c):
            st.heap[recv.a] = o.clone(**c)
        if self.mon:
            self.mon.list_mutation(self, st, recv, o, name, args, e)
        if name in ("append", "add"):
            if o.kind == "set" and args[0] in o.items:
                return [(st, NONE)]
            if o.open:
                return [(st, NONE)]
            put(items=o.items + (args[0],))
            return [(st, NONE)]
        if name in ("extend", "update"):
            si = self.seq_items(st, args[0]) if args else ((), True)
            if si is not None and not o.open:
                put(items=o.items + tuple(si[0]), open=not si[1])
            else:
                put(open=True)
            return [(st, NONE)]
        if name == "insert":
            if not o.open and isinstance(args[0], Const):
                l = list(o.items)
                l.insert(args[0].v, args[1])
                put(items=tuple(l))
            else:
                put(items=(), open=True)
            return [(st, NONE)]
        if name == "pop":
            i = self.res(st, args[0]) if args else Const(-1)
            if not o.open and isinstance(i, Const):
                if not o.items or not (-len(o.items) <= i.v < len(o.items)):
                    return []
                l = list(o.items)
                v = l.pop(i.v)
                put(items=tuple(l))
                return [(st, v)]
            v = Sym("pop", self.frz(st, recv), self.site(e))
            put(items=(), open=True)
            return [(st, v)]
        if name in ("remove", "discard"):
            l = list(o.items)
            if args[0] in l and not o.open:
                l.remove(args[0])
                put(items=tuple(l))
            else:
                put(items=(), open=True)
            return [(st, NONE)]
        if name == "clear":
            put(items=(), open=False)
            return [(st, NONE)]
        if name == "copy":
            return [(st, self.mklist(st, e, fid, o.items, o.open, o.kind))]
        if name in ("sort", "reverse"):
            if name == "reverse":
                put(items=tuple(reversed(o.items)) if not o.open else ())
            elif all(isinstance(x, Const) for x in o.items) and not o.open and not kw:
                try:
                    put(items=tuple(Const(x) for x in sorted(y.v for y in o.items)))
                except Exception:
                    put(items=tuple(Sym("sorted", i, self.frz(st, recv)) for i in range(len(o.items))))
            else:
                put(items=tuple(Sym("sorted", i, self.frz(st, recv)) for i in range(len(o.items))))
            return [(st, NONE)]
        if name == "index" and not o.open and len(args) == 1:
            for i, x in enumerate(o.items):
                t = self.truth(st, self.eq(st, x, args[0]))
                if t is True:
                    return [(st, Const(i))]
                if t is None:
                    break
        if name in ("union", "intersection", "difference", "symmetric_difference"):
            return [(st, self.mklist(st, e, fid, (), True, "set"))]
        return [(st, Sym("mcall", self.frz(st, recv), name, *[self.frz(st, a) for a in args]))]

    def dict_method(self, st, recv, o, name, args, kw, e, fid):
        def put(**c):
            st.heap[recv.a] = o.clone(**c)
        if name == "get":
            k = self.res(st, args[0])
            d = args[1] if len(args) > 1 else NONE
            if k in o.items and k not in o.may:
                return [(st, o.items[k])]
            if isinstance(k, Const) and k not in o.items and not o.open and all(isinstance(x, Const) for x in o.items):
                return [(st, d)]
            if k in o.items and k in o.may:
                s2 = st.fork()
                return [(st, o.items[k]), (s2, d)]
            return [(st, Sym("dget", recv if o.open else self.frz(st, recv), k, self.frz(st, d)))]
        if name == "items":
            if not o.open and not o.may:
                return [(st, self.mklist(st, e, fid, [Tup([k, v]) for k, v in o.items.items()]))]
            return [(st, self.mklist(st, e, fid, [Tup([k, v]) for k, v in o.items.items() if k not in o.may], True))]
        if name in ("keys", "values"):
            src = list(o.items) if name == "keys" else list(o.items.values())
            return [(st, self.mklist(st, e, fid, src, o.open or bool(o.may)))]
        if name == "copy":
            return [(st, self.mkdict(st, e, fid, o.items, o.may, o.open))]
        if name == "update":
            items, may, op = dict(o.items), set(o.may), o.open
            if args:
                o2 = self.obj(st, args[0])
                if isinstance(o2, DictO):
                    for k, v in o2.items.items():
                        items[k] = v
                        if k in o2.may:
                            may.add(k)
                        else:
                            may.discard(k)
                    op = op or o2.open
                else:
                    op = True
            for k, v in kw.items():
                if k == "**":
                    op = True
                else:
                    items[Const(k)] = v
            put(items=items, may=frozenset(may), open=op)
            return [(st, NONE)]
        if name == "pop":
            k = self.res(st, args[0])
            if k in o.items:
                items = dict(o.items)
                v = items.pop(k)
                may = k in o.may
                put(items=items, may=o.may - {k})
                if may and len(args) > 1:
                    s2 = st.fork()
                    return [(st, v), (s2, args[1])]
                return [(st, v)]
            if isinstance(k, Const) and not o.open and all(isinstance(x, Const) for x in o.items):
                return [(st, args[1])] if len(args) > 1 else []
            put(open=True)
            return [(st, Sym("dpop", recv, k))]
        if name == "setdefault":
            k = self.res(st, args[0])
            if k in o.items and k not in o.may:
                return [(st, o.items[k])]
            items = dict(o.items)
            items[k] = args[1] if len(args) > 1 else NONE
            put(items=items)
            return [(st, items[k])]
        if name == "clear":
            put(items={}, may=frozenset(), open=False)
            return [(st, NONE)]
        return [(st, Sym("mcall", self.frz(st, recv), name, *[self.frz(st, a) for a in args]))]

    def str_method(self, st, recv, name, args, kw, e, fid):
        args = [self.res(st, a) for a in args]
        if name in ("encode", "decode"):
            return [(st, recv)]
        if name == "format":
            if all(isinstance(a, Const) for a in args) and all(isinstance(v, Const) for v in kw.values()):
                try:
                    return [(st, Const(recv.v.format(*[a.v for a in args], **{k: v.v for k, v in kw.items()})))]
                except Exception:
                    return []
            return [(st, Sym("fmt", recv, *([self.frz(st, a) for a in args] + [self.frz(st, v) for _, v in sorted(kw.items())])))]
        if name == "join" and args:
            si = self.seq_items(st, args[0])
            if si is not None and si[1] and all(isinstance(x, Const) for x in si[0]):
                return [(st, Const(recv.v.join(str(x.v) for x in si[0])))]
            return [(st, Sym("fmt", recv, self.frz(st, args[0])))]
        if all(isinstance(a, Const) for a in args) and not kw:
            try:
                r = getattr(recv.v, name)(*[a.v for a in args])
            except Exception:
                return [(st, Sym("mcall", recv, name, *args))]
            if isinstance(r, list):
                return [(st, self.mklist(st, e, fid, [Const(x) for x in r]))]
            if isinstance(r, tuple):
                return [(st, Tup([Const(x) for x in r]))]
            return [(st, Const(r))]
        return [(st, Sym("mcall", recv, name, *args))]

    # ------------------------------------------------ statements: -> list of (state, signal, value)
    def exec_block(self, body, states, fid, fi):
        live = list(states)
        done = []
        for stmt in body:
            nxt = []
            for s in live:
                for o in self.exec_stmt(stmt, s, fid, fi):
                    if o[1] is None:
                        nxt.append(o[0])
                    else:
                        done.append(o)
            live = nxt
            if len(live) > 1:
                live = self.merge_states(live, stmt, fid, fi)
            if not live:
                break
        return [(s, None, None) for s in live] + done

    def exec_stmt(self, st_node, st, fid, fi):
        self.steps += 1
        if self.steps > self.STEP_BUDGET * self.scale:
            self.limited = True
            raise Budget()
        m = getattr(self, "s_" + type(st_node).__name__, None)
        if m is None:
            return [(st, None, None)]
        return m(st_node, st, fid, fi)

    def s_Expr(self, n, st, fid, fi):
        if isinstance(n.value, ast.Constant):
            return [(st, None, None)]
        return [(s, None, None) for s, _ in self.eval(n.value, st, fid)]

    def s_Pass(self, n, st, fid, fi):
        return [(st, None, None)]

    s_Import = s_Pass
    s_ImportFrom = s_Pass
    s_Global = s_Pass
    s_Nonlocal = s_Pass

    def s_Import(self, n, st, fid, fi):
        for a in n.names:
            nm = a.asname or a.name.split(".")[0]
            full = a.name if a.asname else a.name.split(".")[0]
            m = self.proj.modules.get(full)
            st.frames[fid][nm] = ModV(m) if m else ExtV(full)
        return [(st, None, None)]

    def s_ImportFrom(self, n, st, fid, fi):
        base = self.cur_mod._abs(n)
        for a in n.names:
            nm = a.asname or a.name
            if base in self.proj.modules:
                r = self.proj.member(base, a.name)
                st.frames[fid][nm] = self.wrap(r, st) if r is not None else Sym("missing", base, a.name)
            else:
                st.frames[fid][nm] = self.ext(base + "." + a.name)
        return [(st, None, None)]

    def s_FunctionDef(self, n, st, fid, fi):
        st.frames[fid][n.name] = FnV(getattr(n, "_finfo", None), n, self.cur_mod, fid)
        return [(st, None, None)]

    def s_ClassDef(self, n, st, fid, fi):
        ci = getattr(n, "_cinfo", None)
        st.frames[fid][n.name] = ClsV(ci) if ci else Sym("class", n.name)
        return [(st, None, None)]

    def s_Return(self, n, st, fid, fi):
        if n.value is None:
            return [(st, RET, NONE)]
        return [(s, RET, v) for s, v in self.eval(n.value, st, fid)]

    def s_Break(self, n, st, fid, fi):
        return [(st, BRK, None)]

    def s_Continue(self, n, st, fid, fi):
        return [(st, CONT, None)]

    def s_Raise(self, n, st, fid, fi):
        outs = self.eval(n.exc, st, fid) if n.exc is not None else [(st, NONE)]
        return [(s, EXC, v) for s, v in outs]

    def s_Assert(self, n, st, fid, fi):
        out = []
        for s, v in self.eval(n.test, st, fid):
            for s2, t in self.split(s, v):
                if t:
                    out.append((s2, None, None))
        return out

    def s_Assign(self, n, st, fid, fi):
        out = []
        for s, v in self.eval(n.value, st, fid):
            ss = [s]
            for t in n.targets:
                ss = [s3 for s2 in ss for s3 in self.assign_multi(t, v, s2, fid)]
            out.extend((s2, None, None) for s2 in ss)
        return out

    def s_AnnAssign(self, n, st, fid, fi):
        if n.value is None:
            return [(st, None, None)]
        out = []
        for s, v in self.eval(n.value, st, fid):
            for s2 in self.assign_multi(n.target, v, s, fid):
                out.append((s2, None, None))
        return out

    def s_AugAssign(self, n, st, fid, fi):
        out = []
        load = self._as_load(n.target)
        for s, a in self.eval(load, st, fid):
            for s2, b in self.eval(n.value, s, fid):
                a2, b2 = self.res(s2, a), self.res(s2, b)
                o = self.obj(s2, a2)
                if isinstance(o, ListO) and isinstance(n.op, ast.Add):
                    self.list_method(s2, a2, o, "extend", [b2], {}, n, fid)
                    out.append((s2, None, None))
                    continue
                v = self.binop(s2, n.op, a2, b2, n, fid)
                for s3 in self.assign_multi(n.target, v, s2, fid):
                    out.append((s3, None, None))
        return out

    def _as_load(self, t):
        c = getattr(t, "_load", None)
        if c is None:
            if isinstance(t, ast.Name):
                c = ast.Name(id=t.id, ctx=ast.Load())
            elif isinstance(t, ast.Attribute):
                c = ast.Attribute(value=t.value, attr=t.attr, ctx=ast.Load())
            else:
                c = ast.Subscript(value=t.value, slice=t.slice, ctx=ast.Load())
            ast.copy_location(c, t)
            t._load = c
        return c

    def assign_multi(self, t, v, st, fid):
        """assignment that may fork; returns states"""
        if isinstance(t, (ast.Name, ast.Tuple, ast.List, ast.Starred)):
            self.assign(t, v, st, fid)
            return [st]
        out = []
        if isinstance(t, ast.Attribute):
            for s, b in self.eval(t.value, st, fid):
                out.extend(self.setattr(s, self.res(s, b), t.attr, v, t, fid))
            return out
        if isinstance(t, ast.Subscript):
            if isinstance(t.slice, ast.Slice):
                for s, b in self.eval(t.value, st, fid):
                    for s2, parts in self.eval_slice(t.slice, s, fid):
                        self.setslice(s2, self.res(s2, b), parts, v, t, fid)
                        out.append(s2)
                return out
            for s, b in self.eval(t.value, st, fid):
                for s2, k in self.eval(t.slice, s, fid):
                    self.setitem(s2, self.res(s2, b), self.res(s2, k), v, t, fid)
                    out.append(s2)
            return out
        return [st]

    def assign(self, t, v, st, fid):
        if isinstance(t, ast.Name):
            # nonlocal writes: nearest frame is enough unless declared nonlocal
            fi = self.cur_fi
            if fi is not None and t.id in self._nl(fi):
                f = self.fparent.get(fid)
                while f is not None:
                    if f in st.frames and t.id in st.frames[f]:
                        st.frames[f][t.id] = v
                        return
                    f = self.fparent.get(f)
            st.frames[fid][t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            si = self.seq_items(st, v) if not (isinstance(v, Const)) else None
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if si is not None and si[1] and not star and len(si[0]) == len(t.elts):
                for x, y in zip(t.elts, si[0]):
                    self.assign_any(x, y, st, fid)
            else:
                for i, x in enumerate(t.elts):
                    tt = x.value if isinstance(x, ast.Starred) else x
                    if isinstance(v, Sym) and not isinstance(x, ast.Starred) and not star:
                        r = self.unpack_item(st, v, i, t, fid)
                    elif si is not None and i < len(si[0]) and not (star and i >= star[0]):
                        r = si[0][i]
                    else:
                        r = Sym("unpack", self.frz(st, v), i)
                    self.assign_any(tt, r, st, fid)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fid)

    def assign_any(self, t, v, st, fid):
        if isinstance(t, (ast.Name, ast.Tuple, ast.List, ast.Starred)):
            self.assign(t, v, st, fid)
        else:
            self.assign_multi(t, v, st, fid)

    def _nl(self, fi):
        c = fi.__dict__.get("_nonlocals")
        if c is not None:
            return c
        s = set()
        for n in ast.walk(fi.node):
            if isinstance(n, ast.Nonlocal):
                s.update(n.names)
        fi._nonlocals = s
        return s

    def unpack_item(self, st, v, i, t, fid):
        if v.op == "elem" and isinstance(v.args[0], Sym):
            src = v.args[0]
            if src.op == "zip" and i < len(src.args):
                return Sym("elem", src.args[i], v.args[1], v.args[2])
            if src.op == "enumerate":
                return Sym("idx", v.args[1], v.args[2]) if i == 0 else Sym("elem", src.args[0], v.args[1], v.args[2])
        rs = self.sym_item(st, v, Const(i), t, fid)
        return rs[0][1] if rs else Sym("unpack", v, i)

    def setattr(self, st, b, name, v, t, fid):
        o = self.obj(st, b)
        if isinstance(o, InstO):
            fi = o.cls.find(name)
            a = dict(o.attrs)
            a[name] = v
            st.heap[b.a] = o.clone(attrs=a)
            return [st]
        if isinstance(o, NodeO):
            return self.node_setattr(st, b, o, name, v, t, fid)
        if isinstance(b, Sym):
            return self.sym_setattr(st, b, name, v, t, fid)
        return [st]

    def node_setattr(self, st, b, o, name, v, t, fid):
        return [st]

    def sym_setattr(self, st, b, name, v, t, fid):
        return [st]

    def setitem(self, st, b, k, v, t, fid):
        o = self.obj(st, b)
        if isinstance(o, DictO):
            items = dict(o.items)
            items[k] = v
            st.heap[b.a] = o.clone(items=items, may=o.may - {k})
        elif isinstance(o, ListO):
            if self.mon:
                self.mon.list_mutation(self, st, b, o, "setitem", [k, v], t)
            if isinstance(k, Const) and isinstance(k.v, int) and not o.open and -len(o.items) <= k.v < len(o.items):
                l = list(o.items)
                l[k.v] = v
                st.heap[b.a] = o.clone(items=tuple(l))
            else:
                st.heap[b.a] = o.clone(items=tuple(Sym("maybe", x, self.frz(st, v)) for x in o.items))
        elif isinstance(b, Sym):
            self.sym_setitem(st, b, k, v, t, fid)

    def sym_setitem(self, st, b, k, v, t, fid):
        pass

    def setslice(self, st, b, parts, v, t, fid):
        o = self.obj(st, b)
        if isinstance(o, ListO):
            if self.mon:
                self.mon.list_mutation(self, st, b, o, "setslice", [v], t)
            si = self.seq_items(st, v)
            if all(p == NONE for p in parts) and si is not None:
                st.heap[b.a] = o.clone(items=tuple(si[0]), open=not si[1])
            elif si is not None and si[1] and not o.open and all(isinstance(p, Const) for p in parts):
                l = list(o.items)
                try:
                    l[slice(*[p.v for p in parts])] = list(si[0])
                    st.heap[b.a] = o.clone(items=tuple(l))
                except Exception:
                    st.heap[b.a] = o.clone(items=(), open=True)
            else:
                st.heap[b.a] = o.clone(items=(), open=True)

    def s_Delete(self, n, st, fid, fi):
        live = [st]
        for t in n.targets:
            nxt = []
            for s in live:
                if isinstance(t, ast.Name):
                    s.frames[fid].pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, b in self.eval(t.value, s, fid):
                        if isinstance(t.slice, ast.Slice):
                            o = self.obj(s2, b)
                            if isinstance(o, ListO):
                                for s3, parts in self.eval_slice(t.slice, s2, fid):
                                    if not o.open and all(isinstance(p, Const) for p in parts):
                                        l = list(o.items)
                                        del l[slice(*[p.v for p in parts])]
                                        s3.heap[b.a] = o.clone(items=tuple(l))
                                    else:
                                        s3.heap[b.a] = o.clone(items=(), open=True)
                                    nxt.append(s3)
                            else:
                                nxt.append(s2)
                            continue
                        for s3, k in self.eval(t.slice, s2, fid):
                            self.delitem(s3, self.res(s3, b), self.res(s3, k), t)
                            nxt.append(s3)
                else:
                    nxt.append(s)
            live = nxt
        return [(s, None, None) for s in live]

    def delitem(self, st, b, k, t):
        o = self.obj(st, b)
        if isinstance(o, DictO):
            items = dict(o.items)
            items.pop(k, None)
            st.heap[b.a] = o.clone(items=items, may=o.may - {k})
        elif isinstance(o, ListO):
            if isinstance(k, Const) and not o.open and -len(o.items) <= k.v < len(o.items):
                l = list(o.items)
                del l[k.v]
                st.heap[b.a] = o.clone(items=tuple(l))
            else:
                st.heap[b.a] = o.clone(items=(), open=True)
        elif isinstance(b, Sym):
            self.sym_delitem(st, b, k, t)

    def sym_delitem(self, st, b, k, t):
        pass

    def s_If(self, n, st, fid, fi):
        out = []
        for s, c in self.eval(n.test, st, fid):
            for s2, t in self.split(s, c):
                out.extend(self.exec_block(n.body if t else n.orelse, [s2], fid, fi))
        return out

    def s_With(self, n, st, fid, fi):
        live = [st]
        for it in n.items:
            nxt = []
            for s in live:
                for s2, v in self.eval(it.context_expr, s, fid):
                    if it.optional_vars is not None:
                        self.assign_any(it.optional_vars, v, s2, fid)
                    nxt.append(s2)
            live = nxt
        return self.exec_block(n.body, live, fid, fi)

    def s_Try(self, n, st, fid, fi):
        pre = st.fork() if n.handlers else None
        self.excstack.append([])
        try:
            outs = self.exec_block(n.body, [st], fid, fi)
        finally:
            excs = self.excstack.pop()
        res = []
        normal = []
        for o in outs:
            if o[1] is None:
                normal.append(o[0])
            elif o[1] == EXC and n.handlers:
                excs.append(o[0])
            else:
                res.append(o)
        if n.orelse and normal:
            for o in self.exec_block(n.orelse, normal, fid, fi):
                if o[1] is None:
                    pass
                res.append(o)
        else:
            res.extend((s, None, None) for s in normal)
        if n.handlers:
            starts = [pre] + excs[:self.EXC_CAP]
            for h in n.handlers:
                for s in starts:
                    s = s.fork()
                    if fid not in s.frames:
                        continue
                    if h.name:
                        s.frames[fid][h.name] = ex = Sym("exc", self.site(h))
                        s.pc[pc_is_none(ex)] = False
                    res.extend(self.exec_block(h.body, [s], fid, fi))
        if n.finalbody:
            fin = []
            for s, sig, v in res:
                for s2, sig2, v2 in self.exec_block(n.finalbody, [s], fid, fi):
                    fin.append((s2, sig2, v2) if sig2 is not None else (s2, sig, v))
            res = fin
        return res

    def s_For(self, n, st, fid, fi):
        out = []
        for s, it in self.eval(n.iter, st, fid):
            elems, closed = self.iter_elems(s, it, n, fid)
            if self.mon:
                self.mon.loop_start(self, s, it, n)
            if elems is not None and closed and len(elems) <= 40:
                live = [s]
                broke = []
                for x in elems:
                    nxt = []
                    for s1 in live:
                        self.assign_any(n.target, x, s1, fid)
                        for s2, sig, v in self.exec_block(n.body, [s1], fid, fi):
                            if sig is None or sig == CONT:
                                nxt.append(s2)
                            elif sig == BRK:
                                broke.append(s2)
                            else:
                                out.append((s2, sig, v))
                    live = nxt
                    if len(live) > 1:
                        live = self.merge_states(live, n, fid, fi, keep_all=True)
                if n.orelse and live:
                    for o in self.exec_block(n.orelse, live, fid, fi):
                        out.append(o)
                else:
                    out.extend((s1, None, None) for s1 in live)
                out.extend((s1, None, None) for s1 in broke)
            else:
                starts = [s]
                for x in (elems or ())[:4]:
                    nxt = []
                    for s1 in starts:
                        self.assign_any(n.target, x, s1, fid)
                        for s2, sig, v in self.exec_block(n.body, [s1], fid, fi):
                            if sig is None or sig == CONT:
                                nxt.append(s2)
                            elif sig == BRK:
                                out.append((s2, None, None))
                            else:
                                out.append((s2, sig, v))
                    starts = self.merge_states(nxt, n, fid, fi, keep_all=True) if len(nxt) > 1 else nxt
                for s1 in starts:
                    out.extend(self.loop_unknown(n, s1, fid, fi, lambda k, s2: self.elem_of(s2, it, n, k), None))
        return out

    def s_While(self, n, st, fid, fi):
        return self.loop_unknown(n, st, fid, fi, None, n.test)

    def loop_unknown(self, n, st, fid, fi, elem, test):
        """zero, one and an arbitrary further iteration (with everything the body assigns forgotten)"""
        out = []
        exits = []
        broke = []
        live = [st]
        for k in (0, 1):
            nxt = []
            for s in live:
                if test is not None:
                    conds = []
                    for s1, c in self.eval(test, s, fid):
                        conds.extend(self.split(s1, c))
                else:
                    conds = [(s, True), (s.fork(), False)]
                for s1, t in conds:
                    if not t:
                        if k == 0 and test is None:
                            s1.facts["zero"] = 1
                        exits.append(s1)
                        continue
                    if elem is not None:
                        self.assign_any(n.target, elem(k, s1), s1, fid)
                    for s2, sig, v in self.exec_block(n.body, [s1], fid, fi):
                        if sig is None or sig == CONT:
                            nxt.append(s2)
                        elif sig == BRK:
                            broke.append(s2)
                        else:
                            out.append((s2, sig, v))
            if len(nxt) > 1:
                nxt = self.merge_states(nxt, n, fid, fi, keep_all=True)
            if k == 0:
                for s in nxt:
                    self.havoc(n, s, fid)
                if len(nxt) > 4:
                    nxt = self.merge_states(nxt, n, fid, fi, keep_all=True, cap=4)
            live = nxt
        for s in live:
            self.havoc(n, s, fid)
        exits.extend(live)
        if self.claims_under_if(n):
            for s in exits:
                s.facts["zero"] = 1
        if len(exits) > 1:
            exits = self.merge_states(exits, n, fid, fi, keep_all=True)
        if n.orelse and exits:
            out.extend(self.exec_block(n.orelse, exits, fid, fi))
        else:
            out.extend((s, None, None) for s in exits)
        out.extend((s, None, None) for s in broke)
        return out

    def claims_under_if(self, n):
        """does a branch in the loop body decide which call gets the outputs (relates iterations, which the abstraction does not)"""
        r = getattr(n, "_cl", None)
        if r is None:
            r = n._cl = any(isinstance(x, (ast.If, ast.IfExp)) and any(isinstance(k, ast.keyword) and k.arg == "outputs" or isinstance(k, ast.Attribute) and k.attr == "output" and
                                                                           isinstance(x, ast.IfExp) for k in ast.walk(x))
                            for b in n.body for x in ast.walk(b))
        return r

    def loop_effects(self, n):
        r = getattr(n, "_fx", None)
        if r is None:
            names, mut = set(), set()
            for st in n.body:
                for x in ast.walk(st):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                        names.add(x.id)
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and \
                            x.func.attr in ("append", "extend", "insert", "pop", "remove", "add", "update", "clear", "discard", "setdefault"):
                        mut.add(x.func.value.id)
                    elif isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                        mut.add(x.value.id)
                    elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name):
                        mut.add(x.target.id)
            if isinstance(n, ast.For):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            r = n._fx = (names, mut)
        return r

    def havoc(self, n, st, fid):
        names, mut = self.loop_effects(n)
        env = st.frames[fid]
        for v in names:
            if v in env:
                o = self.obj(st, env[v])
                if isinstance(env[v], (FnV, ClsV, ModV)):
                    continue
                if isinstance(o, (ListO, DictO)) and v in mut:
                    pass
                env[v] = Sym("loopvar", v, self.site(n))
        for v in mut:
            if v in env and isinstance(env[v], Ref):
                o = self.obj(st, env[v])
                if isinstance(o, ListO):
                    st.heap[env[v].a] = o.clone(open=True)
                elif isinstance(o, DictO):
                    st.heap[env[v].a] = o.clone(open=True)

    # ------------------------------------------------ merging
    def merge_states(self, states, stmt, fid, fi, keep_all=False, cap=None):
        cap = cap or self.cap()
        if fi is not None and not keep_all:
            lu = fi.lastuse()
            end = stmt.end_lineno
            for s in states:
                env = s.frames.get(fid)
                if env is None:
                    continue
                for v in [v for v in env if lu.get(v, 0) <= end and v not in ("self", "cls")]:
                    if lu.get(v, 0) <= end:
                        del env[v]
        for s in states:
            self.gc(s)
        out = []
        same = []
        for s in states:
            for i, t in enumerate(out):
                if t.frames == s.frames and t.heap == s.heap and t.facts == s.facts:
                    same[i].append(s)
                    break
            else:
                out.append(s)
                same.append([s])
        for t, l in zip(out, same):
            if len(l) > 1:
                self.merge_pcs(t, l)
        if len(out) > cap:
            out = self.join_states(out, stmt, cap)
        return out

    def merge_vals(self, res, e, fid):
        """merge (state, value) pairs after a call"""
        if len(res) <= 1:
            return res
        key = "$ret%d" % self.depth
        sts = []
        for s, v in res:
            s.frames.setdefault(fid, {})[key] = v
            sts.append(s)
        sts = self.merge_states(sts, e, fid, None, keep_all=True)
        return [(s, s.frames[fid].pop(key)) for s in sts]

    def join_vals(self, res, e, fid):
        return self.merge_vals(res, e, fid)

    def vals_in(self, v, out):
        if v.refs:
            out.extend(v.refs)

    def obj_refs(self, o, out):
        if isinstance(o, ListO):
            for x in o.items:
                self.vals_in(x, out)
        elif isinstance(o, DictO):
            for k, x in o.items.items():
                self.vals_in(k, out)
                self.vals_in(x, out)
        elif isinstance(o, InstO):
            for x in o.attrs.values():
                self.vals_in(x, out)
        elif isinstance(o, NodeO):
            for x in o.attrs.values():
                self.vals_in(x, out)
            self.vals_in(o.inputs, out)
            self.vals_in(o.outputs, out)
            self.vals_in(o.name, out)
            self.vals_in(o.type, out)

    roots = ()

    def gc(self, st):
        work = []
        for env in st.frames.values():
            for v in env.values():
                self.vals_in(v, work)
        work.extend(self.roots)
        seen = set()
        heap = st.heap
        while work:
            a = work.pop()
            if a in seen or a not in heap:
                continue
            seen.add(a)
            self.obj_refs(heap[a], work)
        dead = [a for a in heap if a not in seen]
        if dead:
            for a in dead:
                o = heap[a]
                if isinstance(o, NodeO):
                    self.final_node(st, a, o)
            for a in dead:
                del heap[a]
            self.gc_graph(st, set(dead))

    def gc_graph(self, st, dead):
        pass

    def final_node(self, st, addr, o):
        if self.mon:
            self.mon.final_node(self, st, addr, o)

    def join_states(self, states, stmt, cap):
        self.joined += 1
        # join everything beyond cap-1 into one state
        for s in states:
            # values this partition has settled survive the loss of its path facts
            for env in s.frames.values():
                for n, v in env.items():
                    if isinstance(v, Sym):
                        t = s.pc.get(v) if self._boolish(v) else None
                        env[n] = Const(t) if t is not None else self.res(s, v)
        keep = states[:cap // 2]
        rest = states[cap // 2:]
        j = rest[0]
        for s in rest[1:]:
            self.join_into(j, s, stmt)
        j.facts["joined"] = 1
        return keep + [j]

    def phi(self, stmt, what):
        return Sym("phi", self.site(stmt), what)

    def join_into(self, a, b, stmt):
        a.pc = {k: v for k, v in a.pc.items() if b.pc.get(k) == v}
        a.alts = tuple(g for g in a.alts if g in b.alts)
        for f, env in a.frames.items():
            eb = b.frames.get(f)
            if eb is None:
                continue
            for n in list(env):
                if n not in eb:
                    env[n] = self.phi(stmt, n)
                elif env[n] is not eb[n] and env[n] != eb[n]:
                    env[n] = self.phi(stmt, n)
        for k in list(a.facts):
            if b.facts.get(k) != a.facts[k]:
                a.facts[k] = self.join_fact(k, a.facts[k], b.facts.get(k))
        for k in b.facts:
            if k not in a.facts:
                a.facts[k] = self.join_fact(k, None, b.facts[k])
        for ad, ob in b.heap.items():
            oa = a.heap.get(ad)
            if oa is None:
                a.heap[ad] = ob
            elif oa is not ob and oa != ob:
                a.heap[ad] = self.join_obj(ad, oa, ob, stmt)

    def join_fact(self, k, x, y):
        if isinstance(x, frozenset) or isinstance(y, frozenset):
            return (x or frozenset()) & (y or frozenset())      # facts that hold on both
        if isinstance(x, int) and isinstance(y, int):
            return max(x, y)
        return x if y is None and isinstance(x, int) else (y if x is None and isinstance(y, int) else None)

    def join_obj(self, ad, x, y, stmt):
        if type(x) is not type(y):
            return x
        if isinstance(x, ListO):
            if len(x.items) == len(y.items) and not x.open and not y.open:
                return x.clone(items=tuple(p if p == q else self.phi(stmt, ("l", i)) for i, (p, q) in enumerate(zip(x.items, y.items))))
            n = 0
            while n < len(x.items) and n < len(y.items) and x.items[n] == y.items[n]:
                n += 1
            return x.clone(items=x.items[:n], open=True)
        if isinstance(x, DictO):
            items, may = {}, set(x.may | y.may)
            for k in list(x.items) + [k for k in y.items if k not in x.items]:
                if k in x.items and k in y.items:
                    items[k] = x.items[k] if x.items[k] == y.items[k] else self.phi(stmt, ("d", str(k)))
                else:
                    items[k] = x.items.get(k) or y.items.get(k)
                    may.add(k)
            return x.clone(items=items, may=frozenset(may), open=x.open or y.open)
        if isinstance(x, InstO):
            attrs = {}
            for k in set(x.attrs) | set(y.attrs):
                p, q = x.attrs.get(k), y.attrs.get(k)
                attrs[k] = p if p == q and p is not None else self.phi(stmt, ("i", k))
            return x.clone(attrs=attrs)
        if isinstance(x, NodeO):
            return self.join_node(ad, x, y, stmt)
        if isinstance(x, GraphO):
            return self.join_graph(ad, x, y, stmt)
        return x

    def join_node(self, ad, x, y, stmt):
        return x

    def join_graph(self, ad, x, y, stmt):
        return x

    # ------------------------------------------------ entry
    def reset(self):
        self.fparent = {}
        self.modstack = []
        self.stack = []
        self.excstack = []
        self.depth = 0
        self.steps = 0
        self.joined = 0
        self.limited = False
        self.opset_exact = False
        self.opset_bounds = set()
        self.entered = set()

    def run(self, fi, args, kw, st):
        """analyse fi from state st; returns list of (state, signal, value)"""
        fid = 0
        self.fparent[0] = None
        st.frames[0] = {}
        self.modstack.append(fi.mod)
        try:
            return self.call_function(fi, None, args, kw, st, fi.node, 0)
        finally:
            self.modstack.pop()
