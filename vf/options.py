"""C15: every option of the entry points reaches, unchanged, each stage that honours it, on every path.

The entry functions are interpreted path by path with their parameters as unknowns.  Calls that leave the drivers (convert.py, tfonnx.py)
and the stages that honour options are not entered; what each gets for its parameters is recorded as a term over the entry's parameters.
"""
import ast

from .absint import Interp, State, Sym, Const, Tup, Ref, ListO, DictO, ClsV, NONE, TRUE, Budget
from .project import AnalysisBroken

PIPE = {"tf2onnx.tfonnx:process_tf_graph", "tf2onnx.optimizer:optimize_graph", "tf2onnx.tf_utils:compress_graph_def",
        "tf2onnx.utils:save_protobuf", "tf2onnx.utils:save_onnx_zip"}


SELF = Sym("param", "self")


class OptInterp(Interp):
    CAP = 4000

    def __init__(self, proj, drivers, sinks):
        super().__init__(proj, None)
        self.drivers = drivers          # modules whose functions are entered
        self.sinks = sinks
        self.events = []                # (sink, {formal: value}, state, call expression, function)
        self.noted = set()

    def note(self, sink, env, st, e, order=()):
        st.facts[("ev", sink)] = frozenset([1])
        if sink.startswith("tf2onnx.utils:save"):
            for v in env.values():
                if isinstance(v, Sym):
                    st.facts[("saved", self.res(st, v))] = frozenset([1])
        pc = State()
        pc.pc, pc.heap = dict(st.pc), dict(st.heap)
        pc.facts = dict(st.facts)
        self.events.append((sink, env, pc, e, self.cur_fi, order))

    def intrinsic(self, st, full, args, kw, e, fid):
        mod = full.split(":")[0]
        if full in self.known:
            return [(st, self.known[full])]
        if full in self.sinks:
            m = self.proj.mod(mod)
            fi = m.functions.get(full.split(":")[1])
            env = {}
            order = ()
            if fi is not None:
                order = [x.arg for x in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs]
                self.bind(fi.node.args, args, kw, env, st, fi, fi.mod, fid)
                given = set(order[:len(args)]) | set(kw)
                env = {k: v for k, v in env.items()}
                env["*given"] = given
            else:
                env = {i: a for i, a in enumerate(args)}
                env.update(kw)
            self.note(full, env, st, e, order)
            return [(st, Sym("call", full, Sym("at", self.site(e))))]
        if mod not in self.drivers:
            return [(st, Sym("call", full, *[self.frz(st, a) for a in args[:6]]))]
        return None

    def call_ext(self, st, name, args, kw, e, fid):
        if name in self.sinks:
            env = {i: a for i, a in enumerate(args)}
            env.update(kw)
            self.note(name, env, st, e)
        return super().call_ext(st, name, args, kw, e, fid)

    def list_method(self, st, recv, o, name, args, kw, e, fid):
        r = super().list_method(st, recv, o, name, args, kw, e, fid)
        if args and st.heap[recv.a].open:
            if name in ("extend", "update"):
                self.extend_by(st, recv, args[0])
            elif name in ("append", "add", "insert"):
                st.facts[("ext", recv.a)] = st.facts.get(("ext", recv.a), frozenset()) | {args[-1]}
        return r

    def extend_by(self, st, to, v):
        """what the list `to` holds besides its known items: the unknown v, or what the list v holds"""
        more = frozenset()
        if isinstance(v, Sym):
            more = frozenset([v])
        elif isinstance(v, Ref):
            o = st.heap.get(v.a)
            more = st.facts.get(("ext", v.a), frozenset()) | frozenset(o.items if isinstance(o, ListO) else ())
        if more:
            st.facts[("ext", to.a)] = st.facts.get(("ext", to.a), frozenset()) | more

    def _seqconv(self, st, args, e, fid, kind):
        r = super()._seqconv(st, args, e, fid, kind)
        for s, v in r:
            if args and isinstance(v, Ref) and s.heap[v.a].open:
                self.extend_by(s, v, self.res(s, args[0]))
        return r

    def binop(self, st, op, a, b, n, fid):
        v = super().binop(st, op, a, b, n, fid)
        if isinstance(op, ast.Add) and isinstance(v, Ref) and isinstance(st.heap.get(v.a), ListO) and st.heap[v.a].open:
            for x in (a, b):
                x = self.res(st, x)
                if isinstance(x, (Sym, Ref)):
                    self.extend_by(st, v, x)
        return v

    def mklist_star(self, st, e, fid, vs, kind="list"):
        r = super().mklist_star(st, e, fid, vs, kind)
        more = frozenset(a for v in vs if isinstance(v, Sym) and v.op == "star" for a in v.args if isinstance(a, Sym))
        if more and isinstance(r, Ref):
            st.facts[("ext", r.a)] = st.facts.get(("ext", r.a), frozenset()) | more
        return r

    def sym_method(self, st, recv, name, args, kw, e, fid):
        return self.method(st, recv, name, args, kw, e)

    def call_sym(self, st, fn, args, kw, e, fid):
        if fn.op == "getattr" and isinstance(fn.args[1], str):
            return self.method(st, fn.args[0], fn.args[1], args, kw, e)
        if "()" in self.sinks:          # a function the drivers are given or look up
            env = {i: a for i, a in enumerate(args)}
            env.update(kw)
            env["*fn"] = fn
            self.note("()", env, st, e)
        return super().call_sym(st, fn, args, kw, e, fid)

    def method(self, st, recv, name, args, kw, e):
        if "." + name in self.sinks:
            env = {i: a for i, a in enumerate(args)}
            env.update(kw)
            env["*recv"] = recv
            self.note("." + name, env, st, e)
        elif recv == SELF and self.cur_fi is not None and self.cur_fi.cls is not None:
            # a small helper of the class that is interpreted
            m = next((c.methods[name] for c in self.cur_fi.cls.mro() if name in c.methods), None)
            if m is not None and m.mod.name in self.drivers and sum(isinstance(x, ast.stmt) for x in ast.walk(m.node)) <= 14 and not any(f[0] is m for f in self.stack):
                return self.call_function(m, None, [recv] + list(args), kw, st, e, ("self", len(self.stack)))
        return [(st, Sym("mcall", recv, name, *([self.frz(st, a) for a in args] + [Tup([Const(k), self.frz(st, v)]) for k, v in sorted(kw.items())])))]


def terms(st, v, out, seen=None):
    """every unknown mentioned by a value, containers included; None in out means something could not be followed"""
    seen = set() if seen is None else seen
    if v in seen:
        return
    seen.add(v)
    if isinstance(v, Sym):
        out.add(v)
        if "#" in v.args[:1]:
            out.add(None)
        for a in v.args:
            if isinstance(a, (Sym, Tup, Ref)):
                terms(st, a, out, seen)
    elif isinstance(v, Tup):
        for x in v.items:
            terms(st, x, out, seen)
    elif isinstance(v, Ref):
        o = st.heap.get(v.a)
        if isinstance(o, ListO):
            more = st.facts.get(("ext", v.a))
            for x in more or ():
                terms(st, x, out, seen)
            if isinstance(o.open, Sym):
                terms(st, o.open, out, seen)
            elif more:
                pass
            elif o.open:
                out.add(None)
            for x in o.items:
                terms(st, x, out, seen)
        elif isinstance(o, DictO):
            if o.open:
                out.add(None)
            for k, x in o.items.items():
                terms(st, k, out, seen)
                terms(st, x, out, seen)


ARITH = ("binop", "unary", "eq", "lt", "not", "in", "isnone", "and", "or", "len", "compare")


def empty(st, v):
    if isinstance(v, Const):
        return not v.v
    if isinstance(v, Tup):
        return not v.items
    o = st.heap.get(v.a) if isinstance(v, Ref) else None
    return isinstance(o, (ListO, DictO)) and not o.items and not o.open


def carries(ip, st, v, p):
    """does value v hand on option p?  True / False / None (not known)"""
    v = ip.res(st, v) if not isinstance(v, Const) else v
    pv = ip.res(st, p)
    if v == p or v == pv:
        return True
    unset = ip.truth(st, p) is False or pv == NONE
    if unset and (empty(st, v) or v == pv):
        return True
    ts = set()
    terms(st, v, ts)
    if p in ts:
        if isinstance(v, Sym) and v.op in ARITH:
            return False
        return True
    if None in ts:
        return None
    if unset and isinstance(v, (Sym, Ref)):
        return True         # not set: what stands in for it is up to the callee's defaults
    return False


def run_unit(proj, fi, args, drivers, sinks, pc=None, known=None):
    ip = OptInterp(proj, drivers, sinks)
    ip.known = known or {}
    ip.scale = 4
    ip.reset()
    st = State()
    for k, v in (pc or {}).items():
        st.pc[k] = v
    try:
        outs = ip.run(fi, args, {}, st)
    except Budget:
        raise AnalysisBroken("%s has more paths than the analysis follows" % fi.full)
    return ip, [s for s, v in outs]
