"""C11: what becomes of the failure of a conversion step.

The drivers are interpreted path by path; every call of a step (a handler, a rewriter, an optimizer, a sort) forks a path on which it raises.
What such a path does until the driver returns is checked: it must log, and return only if the caller allowed that.
"""
import ast

from .absint import EXC, Sym, Const, Tup, Ref, ListO, State, NONE, TRUE, FALSE, Budget
from .options import OptInterp, terms
from .project import AnalysisBroken

LOUD = {"warning", "warn", "error", "exception", "critical", "fatal"}
E = frozenset()


class StepInterp(OptInterp):
    """steps: names of what may fail ("()": unknown functions; ".name": methods; "module:function")"""

    def __init__(self, proj, drivers, steps, results=None, overrides=None):
        super().__init__(proj, drivers, set(steps))
        self.risky = set(steps)
        self.results = results or {}
        self.overrides = overrides or {}
        self.calls = 0
        self.damaged = []

    EXC_CAP = 40

    def note(self, sink, env, st, e, order=()):
        super().note(sink, env, st, e, order)
        if sink in self.risky:
            self.calls += 1
            arg = lambda i: env.get(i, env.get(order[i]) if len(order) > i else None)
            st.facts[("tried", sink)] = st.facts.get(("tried", sink), E) | {self.frz(st, arg(i)) for i in (0, 1) if arg(i) is not None}
            f = st.fork()
            f.facts[("failed",)] = (sink, self.site(e), tuple(self.frz(st, arg(i)) if arg(i) is not None else None for i in (0, 1)), e.lineno, self.cur_fi)
            f.facts.pop(("loud",), None)
            self.note_exc(f)

    def s_Try(self, n, st, fid, fi):
        """what a step was given and may have half changed must not be what the function goes on with"""
        outs = super().s_Try(n, st, fid, fi)
        names = {x.id for r in ast.walk(fi.node) if isinstance(r, ast.Return) and r.value is not None for x in ast.walk(r.value) if isinstance(x, ast.Name)} if fi else ()
        for s, sig, v in outs:
            f = s.facts.get(("failed",))
            if not f or f[0] != ".optimize" or f[2][0] is None or sig == EXC:
                continue
            vals = {nm: s.frames[fid][nm] for nm in names if fid in s.frames and nm in s.frames[fid]} if sig is None else {"the returned value": v}
            for nm, x in vals.items():
                if x is None:
                    continue
                if any(shares(self.frz(s, y), f[2][0]) for y in (x.items if isinstance(x, Tup) else [x])):
                    self.damaged.append((nm, f[3], fi))
        return outs

    def intrinsic(self, st, full, args, kw, e, fid):
        if full in self.results and self.depth:
            r = self.results[full](self, st, args, kw, e)
            if r is not None:
                return [(st, r)]
        return super().intrinsic(st, full, args, kw, e, fid)

    def method(self, st, recv, name, args, kw, e):
        if name in LOUD or name == "log" and args and ("WARN" in str(args[0]) or "ERROR" in str(args[0]) or isinstance(args[0], Const) and isinstance(args[0].v, int) and args[0].v >= 30):
            st.facts[("loud",)] = 1
        if (recv, name) in self.overrides:
            return [(st, self.overrides[recv, name])]
        if name == "need_skip":
            st.facts[("visited",)] = 1
            return [(st, FALSE)] if self.overrides else super().method(st, recv, name, args, kw, e)
        return super().method(st, recv, name, args, kw, e)

    def list_method(self, st, recv, o, name, args, kw, e, fid):
        r = super().list_method(st, recv, o, name, args, kw, e, fid)
        if name in ("append", "extend", "insert") and args:
            st.facts[("held", recv.a)] = st.facts.get(("held", recv.a), E) | {self.frz(st, args[-1])}
        return r

    def sym_setattr(self, st, b, name, v, t, fid):
        st.facts[("attr", b, name)] = self.frz(st, v)
        return super().sym_setattr(st, b, name, v, t, fid)


def shares(x, given):
    """a step given this may have changed x"""
    return x == given or isinstance(given, Sym) and given.op == "call" and given.args[0] == "copy.copy" and given.args[1:2] == (x,)


def held(st, v):
    """terms a returned value is made of"""
    out = set()
    terms(st, v, out)
    todo = [v]
    seen = set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if isinstance(x, Tup):
            todo += list(x.items)
        elif isinstance(x, Ref):
            for y in st.facts.get(("held", x.a), E):
                terms(st, y, out)
                todo.append(y)
            o = st.heap.get(x.a)
            if isinstance(o, ListO):
                todo += list(o.items)
    return out


def run(proj, fi, drivers, steps, results=None, pc=None, overrides=None):
    ip = StepInterp(proj, drivers, steps, results, overrides)
    ip.known = {}
    ip.scale = 16
    ip.reset()
    st = State()
    ps = [a.arg for a in fi.node.args.posonlyargs + fi.node.args.args + fi.node.args.kwonlyargs]
    for k, v in (pc or {}).items():
        st.pc[k] = v
    try:
        outs = ip.run(fi, [Sym("param", p) for p in ps], {}, st)
    except Budget:
        raise AnalysisBroken("%s has more paths than the analysis follows" % fi.full)
    return ip, outs
