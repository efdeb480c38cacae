"""What the generated TFLite reader methods read: slot, kind and default of every field, from the paths of each method (not its text)."""
from .absint import Interp, State, Sym, Const, Tup, Ref, ListO, NONE, Budget
from .options import OptInterp

PY = ("call", "mcall")


def canon(st, v, param):
    """a normal form of the value a reader method returns"""
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Tup):
        return "(%s)" % ",".join(canon(st, x, param) for x in v.items)
    if isinstance(v, Sym):
        a = v.args
        if v.op == "call" and str(a[0]).split(".")[-1] == "py_type" and len(a) == 2:
            return canon(st, a[1], param)
        if v.op == "call" and str(a[0]) in ("builtins.bool", "builtins.int"):
            return canon(st, a[-1], param)
        if v.op == "mcall":
            recv, name, rest = a[0], a[1], a[2:]
            if name == "Offset":
                return "slot%s" % canon(st, rest[0], param)
            return "%s(%s)" % (name, ",".join(canon(st, x, param) for x in rest if not isinstance(x, (Sym,)) or x != recv))
        if v.op == "binop" and a[0] in ("Add", "Mult"):
            flat = []

            def walk(x):
                if isinstance(x, Sym) and x.op == "binop" and x.args[0] == a[0]:
                    walk(x.args[1]); walk(x.args[2])
                else:
                    flat.append(canon(st, x, param))
            walk(v)
            return "%s[%s]" % (a[0], ",".join(sorted(flat)))
        if v.op == "getattr":
            return str(a[1])
        if v.op == "eq":
            return "eq[%s]" % ",".join(sorted([canon(st, a[0], param), canon(st, a[1], param)]))
        if v.op == "not":
            return "not[%s]" % canon(st, a[0], param)
        if v.op == "param":
            return param.get(a[0], "?")
        if v.op == "call":
            n = str(a[0])
            if ":" in n:
                return "new " + n.split(":")[-1]
            return "new " + n.split(".")[-1] if n.split(".")[-1][:1].isupper() else "%s(%s)" % (n, ",".join(canon(st, x, param) for x in a[1:]))
        return "%s(%s)" % (v.op, ",".join(canon(st, x, param) if isinstance(x, (Sym, Const, Tup)) else str(x) for x in a))
    n = getattr(v, "name", None)
    if n:
        return str(n).split(".")[-1]
    return "?%s" % type(v).__name__


def boolean(st, v):
    return isinstance(v, Sym) and v.op in ("eq", "not")


class ReadInterp(OptInterp):
    def instantiate(self, st, ci, args, kw, e, fid):
        if "Init" in ci.methods:            # another table of the schema
            return [(st, Sym("call", "%s:%s" % (ci.mod.name, ci.node.name)))]
        return super().instantiate(st, ci, args, kw, e, fid)


def behaviour(proj, fi, drivers):
    """sorted list of 'condition => value; reads' or None"""
    ip = ReadInterp(proj, drivers, {".Init", ".Union", "flatbuffers.table.Table"})
    ip.known, ip.scale = {}, 2
    ip.reset()
    names = [a.arg for a in fi.node.args.args]
    param = {n: "arg%d" % i for i, n in enumerate(names)}
    try:
        outs = ip.run(fi, [Sym("param", n) for n in names], {}, State())
    except Budget:
        return None
    res = set()
    for st, v in outs:
        v = ip.res(st, v)
        if boolean(st, v):
            t = ip.truth(st, v)
            if t is not None:
                v = Const(t)
        cond = []
        for k, x in st.pc.items():
            if isinstance(k, Sym) and k.op == "eq":
                c = canon(st, k, param)
                cond.append("%s%s" % ("" if x else "not ", c))
            elif isinstance(k, Sym):        # truth of a slot: it is not 0
                cond.append("%seq[%s]" % ("not " if x else "", ",".join(sorted(["0", canon(st, k, param)]))))
        ev = []
        for sink, env, est, e, fn, order in ip.events:
            if all(est.pc.get(k) == x for k, x in st.pc.items() if k in est.pc) and len(est.pc) <= len(st.pc) \
                    and not any(k in st.pc and st.pc[k] != x for k, x in est.pc.items()) and sink in (".Init", ".Union"):
                ev.append("%s(%s)" % (sink, ",".join(canon(st, env[i], param) for i in sorted(k for k in env if isinstance(k, int)))))
        res.add("%s => %s%s" % (" & ".join(sorted(cond)), canon(st, v, param), "".join("; " + x for x in sorted(set(ev)))))
    return sorted(res)


def table_classes(proj, pkg):
    """(module, class) of every flatbuffers table reader under pkg"""
    for m in proj.modules.values():
        if m.name.startswith(pkg):
            for c in m.classes.values():
                if "Init" in c.methods:
                    yield m, c


def fields(c):
    for n, fi in sorted(c.methods.items()):
        if n == "Init" or n.startswith("GetRootAs") or n.endswith("BufferHasIdentifier") or n.startswith("_"):
            continue
        yield n, fi


def enums(proj, pkg):
    import ast
    for m in proj.modules.values():
        if m.name.startswith(pkg):
            for c in m.classes.values():
                if "Init" in c.methods or c.methods:
                    continue
                yield m, c
