"""Handler registry read statically from @tf_op / @tfl_op decorators, mirroring handler.tf_op.create_mapping."""
import ast

from .project import ClassInfo, AnalysisBroken, loc


class Handler:
    __slots__ = ("op", "version", "domain", "kwargs", "cls", "fi", "mod", "deco", "order", "kind")

    def __repr__(self):
        return "%s@%s v%d %s" % (self.op, self.domain, self.version, self.fi.full)


def const_eval(proj, mod, e, depth=0):
    """value of a literal-ish expression through module constants; raises ValueError"""
    if depth > 20:
        raise ValueError
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        out = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                out.extend(const_eval(proj, mod, x.value, depth + 1))
            else:
                out.append(const_eval(proj, mod, x, depth + 1))
        return out
    if isinstance(e, ast.Dict):
        return {const_eval(proj, mod, k, depth + 1): const_eval(proj, mod, v, depth + 1) for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        return const_eval(proj, mod, e.left, depth + 1) + const_eval(proj, mod, e.right, depth + 1)
    if isinstance(e, ast.ListComp) and len(e.generators) == 1 and isinstance(e.generators[0].target, ast.Name) and not e.generators[0].ifs:
        raise ValueError
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = proj.resolve_expr(mod, e)
        from .project import Global
        if isinstance(r, Global):
            vals = [d for d in r.mod.defs.get(r.name, []) if isinstance(d, ast.Assign)]
            if len(vals) == 1 and isinstance(vals[0].targets[0], ast.Name):
                return const_eval(proj, r.mod, vals[0].value, depth + 1)
    raise ValueError(ast.dump(e)[:80])


def load(proj):
    """-> (handlers in registration order, problems)"""
    hs, probs = [], []
    order = 0
    for m in proj.modules.values():
        for ci in m.classes.values():
            # decorators apply bottom-up
            for d in reversed(ci.node.decorator_list):
                if not isinstance(d, ast.Call):
                    continue
                tgt = proj.resolve_expr(m, d.func)
                if not isinstance(tgt, ClassInfo) or tgt.full not in ("tf2onnx.handler:tf_op", "tf2onnx.handler:tfl_op"):
                    continue
                kind = tgt.full.split(":")[1]
                try:
                    names = const_eval(proj, m, d.args[0] if d.args else [k.value for k in d.keywords if k.arg == "name"][0])
                    if not isinstance(names, list):
                        names = [names]
                    dom = ""
                    if len(d.args) > 1:
                        dom = const_eval(proj, m, d.args[1])
                    kw = {}
                    for k in d.keywords:
                        if k.arg == "name":
                            continue
                        v = const_eval(proj, m, k.value)
                        if k.arg == "domain":
                            dom = v
                        else:
                            kw[k.arg] = v
                except (ValueError, IndexError) as ex:
                    probs.append((loc(m, d), "cannot evaluate decorator: %s" % ex))
                    continue
                meths = {}
                for c in reversed(ci.mro()):
                    meths.update(c.methods)
                for nm in sorted(meths):
                    fi = meths[nm]
                    if nm.startswith("version_") and nm[8:].isdigit() and "classmethod" in fi.decos:
                        for op in names:
                            h = Handler()
                            h.op, h.version, h.domain, h.kwargs, h.cls, h.fi, h.mod, h.deco, h.kind = \
                                op, int(nm[8:]), dom, kw, ci, fi, m, d, kind
                            h.order = order
                            order += 1
                            hs.append(h)
                    elif kind == "tfl_op" and nm == "to_tf":
                        for op in names:
                            h = Handler()
                            h.op, h.version, h.domain, h.kwargs, h.cls, h.fi, h.mod, h.deco, h.kind = \
                                op, 0, "com.google.tensorflow", kw, ci, fi, m, d, "to_tf"
                            h.order = order
                            order += 1
                            hs.append(h)
    if len(hs) < 300:
        raise AnalysisBroken("only %d registered handlers found" % len(hs))
    return hs, probs


def mapping(hs, opset, extra=None):
    """op -> Handler for a main-domain opset, mirroring create_mapping"""
    out = {}
    doms = {"": opset}
    doms.update(extra or {})
    order = []
    for h in hs:
        if h.domain not in order:
            order.append(h.domain)
    for d in order:
        m = doms.get(d)
        if not m:
            continue
        for v in range(0, m + 1):
            for h in hs:
                if h.domain == d and h.version == v:
                    out[h.op] = h
    return out
