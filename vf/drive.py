"""Run the abstract interpreter over conversion units (handlers, rewriters ...), once per opset cell."""
import multiprocessing
import os
import sys
import time

from .absint import Const, Sym, Ref, Budget, ClsV, TRUE, FALSE, NONE
from .gmodel import GraphInterp, load_oracle
from .project import Project
from . import registry

TF = load_oracle("tf")
OPSETS = tuple(range(6, 19))


def node_io(op):
    """(definite inputs, more possible?, definite outputs, more possible?); lists are taken to be non-empty"""
    d = TF["ops"].get(op.split(":")[-1])        # fixtures: "VFName:TensorFlow op"
    if d is None:
        return 1, True, 1, True
    res = []
    for side in ("in", "out"):
        n = 0
        op_ = False
        for nm, lst in d[side]:
            if op_:
                break
            if lst:
                op_ = True
                n += max(1, d.get("min", {}).get(lst, 1))
            else:
                n += 1
        res += [n, op_]
    return tuple(res)


def io_variants(op):
    """shapes of the op's input list to analyse: non-empty list arguments, and empty ones where TensorFlow allows both"""
    io = node_io(op)
    res = [io]
    d = TF["ops"].get(op)
    if d is not None and any(lst and d.get("min", {}).get(lst) == 0 for _, lst in d["in"]) and any(not lst for _, lst in d["in"]):
        lists = [lst for _, lst in d["in"] if lst]
        if len(lists) == 1 and d["in"][-1][1]:
            res.append((len(d["in"]) - 1, False) + io[2:])
    return res


def run_handler(proj, h, opset, mon, io=None, scale=1):
    ip = GraphInterp(proj, mon, opset)
    ip.scale = scale
    ip.reset()
    st = ip.init_state()
    n_in, in_open, n_out, out_open = io or node_io(h.op)
    kw = {k: Const(v) for k, v in h.kwargs.items()}
    lower = h.kind == "to_tf"
    conv = h.kwargs.get("tf_op" if lower else "onnx_op")
    node = ip.tf_node(st, conv or h.op, n_in, n_out, in_open=in_open, out_open=out_open, orig=h.op)
    if conv:
        kw["tfl_op" if lower else "tf_op"] = Const(h.op)
    kw["initialized_tables"] = Sym("tables")
    kw["dequantize"] = Sym("dequantize")
    mon.unit = h
    mon.begin(ip, st, h)
    try:
        outs = ip.run(h.fi, [ClsV(h.cls), ip.GRAPH, node], kw, st)
        ip.finish(outs)
        mon.count("paths", len(outs))
        mon.n_paths = len(outs)
    except Budget:
        mon.count("budget")
        mon.n_paths = 0
    if ip.joined:
        mon.count("joined_units")
    mon.count("steps", ip.steps)
    return ip


def cell(ip, o, lo, hi):
    """opsets in [lo, hi] on which the run made at opset o is valid"""
    if ip.opset_exact:
        return [o]
    return [p for p in range(lo, hi + 1) if not any(min(o, p) < b <= max(o, p) for b in ip.opset_bounds)]


def handler_units(hs, opsets=OPSETS):
    """(handler, lo, hi): the opsets for which the handler is the one the mapping selects"""
    span = {}
    for o in opsets:
        for op, h in registry.mapping(hs, o).items():
            if h.domain == "":
                span.setdefault(id(h), (h, []))[1].append(o)
    return [(h, min(v), max(v)) for h, v in span.values()]


def over_cells(proj, h, lo, hi, make_mon, scale=1, ios=None):
    """yield (monitor, opsets) covering every opset in [lo, hi]"""
    for io in ios or io_variants(h.op):
        todo = list(range(lo, hi + 1))
        while todo:
            o = todo[-1]
            mon = make_mon()
            ip = run_handler(proj, h, o, mon, io, scale)
            c = cell(ip, o, lo, hi)
            yield mon, c
            todo = [x for x in todo if x not in c]


def explore(proj, h, lo, hi, make_mon, at_least=1, max_steps=400000, ios=None):
    """-> (runs, scale): over_cells at the largest scale that is cheap enough (joining partitions loses precision), at least `at_least`"""
    scale = at_least
    while True:
        runs = list(over_cells(proj, h, lo, hi, make_mon, scale, ios))
        steps = sum(m.stats.get("steps", 0) for m, _ in runs)
        if scale >= 64 or steps * 4 > max_steps or not any(m.stats.get("joined_units") for m, _ in runs):
            return runs, scale
        scale *= 4


def confirm(once, is_open, limit=64):
    """once(at_least) -> (result, scale); rerun at larger scales while is_open(result)"""
    res, scale = once(1)
    while scale < limit and is_open(res):
        res, scale = once(scale * 4)
    return res


# ---------------------------------------------------------------- parallel map over units
_job = None


def _call(i):
    sys.setrecursionlimit(30000)
    fn, items = _job
    return fn(items[i])


def pmap(fn, items, procs=None):
    """fn over items in forked workers (the project and units are inherited, results must pickle)"""
    global _job
    _job = (fn, items)
    procs = procs or min(8, os.cpu_count() or 1)
    if procs == 1:
        return [_call(i) for i in range(len(items))]
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        return pool.map(_call, range(len(items)), chunksize=1)


def reachable_ops(proj):
    """predicate: an op name outside TensorFlow's registry that some code other than handler registrations mentions"""
    import ast
    lits = set()
    for name, m in proj.modules.items():
        if not name.startswith("tf2onnx"):
            continue
        skip = set()
        for ci in m.classes.values():
            for d in ci.node.decorator_list:
                skip.update(id(x) for x in ast.walk(d))
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and id(n) not in skip:
                lits.add(n.value)
    return lambda op: op in lits or op.startswith(("TFL_", "VF"))
