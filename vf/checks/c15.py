"""C15: options reach the stages that honour them."""
import ast

from ..absint import Sym, Const, NONE
from ..project import Project, AnalysisBroken, dotted
from ..options import OptInterp, run_unit, carries, terms, PIPE

EXPLANATION = ("The entry points and drivers are interpreted path by path with their parameters as unknowns; every call into a stage that honours an option is "
               "compared, as a term over those parameters, with the option it has to receive.")

T, O, U = "tf2onnx.tfonnx:", "tf2onnx.optimizer:", "tf2onnx.utils:"
PROC = T + "process_tf_graph"
FORWARD = ["target", "opset", "custom_op_handlers", "custom_rewriter", "extra_opset", "shape_override", "inputs_as_nchw", "outputs_as_nchw", "input_names",
           "output_names", "tensors_to_rename", "ignore_default", "use_default", "dequantize", "continue_on_error", "tflite_path"]
LOADERS = {"tf2onnx.tf_loader:" + x for x in ("from_graphdef", "from_checkpoint", "from_saved_model", "from_keras", "from_function", "from_trackable", "freeze_session", "tf_optimize")}
SAVE = [U + "save_protobuf", U + "save_onnx_zip"]
ENTRY_SINKS = PIPE | LOADERS | {".make_model", ".update"}

# command line option -> what receives it: (stage, its parameter)
CLI = {k: [(PROC, k)] for k in ("target", "opset", "shape_override", "inputs_as_nchw", "outputs_as_nchw", "ignore_default", "use_default", "dequantize", "continue_on_error")}
CLI.update({
    "extra_opset": [(PROC, "extra_opset")], "custom_ops": [(PROC, "custom_op_handlers")],
    "rename_inputs": [(".update", 0)], "rename_outputs": [(".update", 0)],
    "output": [(U + "save_protobuf", "path"), (U + "save_onnx_zip", "path")],
    "tag": [("tf2onnx.tf_loader:from_saved_model", "tag")], "signature_def": [("tf2onnx.tf_loader:from_saved_model", "signatures")],
    "concrete_function": [("tf2onnx.tf_loader:from_saved_model", "concrete_function")],
    "use_graph_names": [("tf2onnx.tf_loader:from_saved_model", "use_graph_names")],
    "graphdef": [("tf2onnx.tf_loader:from_graphdef", "model_path")], "checkpoint": [("tf2onnx.tf_loader:from_checkpoint", "model_path")],
    "saved_model": [("tf2onnx.tf_loader:from_saved_model", "model_path")], "keras": [("tf2onnx.tf_loader:from_keras", "model_path")],
    "tflite": [(PROC, "tflite_path")], "tfjs": [(PROC, "tfjs_path")],
})
CLI_WHEN = {"rename_inputs", "rename_outputs", "output", "custom_ops", "graphdef", "checkpoint", "saved_model", "keras", "tflite", "tfjs"}
CLI_SAVED = {"tag", "signature_def", "concrete_function", "use_graph_names"}


class Judge:
    def __init__(self, rep, unit, ip, outs):
        self.rep, self.unit, self.ip, self.outs = rep, unit, ip, outs
        self.bad = {}

    def hit(self, rule, key, msg, e=None, fi=None):
        self.bad.setdefault((rule, key), (msg, e, fi))

    def option(self, name, p, sinks, when=None, rule="option-lost"):
        """p reaches one of the sinks on every path that returns, and whatever reaches them is p"""
        ip = self.ip
        n = 0
        for sink, formal in sinks:
            for s, env, st, e, fi, order in ip.events:
                if s != sink:
                    continue
                if when is not None and ip.truth(st, when) is not True or st.facts.get("zero"):
                    continue
                n += 1
                self.rep.count("options handed to a stage")
                v = self.formal(env, formal, p, st, order)
                if v is None:
                    self.hit(rule, "%s -> %s" % (name, sink.split(":")[-1]), "%s does not hand %s to %s" % (self.unit, name, sink.split(":")[-1]), e, fi)
                    continue
                c = carries(ip, st, v, p)
                if c is False and sink != ".update":
                    self.hit(rule, "%s -> %s" % (name, sink.split(":")[-1]), "%s hands %s something other than %s" % (self.unit, sink.split(":")[-1], name), e, fi)
        for st in self.outs:
            if when is not None and ip.truth(st, when) is not True:
                continue
            self.rep.count("paths that must hand an option on")
            if not any(st.facts.get(("ev", s)) for s, _ in sinks):
                self.hit(rule, "%s -> %s" % (name, "/".join(s.split(":")[-1] for s, _ in sinks)),
                         "%s returns without handing %s to any of %s" % (self.unit, name, ", ".join(s.split(":")[-1] for s, _ in sinks)))
        return n

    @staticmethod
    def formal(env, formal, p, st, order):
        if formal in env:
            return env[formal]
        if isinstance(formal, int):
            return None
        for k, v in env.items():        # the stage calls its parameter otherwise
            if isinstance(k, str) and not k.startswith("*"):
                ts = set()
                terms(st, v, ts)
                if p in ts:
                    return v
        return None

    def report(self):
        for (rule, key), (msg, e, fi) in sorted(self.bad.items()):
            loc = "%s:%d (%s)" % (fi.mod.rel, e.lineno, fi.qual) if fi is not None and e is not None else self.unit
            self.rep.find(rule, "%s %s" % (self.unit, key), msg, loc)


def entry(rep, proj, fi, params=None, extra=(), pc=None):
    """one API entry point"""
    ps = [a.arg for a in fi.node.args.args]
    if extra:
        ps0 = ps
    args = [Sym("param", x) for x in ps]
    ip, outs = run_unit(proj, fi, args, {fi.mod.name, "tf2onnx.convert"}, ENTRY_SINKS, pc)
    j = Judge(rep, fi.qual, ip, outs)
    rep.count("paths", len(outs))
    rep.count("entry points")
    P = {n: a for n, a in zip(ps, args)}
    for n in FORWARD:
        if n in P:
            j.option(n, P[n], [(PROC, n)])
    if "optimizers" in P:
        j.option("optimizers", P["optimizers"], [(O + "optimize_graph", "optimizers")])
    if "custom_ops" in P:
        custom_ops(j, P["custom_ops"])
    if "input_signature" in P:
        called = [x for st in outs for x in [0]]
        uses = any(P["input_signature"] in ts_of(st, env) for _, env, st, _, _, _ in ip.events)
        if called and not uses:
            j.hit("option-lost", "input_signature", "%s does not trace the model with input_signature" % fi.qual)
    large_and_output(j, P.get("large_model"), P.get("output_path"), None, P.get("graph_def"))
    catch_errors(j)
    if ip.joined:
        raise AnalysisBroken("paths of %s were joined" % fi.full)
    return j


def ts_of(st, env):
    ts = set()
    for k, v in env.items():
        if not isinstance(v, (set, str, int)) and v is not None:
            terms(st, v, ts)
    return ts


def custom_ops(j, p):
    for s, env, st, e, fi, order in j.ip.events:
        if s != PROC or j.ip.res(st, p) == NONE or j.ip.truth(st, p) is False:
            continue
        v = env.get("custom_op_handlers")
        ok = v is not None and carries(j.ip, st, v, p) is not False
        if not ok:      # merged into the handlers given
            ok = any(s2 == ".update" and e2.lineno <= e.lineno and ts_of(st2, env2) & {p, None} for s2, env2, st2, e2, _, _ in j.ip.events)
        j.rep.count("options handed to a stage")
        if not ok:
            j.hit("option-lost", "custom_ops -> process_tf_graph", "%s does not add custom_ops to the handlers" % j.unit, e, fi)


def large_and_output(j, large, out, frozen, graph_def):
    ip = j.ip
    L = (lambda st: ip.truth(st, large)) if large is not None else (lambda st: False)
    for s, env, st, e, fi, order in ip.events:
        l = L(st)
        if s == ".make_model":
            j.rep.count("options handed to a stage")
            v = env.get("external_tensor_storage", NONE)
            v = ip.res(st, v)
            if l is True and v == NONE:
                j.hit("large-model", "make_model storage", "%s makes a large model without a store for its tensors" % j.unit, e, fi)
            if l is False and v != NONE:
                j.hit("large-model", "make_model no storage", "%s moves the tensors of an ordinary model out of it" % j.unit, e, fi)
        elif s == "tf2onnx.tf_utils:compress_graph_def":
            v = ip.res(st, env.get("graph_def", NONE))
            if l is False:
                j.hit("large-model", "compress", "%s takes the constants out of an ordinary model" % j.unit, e, fi)
            if v == NONE:
                j.hit("large-model", "compress without graph", "%s compresses a graph it does not have" % j.unit, e, fi)
        elif s in SAVE:
            v = env.get("path", env.get("filename"))
            if v is None:
                v = next((x for k, x in env.items() if k in order[:1]), None)
            if s.endswith("save_onnx_zip") and l is not True or s.endswith("save_protobuf") and l is True and (frozen is None or carries(ip, st, v, frozen) is False):
                j.hit("large-model", "save " + s.split(":")[1], "%s saves %s model with %s" % (j.unit, "a large" if l else "an ordinary", s.split(":")[1]), e, fi)
            if out is not None and carries(ip, st, v, out) is False and (frozen is None or carries(ip, st, v, frozen) is False):
                j.hit("option-lost", "output_path -> " + s.split(":")[1], "%s saves to something other than the output path" % j.unit, e, fi)
            if out is not None and ip.truth(st, out) is False and v == out:
                j.hit("option-lost", "output_path unset", "%s saves a model nobody asked to save" % j.unit, e, fi)
    for st in j.outs:
        if out is not None and ip.truth(st, out) is True:
            j.rep.count("paths that must hand an option on")
            if not any(k[0] == "saved" and carries(ip, st, k[1], out) for k, v in st.facts.items() if isinstance(k, tuple) and v):
                j.hit("option-lost", "output_path", "%s returns without saving the model to the output path" % j.unit)
        if out is not None and ip.truth(st, out) is None:
            j.hit("option-lost", "output_path", "%s returns without considering the output path" % j.unit)
    if large is not None and not any(s == ".make_model" and L(st) is not None for s, env, st, *_ in ip.events):
        j.hit("large-model", "ignored", "%s does not consider large_model" % j.unit)


def catch_errors(j):
    for s, env, st, e, fi, order in j.ip.events:
        if s != O + "optimize_graph":
            continue
        asked = [k for k, v in st.pc.items() if isinstance(k, Sym) and k.op == "in" and v is True and "os.environ" in repr(k)]
        if not asked:
            continue
        j.rep.count("options handed to a stage")
        v = env.get("catch_errors")
        # the environment settles it: its value is a condition of the path, or part of what is passed
        ts = ts_of(st, {"v": v}) | {k for k in st.pc if isinstance(k, Sym)}
        if not any("os.environ" in repr(t) and t not in asked for t in ts) and not any("os.getenv" in repr(t) for t in ts):
            j.hit("option-lost", "TF2ONNX_CATCH_ERRORS", "%s decides whether to catch optimizer errors without the value of the environment variable" % j.unit, e, fi)


CLI_ARGS = Sym("cli")
SOURCES = ("graphdef", "checkpoint", "saved_model", "keras", "tflite", "tfjs")


def cli(rep, proj):
    """main, for one kind of model at a time and the other options unknown"""
    fi = proj.func("tf2onnx.convert", "main")
    res = []
    for src in SOURCES:
        pc = {}
        for x in SOURCES + ("verbose", "debug", "load_op_libraries"):
            p = Sym("getattr", CLI_ARGS, x)
            pc[p] = x == src or x == "verbose" and src == "graphdef"
            if x == src:
                pc[("none", p)] = False
        ip, outs = run_unit(proj, fi, [], {"tf2onnx.convert"}, ENTRY_SINKS - {"tf2onnx.convert:get_args"}, pc, {"tf2onnx.convert:get_args": CLI_ARGS})
        if ip.joined:
            raise AnalysisBroken("paths of main were joined")
        j = Judge(rep, "main", ip, outs)
        rep.count("paths", len(outs))
        for name, sinks in CLI.items():
            p = Sym("getattr", CLI_ARGS, name)
            if name in SOURCES and name != src or name in CLI_SAVED and src != "saved_model":
                continue
            if name in ("rename_inputs", "rename_outputs"):
                rename(j, name, p)
            elif name == "output":
                pass
            elif name == "shape_override" or name == "dequantize" and src != "tflite":
                j.option("--" + name, p, sinks, rule="cli-option-lost")
            else:
                j.option("--" + name, p, sinks, p if name in CLI_WHEN else None, rule="cli-option-lost")
        large_and_output(j, Sym("getattr", CLI_ARGS, "large_model"), Sym("getattr", CLI_ARGS, "output"), Sym("getattr", CLI_ARGS, "output_frozen_graph"), None)
        catch_errors(j)
        res.append(j)
    bad = {}
    for j in res:
        for k, v in j.bad.items():
            bad.setdefault(k, v)
    res[0].bad = bad
    return res[0]


def rename(j, name, p):
    for s, env, st, e, fi, order in j.ip.events:
        if s != PROC or j.ip.truth(st, p) is not True:
            continue
        j.rep.count("options handed to a stage")
        v = env.get("tensors_to_rename")
        if carries(j.ip, st, v, p) is False and not any(s2 == ".update" and p in ts_of(st2, env2) for s2, env2, st2, *_ in j.ip.events):
            j.hit("cli-option-lost", "--%s -> process_tf_graph" % name, "main does not rename tensors by --%s" % name, e, fi)


def declared(rep, proj):
    """every option get_args declares is read, and every one read is declared"""
    m = proj.mod("tf2onnx.convert")
    dests = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "add_argument":
            names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            d = next((k.value.value for k in n.keywords if k.arg == "dest" and isinstance(k.value, ast.Constant)), None)
            if d is None and names:
                long = [x for x in names if x.startswith("--")]
                d = (long or names)[0].lstrip("-").replace("-", "_")
            if d:
                dests[d] = n
    reads, writes, listed = {}, set(), set()
    # names that hold the parsed options
    holders = {"args"}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and (dotted(n.value.func) or "").split(".")[-1] in ("get_args", "parse_args"):
            holders |= {t.id for t in n.targets if isinstance(t, ast.Name)}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.FunctionDef) and any(isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and
                                                  (c.func.id == "getattr" and len(c.args) > 1 and not isinstance(c.args[1], ast.Constant) or c.func.id == "vars") for c in ast.walk(n)):
            # options looked up by names from a list
            decl = {id(x) for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "add_argument" for x in ast.walk(c)}
            for x in ast.walk(n):
                if isinstance(x, ast.Constant) and isinstance(x.value, str) and id(x) not in decl:
                    listed.add(x.value)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
            listed.add(n.args[1].value)
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in holders:
            if isinstance(n.ctx, ast.Load):
                reads.setdefault(n.attr, n)
            else:
                writes.add(n.attr)
    for d, n in sorted(dests.items()):
        rep.count("command line options")
        if d not in reads and d not in listed:
            rep.find("cli-option-lost", "get_args --%s unread" % d, "no code reads the option --%s" % d, "%s:%d (get_args)" % (m.rel, n.lineno))
    for d, n in sorted(reads.items()):
        if d not in dests and d not in writes and d not in ("parse_args",):
            rep.find("cli-option-lost", "get_args %s undeclared" % d, "args.%s is read, but no option declares it" % d, "%s:%d" % (m.rel, n.lineno))


def stage(rep, proj, fi, sinks, obligations, drivers=("tf2onnx.tfonnx",), unit=None):
    ps = [a.arg for a in fi.node.args.args]
    P = {x: Sym("param", x) for x in ps}
    names = {s for o in obligations for s, _ in o[1]} | set(sinks)
    names.discard(fi.full) if not any(s == fi.full for o in obligations for s, _ in o[1]) else None
    ip, outs = run_unit(proj, fi, [P[x] for x in ps], set(drivers), names)
    j = Judge(rep, unit or fi.qual, ip, outs)
    rep.count("paths", len(outs))
    rep.count("drivers")
    for name, targets, mode in obligations:
        if name not in P:
            continue
        for s, formal in targets:
            evs = [x for x in ip.events if x[0] == s]
            for sink, env, st, e, cf, order in evs:
                rep.count("options handed to a stage")
                v = j.formal(env, formal, P[name], st, order)
                c = False if v is None else carries(ip, st, v, P[name])
                if c is False:
                    j.hit("option-lost", "%s -> %s" % (name, s.split(":")[-1]), "%s calls %s with something other than its %s" % (j.unit, s.split(":")[-1], name), e, cf)
        if mode == "always":
            for st in outs:
                rep.count("paths that must hand an option on")
                if ip.truth(st, P[name]) is False or st.facts.get("joined"):
                    continue
                if not any(st.facts.get(("ev", s)) for s, _ in targets):
                    j.hit("option-lost", "%s unused" % name, "%s returns without handing %s to %s" % (j.unit, name, "/".join(s.split(":")[-1] for s, _ in targets)))
        elif mode == "somewhere" and not any(x[0] == s for s, _ in targets for x in ip.events):
            j.hit("option-lost", "%s unused" % name, "%s hands %s to none of %s" % (j.unit, name, "/".join(s.split(":")[-1] for s, _ in targets)))
    return j


def run(rep):
    rep.rule("option-lost", "an option given to an entry point or driver reaches each stage that honours it, unchanged, on every path that returns")
    rep.rule("cli-option-lost", "a command line option reaches the parameter of the stage it is for")
    rep.rule("large-model", "large_model alone decides whether constants leave the model, and the archive that holds them is then what is saved")
    proj = Project(fixtures=("options",))
    m = proj.mod("tf2onnx.convert")
    for n in ("from_keras", "from_function", "from_graph_def", "from_tflite"):
        if n not in m.functions:
            raise AnalysisBroken("entry point %s is gone" % n)
    for q, fi in sorted(m.functions.items()):
        if q.startswith("from_") and "." not in q:
            entry(rep, proj, fi).report()
    cli(rep, proj).report()
    declared(rep, proj)
    t = proj.mod("tf2onnx.tfonnx")
    P = T + "process_parsed_graph"
    G3 = [(T + "graphs_from_tf", None), ("tf2onnx.tflite_utils:graphs_from_tflite", None), ("tf2onnx.tfjs_utils:graphs_from_tfjs", None)]

    def g3(x):
        return [(s, x) for s, _ in G3]
    stage(rep, proj, t.functions["process_tf_graph"], [], [
        ("target", [(".set_config", 0)], "always"), ("opset", [(".set_config", 1)], "always"), ("extra_opset", [(".set_config", 2)], "always"),
        ("input_names", g3("input_names"), "always"), ("output_names", g3("output_names"), "always"),
        ("shape_override", g3("shape_override"), "always"),
        ("ignore_default", [G3[0][:1] + ("ignore_default",), G3[2][:1] + ("ignore_default",)], "somewhere"),
        ("use_default", [G3[0][:1] + ("use_default",), G3[2][:1] + ("use_default",)], "somewhere"),
        ("const_node_values", [G3[0][:1] + ("const_node_values",)], "somewhere"),
        ("tflite_path", [G3[1][:1] + ("tflite_path",)], "somewhere"), ("tfjs_path", [G3[2][:1] + ("model_path",)], "somewhere"),
        ("tf_graph", [G3[0][:1] + ("tf_graph",)], "somewhere"),
        ("custom_op_handlers", [(P, "custom_op_handlers")], "always"), ("custom_rewriter", [(P, "custom_rewriter")], "always"),
        ("inputs_as_nchw", [(P, "inputs_as_nchw")], "always"), ("outputs_as_nchw", [(P, "outputs_as_nchw")], "always"),
        ("continue_on_error", [(P, "continue_on_error")], "always"), ("initialized_tables", [(P, "initialized_tables")], "always"),
        ("dequantize", [(P, "dequantize")], "always"), ("tensors_to_rename", [(".rename_tensors", 0)], "always")]).report()
    j = stage(rep, proj, t.functions["process_parsed_graph"], [".update", T + "topological_sort", T + "tensorflow_onnx_mapping", T + "run_rewriters"], [
        ("inputs_as_nchw", [(T + "transpose_inputs", "inputs_as_nchw")], "always"), ("outputs_as_nchw", [(T + "transpose_outputs", "outputs_as_nchw")], "always"),
        ("continue_on_error", [(T + "run_rewriters", "continue_on_error"), (T + "topological_sort", "continue_on_error")], "somewhere"),
        ("initialized_tables", [], ""), ("dequantize", [], ""), ("custom_rewriter", [], "")])
    mapping(rep, j)
    j.report()
    for q in ("tensorflow_onnx_mapping", "run_rewriters"):
        nested(rep, proj, t.functions[q], T + q).report()
    gf = t.functions.get("graphs_from_tf")
    if gf is not None:
        X = "tf2onnx.tf_utils:tensorflow_to_onnx"
        stage(rep, proj, gf, [], [(n, [(X, n)], "somewhere") for n in ("shape_override", "const_node_values", "ignore_default", "use_default")] +
              [("shape_override", [("tf2onnx.shape_inference:infer_shape", "shape_override")], "somewhere")]).report()
    # self-tests
    fx = [x for x in proj.modules.values() if "entry_fine" in x.functions][0]
    want = {"entry_fine": set(), "entry_dropped": {"output_path", "output_path -> save", "target -> process_tf_graph"}, "entry_swapped": {"target -> process_tf_graph", "inputs_as_nchw -> process_tf_graph"},
            "entry_sometimes": {"target -> process_tf_graph"}, "entry_changed": {"opset -> process_tf_graph"}}
    from ..report import Report
    for q, w in want.items():
        jj = entry(Quiet(), proj, fx.functions[q])
        got = {k for r, k in jj.bad if r == "option-lost" and k != "output_path" and not k.startswith("output_path")}
        rep.selftest("%s: %s" % (q, sorted(got)), got == {x for x in w if not x.startswith("output_path")})
    jj = nested(Quiet(), proj, fx.functions["nested_dropped"], T + "tensorflow_onnx_mapping")
    rep.selftest("nested_dropped: %s" % sorted(jj.bad), {k.split(" ")[0] for r, k in jj.bad} == {"is_tflite", "dequantize"})
    rep.floor("options handed to a stage", 300)
    rep.floor("paths that must hand an option on", 100)
    rep.floor("command line options", 25)
    rep.assumptions += ["stages are identified by the functions of tfonnx.py, tf_loader.py, optimizer and the Graph methods they call; loaders are not entered"]


class Quiet:
    def count(self, *a, **k):
        pass

    find = rule = count


def mapping(rep, j):
    """what the op mapping and the rewriters of process_parsed_graph get"""
    ip = j.ip
    P = {n: Sym("param", n) for n in ("initialized_tables", "dequantize", "custom_rewriter", "custom_op_handlers", "is_tflite")}
    full, rew = T + "tensorflow_onnx_mapping", T + "run_rewriters"
    n = 0
    for s, env, st, e, cf, order in ip.events:
        if s != full or ip.truth(st, env.get("is_tflite", NONE)) is True:
            continue
        n += 1
        for name in ("initialized_tables", "dequantize"):
            rep.count("options handed to a stage")
            if env.get(name) is not None and carries(ip, st, env[name], P[name]) is False:
                j.hit("option-lost", "%s -> tensorflow_onnx_mapping" % name, "%s converts ops without its %s" % (j.unit, name), e, cf)
    if not n:
        j.hit("option-lost", "tensorflow_onnx_mapping", "%s does not convert ops" % j.unit)
    got = {"custom_rewriter": 0, "custom_op_handlers": 0}
    for s, env, st, e, cf, order in ip.events:
        ts = ts_of(st, env)
        if s == rew and ts & {P["custom_rewriter"], None}:
            got["custom_rewriter"] += 1
        if s in (".update", full) and (ts & {P["custom_op_handlers"], None}):
            got["custom_op_handlers"] += 1
    for k, v in got.items():
        rep.count("options handed to a stage")
        if not v:
            j.hit("option-lost", "%s unused" % k, "%s never uses its %s" % (j.unit, k))


def nested(rep, proj, fi, full):
    """a driver that descends into nested graphs hands them its own options"""
    ps = [a.arg for a in fi.node.args.args]
    P = {x: Sym("param", x) for x in ps}
    ip, outs = run_unit(proj, fi, [P[x] for x in ps], {fi.mod.name}, {full, "()"})
    j = Judge(rep, fi.qual, ip, outs)
    rep.count("paths", len(outs))
    rep.count("drivers")
    n = 0
    for s, env, st, e, cf, order in ip.events:
        if s != full:
            continue
        n += 1
        for name in ps[1:]:
            rep.count("options handed to a stage")
            v = env.get(name)
            if v is not None and carries(ip, st, v, P[name]) is False:
                j.hit("option-lost", "%s of nested graphs" % name, "%s does not use its %s for nested graphs" % (fi.qual, name), e, cf)
    if not n:
        j.hit("option-lost", "nested graphs", "%s does not descend into nested graphs" % fi.qual)
    return j
