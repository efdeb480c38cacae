"""C14: a conversion leaves what the caller hands it as it was."""
import ast

from ..project import Project, is_fixture
from ..effects import Effects
from .c12 import handler_seeds

EXPLANATION = ("Which parameters a function modifies, directly, through the functions it calls or through fields it keeps them in, is computed for the whole program (vf/effects.py). "
               "Every parameter of the conversion functions that may be left modified is reported with the chain of calls; a modification counts as undone only by a finally that "
               "sets the same attribute of the same object and that runs whatever happens after it.")
RULES = {
    "caller-object": "no conversion function leaves an object modified that its caller passed in",
    "caller-object-kept": "no object of the caller ends up in a field that is modified later",
}
ENTRIES = [("tf2onnx.convert", lambda n: n.startswith("from_") or n in ("_from_keras_tf1", "_convert_keras")),
           ("tf2onnx.tfonnx", lambda n: n in ("process_tf_graph",)),
           ("tf2onnx.tf_loader", lambda n: n.startswith("from_") or n in ("tf_optimize", "tf_optimize_grappler", "tf_reload_graph", "resolve_functions", "freeze_session",
                                                                         "remove_redundant_inputs", "inputs_without_resource", "convert_variables_to_constants_large_model"))]
BAD = {"bad_item", "bad_helper", "bad_inner", "bad_element", "bad_in_place", "bad_kept", "bad_not_restored", "bad_late_try", "bad_other_restored", "bad_kwargs", "bad_restored_alias"}


def entries(proj, x):
    out = []
    for s in x.flow.scopes.values():
        fi = s.fi
        if fi is None or not isinstance(s.node, ast.FunctionDef) or s.parent is not None and s.parent.fi is not None:
            continue
        if is_fixture(s.mod):
            if fi.qual.startswith(("bad_", "good_")):
                out.append(s)
            continue
        for m, test in ENTRIES:
            if s.mod.name == m and fi.cls is None and test(fi.qual):
                out.append(s)
    return out


def chain(path):
    return " > ".join("%s line %d" % (s.name(), n.lineno) for s, n, h in path)


def run(rep):
    proj = Project(fixtures=("effects",))
    for r, t in RULES.items():
        rep.rule(r, t)
    x = Effects(proj, seeds=handler_seeds(proj))
    live = x.escaping()
    kept = x.storing()
    touched = {}
    for key, sites in live.items():
        if key[1][0] == "a":
            touched.setdefault(key[1], []).append(key)
    got = set()
    es = entries(proj, x)
    for s in sorted(es, key=lambda s: (s.mod.name, s.name())):
        hits = {}
        for key in live:
            node, r, k, l = key
            if node is s.node and r[0] == "p":
                name = r[1].arg if len(r) == 2 else str(r[2])
                path = x.path(live, key)
                if path:
                    hits.setdefault(("caller-object", name, l or ""), path)
        for (r, k), cells in kept.get(s.node, {}).items():
            if r[0] != "p":
                continue
            name = r[1].arg if len(r) == 2 else str(r[2])
            for c in cells:
                for key in touched.get(c, ()):
                    if key[2] == 0 and k < 0:
                        continue        # the container is modified, which was made here
                    path = x.path(live, key)
                    if path and len(path) == 1:
                        hits.setdefault(("caller-object-kept", name, "%s.%s" % (c[1].split(":")[-1], c[2])), path)
        if is_fixture(s.mod):
            if any(h[1] != "kwargs" for h in hits):
                got.add(s.fi.qual)
            rep.count("fixture functions")
            continue
        rep.count("conversion functions")
        rep.count("parameters", len(s.node.args.args) + len(s.node.args.kwonlyargs))
        for (rule, name, l), path in sorted(hits.items()):
            f, n, how = path[-1]
            rep.find(rule, "%s %s %s %s" % (s.fi.full, name, l, f.name()),
                     "%s: %s is left modified%s: %s %s" % (s.name(), name, " (%s)" % l if l else "", chain(path), how),
                     "%s:%d (%s)" % (f.mod.rel, n.lineno, f.name()))
    mutated = {(node, r) for node, r, k, l in live if r[0] == "p"}
    rep.count("functions that modify a parameter", len({n for n, r in mutated}))
    rep.count("modifications a finally undoes", len(x.undone))
    rep.floor("conversion functions", 15)
    rep.floor("functions that modify a parameter", 40)
    rep.floor("modifications a finally undoes", 4)
    rep.selftest("violations in the fixture are found: missing %s" % sorted(BAD - got), BAD <= got)
    rep.selftest("nothing else in the fixture is: %s" % sorted(got - BAD), not {g for g in got if g.startswith("good_")})
    rep.sample("entries", "conversion functions: " + ", ".join(s.fi.full for s in es if not is_fixture(s.mod)))
    rep.assumptions += ["Library functions do not modify what they are handed, other than through the methods of lists, dicts, sets, protobuf messages and numpy arrays listed in vf/effects.py.",
                        "Custom rewriters and handlers are the caller's own code; what they do to the caller's objects is not looked at.",
                        "A finally that sets the attribute again sets it to what it was (where the object was changed in place, to a copy made outside it)."]
