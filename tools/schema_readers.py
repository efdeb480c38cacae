"""schema_readers.py schema_py_generated.py: behaviour of the field readers of the TFLite schema, as json (used by gen_oracles.py)"""
import json, os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import readers
from vf.project import Project
d = tempfile.mkdtemp()
try:
    os.makedirs(d + "/oracle_schema")
    open(d + "/oracle_schema/__init__.py", "w").close()
    shutil.copy(sys.argv[1], d + "/oracle_schema/schema.py")
    p = Project(d, ["oracle_schema"])
    out = {}
    for m, c in readers.table_classes(p, "oracle_schema."):
        for f, fi in readers.fields(c):
            out.setdefault(c.node.name, {})[f] = readers.behaviour(p, fi, {m.name})
    print(json.dumps(out, sort_keys=True))
finally:
    shutil.rmtree(d)
