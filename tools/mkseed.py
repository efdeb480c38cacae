"""mkseed.py ID PROPERTY FILE: reads a python-style edit script on stdin:
   <<<OLD text ===NEW text >>>END   (repeatable, 'FILE: path' switches file); then DEMO: shell/python follows; NEEDS:/BREAKS: lines"""
import json
import os
import shutil
import subprocess
import sys
import tempfile


def make(id_, prop, edits, demo, needs, breaks, extra=None):
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    d = os.path.join(root, "seeded", id_)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(dir="/tmp", prefix="mk_")
    subprocess.check_call("git clone -q /repo %s/r" % w, shell=True)
    for f, old, new in edits:
        p = os.path.join(w, "r", f)
        s = open(p).read()
        assert s.count(old) == 1, (id_, f, s.count(old))
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.check_output("git -C %s/r diff" % w, shell=True, text=True)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.py"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write("""#!/bin/bash
export TF_CPP_MIN_LOG_LEVEL=3 TF_USE_LEGACY_KERAS=1 CUDA_VISIBLE_DEVICES="" PYTHONDONTWRITEBYTECODE=1
D=$(cd "$(dirname "$0")" && pwd)
S=$(mktemp -d)
trap 'rm -rf "$S"' EXIT
export TMPDIR=$S
cd "$S" && exec /opt/venv/bin/python "$D/demo.py"
""")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    for k, v in (extra or {}).items():
        open(os.path.join(d, k), "w").write(v)
    shutil.rmtree(w)
