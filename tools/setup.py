"""setup_cmd: the analyser is plain Python (standard library only); check the interpreter and the committed oracles"""
import json
import os
import sys
assert sys.version_info >= (3, 10), sys.version
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sorted(os.listdir(os.path.join(root, "oracles"))):
    json.load(open(os.path.join(root, "oracles", f)))
os.makedirs(os.path.join(root, "evidence"), exist_ok=True)
os.makedirs(os.path.join(root, "out"), exist_ok=True)
print("ok")
