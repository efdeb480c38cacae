"""seedcheck.py [--tests] [--props C01,C02|all] ID...: validate planted bugs in scratch copies bound over /repo (own mount namespace).
Appends results to seeded/<ID>/../results.json (not read by any check)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RES = os.path.join(ROOT, "tools", "seed_results.json")


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def bound(w, cmd, timeout=900):
    return sh("timeout %d unshare -Urm bash -c 'mount --bind %s /repo && cd /repo && %s'" % (timeout, w, cmd))


def main():
    a = sys.argv[1:]
    tests = "--tests" in a
    props = None
    if "--props" in a:
        i = a.index("--props")
        props = a[i + 1]
        del a[i:i + 2]
    ids = [x for x in a if not x.startswith("-")]
    base = json.load(open("/opt/vp/BASELINE.json"))
    res = json.load(open(RES)) if os.path.exists(RES) else {}
    man = json.load(open(os.path.join(ROOT, "MANIFEST.json")))
    for s in ids:
        d = os.path.join(ROOT, "seeded", s)
        meta = json.load(open(os.path.join(d, "meta.json")))
        w = tempfile.mkdtemp(prefix="seed_", dir="/tmp")
        demo = tempfile.mkdtemp(prefix="demo_", dir="/tmp")
        for f in os.listdir(d):
            if not f.endswith((".diff", ".patch")) and f != "meta.json":
                shutil.copy(os.path.join(d, f), demo)
        sh("cp -a /repo/. %s/" % w)
        r = res.setdefault(s, {})
        r["property"] = meta["property"]
        ok = sh("bash %s/demo.sh" % demo, cwd="/repo")
        r["demo_clean"] = ok.returncode
        if ok.returncode:
            print(s, "DEMO FAILS ON CLEAN TREE\n", ok.stdout[-1500:])
        p = sh("git -C %s apply %s/patch.diff" % (w, d))
        if p.returncode:
            print(s, "PATCH DOES NOT APPLY", p.stdout)
            r["applies"] = False
        else:
            r["applies"] = True
            b = bound(w, "bash /opt/vp/build.sh")
            r["build"] = b.returncode
            bad = bound(w, "bash %s/demo.sh" % demo)
            r["demo_patched"] = bad.returncode
            if bad.returncode == 0 or "-v" in a:
                print(s, "demo patched rc", bad.returncode, bad.stdout[-1500:])
            if tests:
                bound(w, "bash /opt/vp/test.sh %s/out.json" % demo)
                try:
                    o = json.load(open(demo + "/out.json"))
                    passed = set(o["passed"])
                    missing = [t for t in base["stable"] if t not in passed]
                    r["tests_broken"] = missing[:5]
                except Exception as ex:   # noqa
                    r["tests_broken"] = "error %s" % ex
            todo = [meta["property"]] if props is None else (props.split(",") if props != "all" else [c["property"] for c in man["checks"]])
            for c in todo:
                if not os.path.exists(os.path.join(ROOT, "vf", "checks", c.lower() + ".py")):
                    continue
                x = bound(w, "cd /verif && python3 check.py %s" % c)
                viol = [l for l in x.stdout.splitlines() if l.startswith(("VIOLATION", "ANALYSIS", "  construct"))]
                r.setdefault("checks", {})[c] = x.returncode
                print(s, c, "rc", x.returncode, "\n    ".join(viol[:4]) if x.returncode else "", "" if x.returncode in (0, 1) else x.stdout[-800:])
        print(s, {k: v for k, v in r.items()})
        shutil.rmtree(w)
        shutil.rmtree(demo)
        cur = json.load(open(RES)) if os.path.exists(RES) else {}
        cur[s] = r
        json.dump(cur, open(RES, "w"), indent=1, sort_keys=True)


main()
