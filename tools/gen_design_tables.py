"""Prints the tables of DESIGN.md that follow from other files: planted bugs and what catches them, known findings, repairs."""
import glob, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def tables():
    out = ["<!-- tables: written by tools/gen_design_tables.py -->", "", "| planted bug | property | what it breaks | caught by |", "|---|---|---|---|"]
    res = json.load(open(R + "/tools/seed_results.json"))
    for d in sorted(glob.glob(R + "/seeded/*/meta.json")):
        i = os.path.basename(os.path.dirname(d))
        m = json.load(open(d))
        c = res.get(i, {}).get("checks") or {m["property"]: "?"}
        c = ", ".join(k for k, v in c.items() if v == 1) or ("not run" if "?" in c.values() else "missed")
        out.append("| %s | %s | %s | %s |" % (i, m["property"], m["what_it_breaks"].replace("|", "/").replace("\n", " "), c))
    k = json.load(open(R + "/known_findings.json"))
    k = k if isinstance(k, list) else sum([v for v in k.values() if isinstance(v, list)], [])
    out += ["", "### Genuine defects repaired (`fix:` commits)", ""]
    out += ["- " + x["line"] for x in k if x["status"] == "fixed"]
    out += ["", "### Genuine defects recorded, not repaired (KNOWN-FINDING)", ""]
    seen = {}
    for x in k:
        if x["status"] == "known":
            seen.setdefault((x["property"], x["what"]), []).append(x["id"])
    out += ["- %s: %s (%s)" % (p, w, "; ".join("`%s`" % i for i in ids)) for (p, w), ids in seen.items()]
    return "\n".join(out) + "\n"


if __name__ == "__main__":
    f = R + "/DESIGN.md"
    s = open(f).read()
    i = s.index("<!-- tables:")
    open(f, "w").write(s[:i] + tables())
