"""Writes properties.jsonl and MANIFEST.json from the table below (a property is claimed when checks/<id>.py exists)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
UT = "PyFHD/pyfhd_tools/pyfhd_utils.py"
P = []
NA = []


def prop(id, title, statement, text, tests, files, mech, over=("inputs",), note="", observe=None):
    P.append((dict(
        id=id, title=title, statement=statement, quantifier={"over": list(over), "text": text}, why_tests_cant=tests,
        anchors={"files": files if isinstance(files, list) else [files], "mechanism": [{"name": n, "where": w} for n, w in mech], **({"observe_at": observe} if observe else {})},
    ), note))


def na(id, reason):
    NA.append({"property": id, "reason": reason})


exec(open(os.path.join(HERE, "tools", "props.py")).read())

PY = "/opt/venv/bin/python run.py"


def main():
    ids = [p["id"] for p, _ in P]
    assert len(ids) == len(set(ids))
    for p, _ in P:
        assert len(p["title"]) <= 80, p["title"]
    P.sort(key=lambda x: x[0]["id"])
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p, _ in P:
            f.write(json.dumps(p) + "\n")
    checks = []
    for p, note in P:
        if not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            assert any(n["property"] == p["id"] for n in NA), p["id"]
            continue
        checks.append({
            "property": p["id"],
            "quick_cmd": f"{PY} {p['id']} --tier quick",
            "thorough_cmd": f"{PY} {p['id']} --tier thorough",
            "technique": "bounded symbolic execution of the real functions (numpy replaced by a symbolic array library), every path's assertion decided by the Z3 SMT solver, counterexamples replayed on the real code",
            "level": "model_checking",
            "level_note": note or "Holds for every value within the array sizes and value ranges listed in the evidence; real arithmetic instead of floating point, larger arrays are outside the bounds.",
        })
    m = {
        "version": 1,
        "setup_cmd": "/opt/venv/bin/python run.py --selftest",
        "checks": checks,
        "not_applicable": NA,
        "notes": "Checks read /repo's working tree directly (nothing is built). known_findings.json lists the genuine defects found: repaired ones as 'fixed', recorded ones as 'known'.",
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


def design():
    import sys

    sys.path[:0] = [HERE, "/repo"]
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    from symnp import spec

    known = json.load(open(os.path.join(HERE, "known_findings.json")))
    o = [open(os.path.join(HERE, "tools", "design_head.md")).read().rstrip(), ""]
    o += ["| change | property | what it breaks | needs |", "|---|---|---|---|"]
    sd = os.path.join(HERE, "seeded")
    for d in sorted(os.listdir(sd)):
        m = json.load(open(os.path.join(sd, d, "meta.json")))
        o.append(f"| {d} | {m['property']} | {m['what_it_breaks']} | {m['needs']} |")
    o += ["", "## Properties and how each is decided", "", "Per property: the harnesses (one symbolic execution per listed case), their oracle in a sentence, the cases of the quick and the thorough tier (thorough runs the quick ones, too), and what is assumed.", ""]
    for p, _ in P:
        if not os.path.exists(os.path.join(HERE, "checks", p["id"] + ".py")):
            continue
        mod, reg = spec.load(p["id"])
        o += [f"### {p['id']} {p['title']}", "", "Code: " + "; ".join(m["where"] for m in p["anchors"]["mechanism"]) + ". For " + p["quantifier"]["text"] + ".", ""]
        for h in reg:
            show = lambda cs: "; ".join(", ".join(f"{k}={v}" for k, v in c.items()) or "one case" for c in cs)  # noqa: E731
            more = [c for c in h.thorough if c not in h.quick]
            o.append(f"* `{h.name}`: {(h.func.__doc__ or '').strip()} — quick: {show(h.quick)}" + (f" — thorough: {show(more)}" if more else "") + f" (at most {h.budget} s each)")
        for a in getattr(mod, "ASSUMPTIONS", []):
            o.append(f"* assumed: {a}")
        fx = [k for k in known if k["property"] == p["id"]]
        if fx:
            o.append("* repaired: " + "; ".join(f"{k['what'].split(' ', 3)[-1]} ({k['commit']})" for k in fx))
        o.append("")
    if NA:
        o += ["## Not applicable", ""] + [f"* {n['property']}: {n['reason']}" for n in NA] + [""]
    o.append(open(os.path.join(HERE, "tools", "design_tail.md")).read().rstrip())
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o) + "\n")


if __name__ == "__main__":
    main()
    design()
