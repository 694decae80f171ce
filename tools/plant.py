"""plant.py SPEC.py...: builds /verif/seeded/<id>/ from specs (variables ID, PROP, FILE, OLD, NEW [or EDITS], NEEDS, BREAKS, DEMO), after confirming in a scratch copy:
the stable tests pass with the change, the demonstration exits 0 without it and nonzero with it; then says whether the property's check catches it (--check).
"""
import json, os, runpy, shutil, subprocess, sys

SCR = "/tmp/plant_repo"
PYX = "/opt/venv/bin/python"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests(root):
    out = "/tmp/plant_tests.xml"
    env = dict(os.environ, PYTHONPATH=root, PYTHONHASHSEED="0", MPLBACKEND="Agg", PYFHD_TEST_PATH="/opt/vp/test_data", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1")
    if os.path.exists(out):
        os.unlink(out)
    sh(f"{PYX} -m pytest tests/test_pyfhd_tools -q -n 4 -p no:cacheprovider --tb=line -W ignore --continue-on-collection-errors -o junit_family=xunit2 --junitxml={out}", cwd=root, env=env)
    import xml.etree.ElementTree as ET
    ok = set()
    for c in ET.parse(out).getroot().iter("testcase"):
        if not list(c):
            ok.add(c.get("classname") + "::" + c.get("name"))
    need = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [n for n in need if n not in ok]


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for spec in args:
        s = runpy.run_path(spec)
        ident, prop = s["ID"], s["PROP"]
        edits = s.get("EDITS") or [(s["FILE"], s["OLD"], s["NEW"])]
        if os.path.exists(SCR):
            shutil.rmtree(SCR)
        assert sh(f"git -C /repo status --porcelain --untracked-files=no").stdout == "", "repo dirty"
        sh(f"git clone -q /repo {SCR}")
        gi = "/repo/PyFHD/PyFHD_gitinfo.txt"
        if os.path.exists(gi):
            shutil.copy(gi, SCR + "/PyFHD/")
        d = f"/verif/seeded/{ident}"
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
        open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
        r0 = sh(f"{d}/demo.sh", cwd=SCR)
        for f, o, n in edits:
            p = f"{SCR}/{f}"
            t = open(p).read()
            assert t.count(o) == 1, (ident, f, t.count(o), o)
            open(p, "w").write(t.replace(o, n))
        diff = sh("git diff", cwd=SCR).stdout
        open(d + "/patch.diff", "w").write(diff)
        base = sh("git -C /repo blame -s HEAD -- " + edits[0][0]).stdout.splitlines()
        orig = any(l[1:].strip() and any(b.split(")", 1)[1].strip() == l[1:].strip() and b.startswith("^a06dda4"[:8]) for b in base) for l in diff.splitlines() if l.startswith("-") and not l.startswith("---"))
        r1 = sh(f"{d}/demo.sh", cwd=SCR)
        bad = [] if "--notest" in sys.argv else tests(SCR)
        okk = r0.returncode == 0 and r1.returncode != 0 and not bad and orig
        print(f"{ident} {prop}: demo clean {r0.returncode}, patched {r1.returncode}, broken tests {bad}, touches original lines {orig} -> {'OK' if okk else 'BAD'}")
        if r0.returncode:
            print(r0.stdout[-600:], r0.stderr[-1500:])
        if r1.returncode:
            print("    ", (r1.stdout + r1.stderr).strip().splitlines()[-1][:200])
        if "--check" in sys.argv:
            try:
                assert sh(f"git -C /repo apply {d}/patch.diff").returncode == 0
                r = sh(f"{PYX} run.py {prop} --tier quick", cwd="/verif", timeout=900)
                v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
                h = [l.strip()[:230] for l in r.stdout.splitlines() if l.startswith("  harness=")][:1]
                print(f"     check exit {r.returncode} {'CAUGHT' if v and r.returncode == 1 else 'MISSED'} {h} | {r.stdout.splitlines()[-1][:160]}")
            finally:
                sh("git -C /repo checkout -- .")
        shutil.rmtree(SCR, ignore_errors=True)


main()
