#!/usr/bin/env python3
"""Turn a planted bug into /verif/seeded/<id>/ after confirming it.

    plant.py SPEC.py [--no-tests]

SPEC.py defines: id, property, file, edits [(old, new), ...], demo (source), needs, what.
Confirms in a scratch copy of /repo: the patch applies, the stable tests pass, the demo
exits 0 on the clean copy and non-zero with the patch.  Prints which check catches it.
"""
import json, os, shutil, subprocess, sys, tempfile, runpy, re
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
DEMO_SH = '#!/bin/sh\n# exits 0 when the property holds for the demonstrated case, 1 otherwise\nexec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def main():
    spec = runpy.run_path(sys.argv[1])
    tests = "--no-tests" not in sys.argv
    base = tempfile.mkdtemp(prefix="plant.", dir="/tmp")
    copy = os.path.join(base, "repo")
    try:
        subprocess.check_call(["cp", "-a", "/repo", copy])
        out = os.path.join(base, "seed")
        os.makedirs(out)
        edits = spec["edits"]
        edits = edits if isinstance(edits, dict) else {spec["file"]: edits}
        for f, es in edits.items():
            path = os.path.join(copy, f)
            src = open(path).read()
            for e in es:
                old, new = e[0], e[1]
                count = e[2] if len(e) > 2 else 1
                if src.count(old) != count:
                    print("EDIT does not match: %d occurrences of %r" % (src.count(old), old))
                    return 1
                src = src.replace(old, new)
            open(path, "w").write(src)
        diff = sh(["git", "-C", copy, "diff"]).stdout
        open(os.path.join(out, "patch.diff"), "w").write(diff)
        open(os.path.join(out, "demo.py"), "w").write(spec["demo"].lstrip("\n"))
        open(os.path.join(out, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        for name in spec.get("files", ()):
            shutil.copy(os.path.join(VERIF, name), out)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]},
                  open(os.path.join(out, "meta.json"), "w"), indent=1)
        clean = sh(["sh", out + "/demo.sh"], cwd="/repo", timeout=300)
        bad = sh(["sh", out + "/demo.sh"], cwd=copy, timeout=300)
        print("%s demo: clean %d patched %d" % (spec["id"], clean.returncode, bad.returncode))
        if clean.returncode != 0 or bad.returncode == 0:
            print(clean.stdout[-1500:], bad.stdout[-1500:])
            return 1
        if "VERBOSE" in os.environ:
            print(bad.stdout[-1500:])
        if tests:
            script = open("/opt/vp/test.sh").read()
            script = script.replace("REPORTS=/opt/vp/reports", "REPORTS=%s/reports" % base).replace("PYTHONPATH=/opt/vp/plugin", "PYTHONPATH=%s:/opt/vp/plugin" % copy)
            script = script.replace("/repo", copy)
            open(base + "/test.sh", "w").write(script)
            if not spec.get("jack", False):
                script = script.replace("if [ -e $JACK_TESTS ]", "if false")
                open(base + "/test.sh", "w").write(script)
            r = sh(["bash", base + "/test.sh", base + "/out.json"])
            o = json.load(open(base + "/out.json"))
            passed = set(o["passed"]) if isinstance(o.get("passed"), list) else {k for k, v in o.items() if v in ("passed", True)}
            stable = {t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if spec.get("jack", False) or "test_jack" not in t}
            new = sorted(stable - passed)
            print("tests: %d stable, failing: %s" % (len(stable), new))
            if [t for t in new if "test_correlate_with_single_channel" not in t]:
                return 1
        check = spec["property"]
        env = dict(os.environ, VERIF_REPO=copy)
        hits = []
        for c in [check] + list(spec.get("also", ())):
            try:
                r = sh([os.path.join(VERIF, "check.sh"), c], env=env, cwd=VERIF, timeout=900)
                lines = [l for l in r.stdout.splitlines() if "VIOLATION" in l]
                print("check %s: exit %d %s" % (c, r.returncode, lines[:2] or r.stdout[-300:]))
            except subprocess.TimeoutExpired:
                print("check %s: timeout" % c)
        dest = os.path.join(VERIF, "seeded", spec["id"])
        if os.path.isdir(dest):
            shutil.rmtree(dest)
        shutil.copytree(out, dest)
        return 0
    finally:
        shutil.rmtree(base)


if __name__ == "__main__":
    sys.exit(main())
