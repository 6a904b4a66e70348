#!/usr/bin/env python3
"""Plants the bugs of seeds_src.py in a scratch copy of /repo, confirms them and writes /verif/seeded/<id>/.

usage: plant.py [--check] [ID ...]     (--check also runs the property's quick check against the planted copy)
A bug is kept only if: the patch applies, removes only lines of the original repository, the 77 stable tests pass, and the
demo exits 0 without and nonzero with it.
"""
import json, os, pathlib, shutil, subprocess, sys

VERIF = pathlib.Path(__file__).resolve().parent.parent
sys.path.insert(0, str(VERIF / "tools"))
from seeds_src import SEEDS, PRELUDE

REPO = pathlib.Path("/repo")
BASE = "5a35122"
PY = "/opt/venv/bin/python"
STABLE = set(json.load(open("/opt/vp/BASELINE.json")).get("stable_passing", [])) if True else set()


def sh(cmd, **k):
    return subprocess.run(cmd, shell=isinstance(cmd, str), capture_output=True, text=True, **k)


def tests_ok(repo):
    r = sh([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo,
           env={**os.environ, "PYTHONPATH": str(repo), "PYTHONDONTWRITEBYTECODE": "1"}, timeout=300)
    return r.returncode == 0, r.stdout[-1500:]


def demo(d, repo):
    r = sh(["bash", str(d / "demo.sh")], cwd=repo, env={**os.environ, "PYTHONPATH": str(repo), "PYTHONDONTWRITEBYTECODE": "1"},
           timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-600:]


def original_lines(path):
    out = sh(["git", "-C", str(REPO), "blame", "-s", "--abbrev=7", path]).stdout.splitlines()
    return [l.startswith("^") for l in out]


def plant(sid, s, do_check):
    scratch = pathlib.Path(f"/tmp/plant_{sid}")
    shutil.rmtree(scratch, ignore_errors=True)
    sh(["cp", "-a", str(REPO), str(scratch)])
    try:
        for f, old, new in s["edits"]:
            p = scratch / f
            t = p.read_text()
            if t.count(old) != 1:
                return f"edit of {f}: old text found {t.count(old)} times"
            p.write_text(t.replace(old, new))
        diff = sh(["git", "-C", str(scratch), "diff"]).stdout
        # only original lines removed
        cur, ln, orig, removed = None, 0, None, 0
        for l in diff.splitlines():
            if l.startswith("--- a/"):
                cur = l[6:]; orig = original_lines(cur)
            elif l.startswith("@@"):
                ln = int(l.split()[1].split(",")[0][1:])
            elif l.startswith("-") and not l.startswith("---"):
                removed += 1
                if not orig[ln - 1]:
                    return f"removes a line of a fix commit: {cur}:{ln} {l}"
                ln += 1
            elif l.startswith(" "):
                ln += 1
        if not removed:
            return "changes no original line"
        d = VERIF / "seeded" / sid
        shutil.rmtree(d, ignore_errors=True)
        d.mkdir(parents=True)
        (d / "patch.diff").write_text(diff)
        (d / "demo.py").write_text(PRELUDE + s["demo"].strip("\n") + "\n")
        (d / "demo.sh").write_text('#!/bin/bash\n# exit 0 on the unchanged tree, nonzero with the patch; run with cwd /repo\n'
                                   'here="$(cd "$(dirname "$0")" && pwd)"\n'
                                   'export PYTHONPATH="$PWD${PYTHONPATH:+:$PYTHONPATH}" PYTHONDONTWRITEBYTECODE=1\n'
                                   'exec timeout 120 /opt/venv/bin/python "$here/demo.py"\n')
        (d / "meta.json").write_text(json.dumps({"property": s["property"], "needs": s["needs"],
                                                 "what_it_breaks": s["what"]}, indent=1) + "\n")
        c, o = demo(d, REPO)
        if c != 0:
            shutil.rmtree(d); return f"demo fails on the unchanged tree: {o}"
        c, o = demo(d, scratch)
        if c == 0:
            shutil.rmtree(d); return "demo passes with the patch"
        if c == 124:
            o += " (demo timed out)"
        ok, t = tests_ok(scratch)
        if not ok:
            shutil.rmtree(d); return f"the existing tests notice it: {t}"
        msg = f"planted; demo: {o.strip().splitlines()[-1][:100] if o.strip() else c}"
        if do_check:
            r = sh([str(VERIF / "check"), s["property"]], env={**os.environ, "VERIF_REPO": str(scratch)}, cwd=VERIF)
            cj = VERIF / "tools/design/caught.json"
            res = json.loads(cj.read_text()) if cj.exists() else {}
            res[sid] = s["property"] if r.returncode == 1 else "missed"
            cj.write_text(json.dumps(dict(sorted(res.items())), indent=1) + "\n")
            line = [l for l in r.stdout.splitlines() if l][:1]
            msg += f"\n    check {s['property']}: exit {r.returncode} {'CAUGHT' if r.returncode == 1 else '**MISSED**'} {line}"
        return msg
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    for sid, s in SEEDS.items():
        if args and sid not in args:
            continue
        print(f"{sid} [{s['property']}]: {plant(sid, s, '--check' in sys.argv)}", flush=True)
