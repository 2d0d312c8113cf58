#!/usr/bin/env python3
"""mkbug.py <spec.py>: turns bug descriptions into seeded/<id>/ directories (patch.diff, demo.sh, demo.py, meta.json).

The spec file defines BUGS = [dict(id=, property=, needs=, breaks=, file=, edits=[(old, new)], demo=)]; a scratch
worktree of /repo is used and removed.  Each demo is run against the tree with and without the change.
"""
import json
import os
import pathlib
import runpy
import shutil
import subprocess
import sys
import tempfile

ROOT = pathlib.Path(__file__).resolve().parent.parent


def sh(*a, **k):
    env = dict(os.environ, GIT_LFS_SKIP_SMUDGE="1")
    return subprocess.run(a, check=False, text=True, capture_output=True, env=env, **k)


for bug in runpy.run_path(sys.argv[1])["BUGS"]:
    if len(sys.argv) > 2 and bug["id"] not in sys.argv[2:]:
        continue
    work = pathlib.Path(tempfile.mkdtemp(prefix="bug-"))
    wt = work / "repo"
    try:
        sh("git", "clone", "-q", "/repo", str(wt))
        for file, old, new in bug["edits"]:
            p = wt / file
            s = p.read_text()
            assert s.count(old) == 1, (bug["id"], file, s.count(old), old)
            p.write_text(s.replace(old, new))
        diff = sh("git", "-C", str(wt), "diff").stdout
        out = ROOT / "seeded" / bug["id"]
        out.mkdir(parents=True, exist_ok=True)
        (out / "patch.diff").write_text(diff)
        (out / "demo.py").write_text(bug["demo"].lstrip("\n"))
        (out / "demo.sh").write_text(
            '#!/bin/bash\n# run with cwd = repository root\nexport PYTHONDONTWRITEBYTECODE=1\n'
            'exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"\n'
        )
        (out / "demo.sh").chmod(0o755)
        (out / "meta.json").write_text(
            json.dumps({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, indent=1) + "\n"
        )
        assert sh("git", "-C", "/repo", "status", "--porcelain").stdout == ""
        good = sh("bash", str(out / "demo.sh"), cwd="/repo")
        sh("git", "-C", "/repo", "apply", str(out / "patch.diff"))
        try:
            bad = sh("bash", str(out / "demo.sh"), cwd="/repo")
            build = sh("bash", "/opt/vp/build.sh")
            chk = sh("bash", str(ROOT / "check.sh"), bug["property"], "quick", cwd=str(ROOT)) if "--nocheck" not in sys.argv else None
        finally:
            sh("git", "-C", "/repo", "checkout", "--", ".")
        last = (bad.stderr.strip().splitlines() or ["?"])[-1]
        print(bug["id"], bug["property"], "demo good", good.returncode, "bad", bad.returncode, "build", build.returncode,
              "check", chk.returncode if chk else "-", "|", last[:150])
        if good.returncode != 0:
            print(good.stderr[-2000:])
        if chk and chk.returncode != 1:
            print("   MISSED:", chk.stdout[-300:], chk.stderr[-1500:])
    finally:
        shutil.rmtree(work, ignore_errors=True)
