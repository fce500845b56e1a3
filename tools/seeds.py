"""Writes seeded/<id>/ from a table of planted changes: each entry edits one file of a scratch copy."""
import sys, os, json, subprocess, shutil, tempfile, importlib.util

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def make(sid, prop, edits, demo, srcs, needs, breaks, pre="", timeout=None, opt="-O1"):
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for f, old, new in edits:
            p = w + "/r/" + f
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cc", "w").write(demo)
        t = "timeout %d " % timeout if timeout else ""
        open(d + "/demo.sh", "w").write("""#!/bin/bash
# run in /repo after the build
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
g++-14 -std=c++23 %s -I. %s"$here"/demo.cc %s -o "$work"/demo || exit 2
%s"$work"/demo
""" % (opt, pre, " ".join(srcs), t))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        # confirm: passes without, fails with
        a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=w + "/r", capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode not in (0, 2)
        print(sid, "unchanged", a.returncode, "patched", b.returncode, "OK" if ok else "BAD", (a.stderr + b.stdout + b.stderr)[:300].replace("\n", " | "))
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)


def make_with(sid, prop, edits, demo, sh, needs, breaks):
    d = os.path.join(VERIF, "seeded", sid)
    os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix="seed")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", w + "/r"])
    try:
        for f, old, new in edits:
            p = w + "/r/" + f
            s = open(p).read()
            assert s.count(old) == 1, (sid, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", w + "/r", "diff"], text=True)
        open(d + "/patch.diff", "w").write(diff)
        open(d + "/demo.cc", "w").write(demo)
        open(d + "/demo.sh", "w").write(sh)
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
        # confirm: passes without, fails with
        a = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        b = subprocess.run(["bash", d + "/demo.sh"], cwd=w + "/r", capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode not in (0, 2)
        print(sid, "unchanged", a.returncode, "patched", b.returncode, "OK" if ok else "BAD", (a.stderr + b.stdout + b.stderr)[:300].replace("\n", " | "))
    finally:
        subprocess.call(["git", "-C", "/repo", "worktree", "remove", "--force", w + "/r"])
        shutil.rmtree(w, ignore_errors=True)
