"""mkbug.py ID PROPERTY < spec : writes seeded/ID from a Python spec on stdin defining
EDITS=[(file, old, new)...], DEMO (python text), NEEDS, BREAKS."""
import sys, os, subprocess, json, shutil, tempfile
bid, prop = sys.argv[1:3]
ns = {}
exec(sys.stdin.read(), ns)
d = "/verif/seeded/" + bid
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp(prefix="mkbug.", dir="/tmp")
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call("git -C /repo archive HEAD otpod | tar -x -C %s" % t, shell=True)
subprocess.check_call("cd %s && git init -q . && git add -A && git -c user.email=a@b -c user.name=x commit -qm x" % t, shell=True)
base = subprocess.check_output(["git", "-C", "/repo", "show", "cf7ea98:otpod/_pod.py"])  # the original exists
for f, old, new in ns["EDITS"]:
    p = os.path.join(t, f)
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, "w").write(s.replace(old, new))
diff = subprocess.check_output(["git", "-C", t, "diff"]).decode()
open(d + "/patch.diff", "w").write(diff)
orig = {}
added = 0
for f in {e[0] for e in ns["EDITS"]}:
    o = subprocess.check_output(["git", "-C", "/repo", "show", "cf7ea98:" + f]).decode().splitlines()
    orig[f] = set(o)
for l in diff.splitlines():
    if l.startswith("-") and not l.startswith("---"):
        if not any(l[1:] in o for o in orig.values()):
            print("NOTE: removed line not in the original repository:", l)
open(d + "/demo.py", "w").write(ns["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write("""#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export MPLBACKEND=agg PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1
work=$(mktemp -d) || exit 3
export MPLCONFIGDIR=$work/mpl
cd "$work"
/opt/venv/bin/python "$here/demo.py"
rc=$?
rm -rf "$work"
exit $rc
""")
os.chmod(d + "/demo.sh", 0o755)
json.dump(dict(property=prop, needs=ns["NEEDS"], what_it_breaks=ns["BREAKS"]), open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(t)
print(diff)
