"""mut.py SPECFILE [NAME...]: SPECFILE defines M = [(name, file, old, new, "C12 C03"), ...]; each mutation is applied in a
private copy of /repo (a mount namespace) and the named checks are run; prints caught / missed.  No test is run."""
import os, subprocess, sys, tempfile, shutil
SHOW = os.environ.get("SHOW")
ns = {}
exec(open(sys.argv[1]).read(), ns)
only = sys.argv[2:]
for name, f, old, new, checks in ns["M"]:
    if only and name not in only:
        continue
    w = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    subprocess.check_call("cp -a /repo %s/repo && cp -a /verif %s/verif && rm -rf %s/verif/.git" % (w, w, w), shell=True)
    p = os.path.join(w, "repo", f)
    s = open(p).read()
    if s.count(old) < 1:
        print(name, "NOT APPLICABLE", s.count(old)); continue
    open(p, "w").write(s.replace(old, new))
    for c in checks.split():
        sh = 'mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd /verif && ./check.sh %s' % (w, w, c)
        r = subprocess.run(["unshare", "-Urm", "bash", "-c", sh], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        lines = [l for l in r.stdout.splitlines() if l and not l.startswith("seed")]
        if SHOW: print(r.stdout[-3000:])
        print("%-28s %s %s | %s" % (name, c, {0: "missed", 1: "CAUGHT"}.get(r.returncode, "rc=%d" % r.returncode), (lines[0] if lines else "")[:230]), flush=True)
    shutil.rmtree(w)
