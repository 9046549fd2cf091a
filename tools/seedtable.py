#!/usr/bin/env python3
"""Applies every planted bug to a scratch worktree of /repo, runs its property's check from a scratch copy of /verif,
and rewrites the table at the end of DESIGN.md.  usage: seedtable.py [tier]"""
import json, os, re, shutil, subprocess, sys, tempfile
tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = tempfile.mkdtemp(prefix="seedtable")
wt, vf = T + "/wt", T + "/verif"
rows, missed = [], 0
try:
    subprocess.run(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", wt], check=True)
    os.makedirs(vf + "/evidence")
    shutil.copytree(V + "/harness", vf + "/harness")
    for f in ("check.sh", "KNOWN_FINDINGS.txt"):
        shutil.copy(V + "/" + f, vf)
    mod = vf + "/harness/go.mod"
    s = open(mod).read()
    open(mod, "w").write(s.replace("=> /repo", "=> " + wt))
    for sid in sorted(os.listdir(V + "/seeded")):
        d = V + "/seeded/" + sid
        m = json.load(open(d + "/meta.json"))
        if subprocess.run(["git", "-C", wt, "apply", d + "/patch.diff"]).returncode:
            rows.append((sid, m["property"], "patch does not apply", ""))
            missed += 1
            continue
        p = subprocess.run([vf + "/check.sh", m["property"], tier], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=dict(os.environ, VERIF_SEED="1"))
        subprocess.run(["git", "-C", wt, "checkout", "-q", "--", "."], check=True)
        hit = p.returncode == 1 and ("VIOLATION property=%s " % m["property"]) in p.stdout
        sig = re.search(r"^# (\S+?)\[\d+\] (\S+?):", p.stdout, re.M)
        rows.append((sid, m["property"], "caught" if hit else "MISSED (exit %d)" % p.returncode, (sig.group(1) + ": " + sig.group(2)) if sig else ""))
        missed += not hit
        print(*rows[-1], flush=True)
finally:
    subprocess.run(["git", "-C", "/repo", "worktree", "remove", "--force", wt])
    shutil.rmtree(T, ignore_errors=True)
text = "<!-- seeds -->\n%d planted bugs, %d caught by the %s tier of their property's check.\n\n| bug | property | result | first monitor that reported it |\n|---|---|---|---|\n" % (len(rows), len(rows) - missed, tier)
text += "".join("| %s | %s | %s | %s |\n" % r for r in rows)
D = V + "/DESIGN.md"
s = open(D).read()
open(D, "w").write(s[:s.index("<!-- seeds -->")] + text)
