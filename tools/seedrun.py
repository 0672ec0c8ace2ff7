"""developer tool: applies each planted bug to /repo, runs the check of its property (or the ones given), undoes it"""
import json, os, re, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
pat = re.compile(sys.argv[1] if len(sys.argv) > 1 else ".")
for d in sorted(os.listdir(V + "/seeded")):
    if not pat.search(d):
        continue
    pid = json.load(open("%s/seeded/%s/meta.json" % (V, d)))["property"]
    for p in (sys.argv[2:] or [pid]):
        a = subprocess.run(["git", "-C", "/repo", "apply", "%s/seeded/%s/patch.diff" % (V, d)], capture_output=True, text=True)
        if a.returncode:
            print(d, "does not apply", a.stderr)
            continue
        t = time.time()
        try:
            r = subprocess.run(["python3", V + "/tools/check.py", p, "quick"], capture_output=True, text=True)
        finally:
            subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
        vio = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
        fo = [l for l in r.stdout.split("\n") if l.startswith(("FAILED", "BOUNDED"))]
        print("%-24s %s exit %d %5.0fs %s | %s" % (d, p, r.returncode, time.time() - t, vio[0].split(" ", 2)[2][-45:] if vio else "-", "; ".join(f[:150] for f in fo)), flush=True)
