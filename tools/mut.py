"""Try a change: mut.py FILE OLD NEW CHECK... (applied to /repo, checks run, undone)."""
import subprocess, sys
f, old, new = sys.argv[1:4]
p = "/repo/" + f
s = open(p).read()
nth = 0
if old.startswith("@"):
    n, old = old[1:].split("@", 1)
    nth = int(n)
assert s.count(old) > nth, f"{s.count(old)} occurrences"
i = -1
for _ in range(nth + 1):
    i = s.index(old, i + 1)
open(p, "w").write(s[:i] + new + s[i + len(old):])
try:
    for c in sys.argv[4:]:
        r = subprocess.run(["/verif/check.sh", c], capture_output=True, text=True)
        out = (r.stdout + r.stderr).splitlines()
        print(c, "exit", r.returncode)
        print("\n".join("  " + x[:260] for x in out if not x.startswith("    "))[:2500])
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
