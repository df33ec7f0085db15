"""origlines.py: for each planted bug, how many of the lines it removes come from the original repository."""
import glob, json, os, re, subprocess
blame = {}
def orig(f, n):
    if f not in blame:
        out = subprocess.check_output(["git", "-C", "/repo", "blame", "-l", "-s", "HEAD", "--", f], text=True).splitlines()
        anc = set(subprocess.check_output(["git", "-C", "/repo", "rev-list", "c1c692b"], text=True).split())
        blame[f] = [l.split()[0].lstrip("^") in anc or l.startswith("^") for l in out]
    return blame[f][n - 1]
for p in sorted(glob.glob("/verif/seeded/*/patch.diff")):
    f, a = None, 0
    rem = own = add = 0
    for l in open(p):
        if l.startswith("--- "): f = l.split()[1][2:]
        elif l.startswith("+++ ") or l.startswith("diff") or l.startswith("index"): pass
        elif l.startswith("@@"):
            a = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            if orig(f, a): rem += 1
            else: own += 1
            a += 1
        elif l.startswith("+"): add += 1
        else: a += 1
    flag = "" if rem else ("INSERT-ONLY" if not own else "FIX-LINES-ONLY")
    if flag: print("%-30s removed-original=%d removed-own=%d added=%d %s" % (os.path.basename(os.path.dirname(p)), rem, own, add, flag))
