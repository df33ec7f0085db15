"""Prints the planted-bug table of DESIGN.md section 6."""
import json, os, glob
for f in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(f))
    print("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/").strip()[:150]))
