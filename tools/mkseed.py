"""import and call seed(id, prop, [(file, old, new)...], needs, breaks, demo_body)"""
import os, json, subprocess, sys
def seed(i, prop, edits, needs, breaks, demo, run=True):
    d = f"/verif/seeded/{i}"; os.makedirs(d, exist_ok=True)
    for f, o, n in edits:
        p = "/repo/" + f; s = open(p).read()
        assert s.count(o) == 1, (f, o, s.count(o))
        open(p, "w").write(s.replace(o, n))
    open(d + "/patch.diff", "w").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout)
    subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    open(d + "/demo.cc", "w").write('#include "kit.hh"\n' + (demo if "int main" in demo else "int main() {\n" + demo + "\n}\n"))
    if run: subprocess.run(["bash", "/verif/tools/seed.sh", i])
