"""hunk.py REPO FILE n[,n...]: prints the diff of FILE in REPO with only the given hunks (0-based)"""
import subprocess, sys, re
d = subprocess.run(["git", "-C", sys.argv[1], "diff", "--", sys.argv[2]], capture_output=True, text=True).stdout
head, *hs = re.split(r"(?m)^(?=@@ )", d)
want = [int(x) for x in sys.argv[3].split(",")]
sys.stdout.write(head + "".join(hs[i] for i in want))
