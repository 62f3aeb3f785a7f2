"""mk.py ID PROPERTY NEEDS BREAKS  (edits on stdin: FILE\n<<<\nold\n===\nnew\n>>>)"""
import sys, os, subprocess, json, re, shutil
id, prop, needs, breaks = sys.argv[1:5]
d = "/verif/seeded/" + id
os.makedirs(d, exist_ok=True)
s = sys.stdin.read()
for f, old, new in re.findall(r"(\S+)\n<<<\n(.*?)\n===\n(.*?)\n>>>", s, re.S):
    p = "/repo/" + f
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old), old)
    open(p, "w").write(t.replace(old, new))
diff = subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True, text=True).stdout
subprocess.run(["git", "-C", "/repo", "checkout", "-q", "--", "."])
assert diff
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/demo/mini.py", d + "/mini.py")
open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
os.chmod(d + "/demo.sh", 0o755)
print(diff)
