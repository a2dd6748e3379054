"""development aid: dbg.py SPEC FUNC REGEX  - run one obligation group of a spec and show the trace of the failed obligation whose name matches REGEX"""
import sys, os, re, subprocess, importlib, glob
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vp.core import *
m = importlib.import_module("specs." + sys.argv[1])
c = Ctx("DBG", "quick", 1)
getattr(m, sys.argv[2])(c)
for o in c.obs:
    if o.status != "proved":
        print(o.status, o.name, "" if o.status == "failed" else o.detail[:300])
if len(sys.argv) > 3:
    for g in glob.glob(c.work + "/*.gb"):
        cmd = [x for x in c.cmds if x][-1].split()
        base = ["cbmc", g] + cmd[1:]
        out = subprocess.run(base, capture_output=True, text=True).stdout
        for p, d in re.findall(r"^\[([^\]]+)\] (?:line \d+ |file \S+ line \d+ |)(.*): FAILURE$", out, re.M):
            if re.search(sys.argv[3], d) and not d.startswith("reach"):
                o = subprocess.run(base + ["--property", p, "--trace", "--compact-trace"], capture_output=True, text=True).stdout
                open("/tmp/trace.txt", "w").write(o)
                print(p, d); sys.exit()
