"""development aid: nat.py FILE.c  - build a program with the real file stack and run it in a scratch directory (kept libstack: /tmp/natstack)"""
import sys, os, subprocess, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from specs.common import *
c = Ctx("NAT", "quick", 1)
ar = fststack(c)
inc = [f"-I{VERIF}/native", "-I" + c.work, f"-I{REPO}/include", f"-I{REPO}/src/PUBLIC_INCLUDES", f"-I{REPO}/src", f"-I{REPO}/src/fstd98"]
d = tempfile.mkdtemp(prefix="nat")
r = subprocess.run(["gcc", "-g", "-w", "-DLittle_Endian"] + inc + ["-c", sys.argv[1], "-o", d + "/m.o"]) or 0
subprocess.run(["gfortran", "-o", d + "/m", d + "/m.o", ar, "-lm", "-lpthread"], check=True)
r = subprocess.run([d + "/m"] + sys.argv[2:], cwd=d, capture_output=True, text=True); print(r.stdout, r.stderr[-3000:], r.returncode)
subprocess.run(["rm", "-rf", d, c.work])
