"""claim.py ID < new prop(...) text : replace an entry of prop_list.py (development aid)"""
import sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "prop_list.py")
s = open(p).read()
i = s.index(f'prop("{sys.argv[1]}"')
j = s.find("\nprop(", i)
j = len(s) if j < 0 else j
open(p, "w").write(s[:i] + sys.stdin.read().strip() + s[j:])
