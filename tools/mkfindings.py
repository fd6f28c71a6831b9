#!/usr/bin/env python3
"""Writes known_findings.txt from the fix commits of /repo (run by hand after a fix). Fixed entries suppress nothing."""
import subprocess
M = """8141fae C05
b5839a6 C05
7fe158d C12
de25b3e C22
a4ca472 C22
b367d78 C01
e183b75 C01
60e52a1 C21
39fde38 C18
fd20ef9 C20
0edf0f1 C15
b660330 C24
66afe98 C18
1169df8 C01
ec9d108 C03
b71d728 C24
f0facb9 C03
81447fe C03
2795ce0 C08
58553ae C17
58ed283 C17
d05744b C18
04dd177 C01
ad47df2 C07
fd84c3c C17
dd6a905 C18
7dad871 C01
5ee1c78 C16
cb3277e C14
f4aa006 C18
3e07df2 C01
944fc7c C06
16fd069 C03
00450db C03
68855be C19
bb24464 C24
c1eea80 C08
714d972 C25
defb938 C02
f49f748 C17
a8d3565 C18
69d03ca C17
12b855a C13
3c2fe06 C08
ab3a960 C07
0a80754 C17
6bb51ce C17
f899f1e C08
2287de3 C01
ff315d6 C08
4336c9b C07
6cda521 C08
48a8363 C14
b393b61 C14
84be013 C17
fe83610 C17
1a56df2 C14
850af6d C01
052b48a C13"""
import sys
prop = dict(l.split() for l in M.splitlines())
try:
    prop.update(dict(l.split() for l in open('/verif/tools/more_fixes.txt').read().splitlines() if l.strip()))
except FileNotFoundError:
    pass
log = subprocess.run(['git','-C','/repo','log','--reverse','--format=%h %s','6c22a16..HEAD'],capture_output=True,text=True).stdout
with open('/verif/known_findings.txt','w') as f:
    f.write("# Genuine defects of lyraproj/puppet-parser found by the checks.\n"
            "# 'fixed:' entries are repaired in /repo by the given commit, and suppress nothing.\n"
            "# 'known: property=<id> match=<text of the report> :: <what fails>' entries would be defects that are not repaired.\n")
    for l in log.splitlines():
        h, s = l.split(' ', 1)
        if not s.startswith('fix:'): continue
        if h not in prop: sys.exit('no property for '+l)
        f.write(f"fixed: property={prop[h]} {h} {s[5:]}\n")
