#!/usr/bin/env python3
"""tools/claim.py ID check.py: marks a property as claimed in table.py"""
import re, subprocess, sys
f = '/verif/tools/table.py'
s = open(f).read()
i = s.index("p('%s'," % sys.argv[1])
j = s.find("\np('", i + 1)
j = len(s) if j < 0 else j
b = s[i:j]
if 'check=' not in b:
    k = b.rindex(')')
    b = b[:k] + ", check='%s'" % sys.argv[2] + b[k:]
    s = s[:i] + b + s[j:]
    open(f, 'w').write(s)
subprocess.run(['python3', '/verif/tools/props.py'])
