#!/usr/bin/env python3
"""Prints a replay file with readable numbers."""
import sys
for l in open(sys.argv[1]):
    t = l.split()
    if l.startswith('#') or not t: print(l.rstrip()[:400]); continue
    o = [t[0]]
    for x in t[1:]:
        try: o.append('%.9g' % float.fromhex(x))
        except ValueError: o.append(x)
    print(' '.join(o))
