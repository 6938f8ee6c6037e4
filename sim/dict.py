#!/usr/bin/env python3
"""Numbers and short strings that occur in the library's source: a dictionary for the generators."""
import re, sys, glob
nums, strs = set(), set()
for f in sorted(glob.glob(sys.argv[1] + '/*.[ch]')):
    s = open(f, errors='replace').read()
    s = re.sub(r'/\*.*?\*/', ' ', s, flags=re.S)
    s = re.sub(r'//[^\n]*', ' ', s)
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', s):
        t = m.group(1)
        if 1 <= len(t) <= 24 and '\\' not in t and t.isascii() and t.isprintable():
            strs.add(t)
    s = re.sub(r'"(?:[^"\\\n]|\\.)*"', ' ', s)
    for m in re.finditer(r'\b(0[xX][0-9a-fA-F]+|\d+)[uUlL]*\b', s):
        try:
            v = int(m.group(1), 0)
        except ValueError:
            v = int(m.group(1), 10)
        if 2 <= v <= 20000:
            nums.add(v)
for v in sorted(nums): print('n', v)
for t in sorted(strs): print('s', t)
