#!/usr/bin/env python3
"""mkseed.py <id> <property> <file> <old> <new> <needs> <breaks>  (demo.cpp/demo.sh written separately): patch.diff by string replacement on /repo"""
import sys, subprocess, json, os
i, prop, f, old, new, needs, breaks = sys.argv[1:8]
d = '/verif/seeded/' + i; os.makedirs(d, exist_ok=True)
p = '/repo/' + f; s = open(p).read()
assert s.count(old) == 1, s.count(old)
open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
