#!/usr/bin/env python3
"""writes the 'fixed' entries of known_findings.txt from the fix commits in /repo (never run by a check)"""
import subprocess, re
PROP = {'size of string array': 'C04', 'truncated strings': 'C03', 'delta packing panics': 'C07', 'cross zero': 'C07', 'minimum value of the variable': 'C02',
 'out of range variable': 'C02', 'externs and bytes whose': 'C02', 'lengths of 2^32': 'C02', 'sizes of extern': 'C04', 'sizes of out of range': 'C02',
 'sizes of packed bit': 'C04', 'sizes of bit fields': 'C04', 'unknown union': 'C03', 'unions in packed': 'C08', 'choices with a default': 'C10',
 'choices accept selector': 'C10', 'optional fields keep': 'C18', 'packed arrays of strings': 'C07', 'named like rust keywords': 'C16',
 'expressions are evaluated': 'C13', 'functions of unions': 'C13', 'optional extern': 'C16', 'the default case': 'C10', 'more than 64 bits': 'C03',
 'imports of a single': 'C14', 'sub-packages': 'C16', 'alignments of 256': 'C09',
 'mention bytes or extern': 'C13', 'template instances share': 'C15', 'nested instances are confused': 'C15',
 'depends on comparing booleans': 'C12',
 'expressions without a value panic': 'C03',
 'calculations mixing integer operations': 'C13',
 'items of bitmasks and enums in constant': 'C12',
 'fields absent in the decoded data': 'C18',
 'expressions with optional fields': 'C13'}
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', 'c473dbe..HEAD'], capture_output=True, text=True).stdout
f = '/verif/known_findings.txt'
try:
    keep = [l for l in open(f) if not l.startswith('fixed:')]
except FileNotFoundError:
    keep = ['# fixed: a defect repaired in /repo (suppresses nothing).  known: a defect recorded, not repaired, identified by key=.\n']
out = []
for l in log.splitlines():
    h, m = re.match(r'(\w+) fix: (.*)', l).groups()
    ps = [p for k, p in PROP.items() if k in m]
    assert ps, m
    out.append('fixed: property=%s %s %s\n' % (ps[0], h, m))
open(f, 'w').write(''.join(keep + out))
