"""Authoring aid: rewrites decimal literals (1.5, -3.2e-5) of a draft into exact d(n, k) calls."""
import re, sys
from decimal import Decimal
def conv(m):
    v = Decimal(m.group(0))
    sign, digits, exp = v.as_tuple()
    n = int(''.join(map(str, digits)))
    while n and n % 10 == 0 and exp < 0:
        n //= 10; exp += 1
    if n == 0: return '0'
    if exp >= 0: return f'i({n * 10**exp})'
    return f'd({n}, {-exp})'
for line in open(sys.argv[1]):
    if '//' in line:
        code, c = line.split('//', 1); c = '//' + c
    else: code, c = line, ''
    sys.stdout.write(re.sub(r'(?<![\w."/])\d+\.\d+(?:[eE][-+]?\d+)?', conv, code) + c)
