#!/usr/bin/env python3
"""mkT.py ID  < body : writes spec/T_ID.tla with the common frame (kept in git, this only saves typing)"""
import sys
i = sys.argv[1]
ext = sys.argv[2]
body = sys.stdin.read()
m = ' MODULE T_%s ' % i
pad = (81 - len(m)) // 2
open('/verif/spec/T_%s.tla' % i, 'w').write('-' * pad + m + '-' * (81 - pad - len(m)) + '\n' + body.split('\n\n', 1)[0] + '\nEXTENDS %s, Conform\nVARIABLES k, l, st\n' % ext + body.split('\n\n', 1)[1] + '''TInit == k \\in 1..Len(Cases) /\\ l = 1 /\\ st = Start(Cases[k])
TNext == /\\ l <= Len(Cases[k].ev)
         /\\ LET e == Cases[k].ev[l]
                v == Verdict(st, e)
            IN IF v = "ok" THEN l' = l + 1 /\\ st' = After(st, e)
               ELSE PrintT(<<"BAD", k, l, v>>) /\\ l' = Len(Cases[k].ev) + 2 /\\ st' = st
         /\\ UNCHANGED k
=================================================================================
''')
