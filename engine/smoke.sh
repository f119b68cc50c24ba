#!/bin/bash
# developer aid: does the engine follow common std features? Compares with native runs.
cd /verif && python3 - <<'P'
import sys; sys.argv=['check.py','SMOKE']
import check
check.CONFIG['SMOKE']=dict(bin='smoke',reach=['done'],bounds='',outside='')
check.main()
P
