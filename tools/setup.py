#!/usr/bin/env python3
"""setup_cmd: checks that what the checks need is installed (nothing is built ahead: every check builds from /repo)."""
import os
import subprocess
import sys
need = ['/opt/veriftools/tla/tla2tools.jar', '/opt/veriftools/tla/CommunityModules-deps.jar', '/opt/vp/venv/bin/python']
for n in need:
    if not os.path.exists(n):
        sys.exit('missing: ' + n)
subprocess.check_call(['java', '-version'], stderr=subprocess.DEVNULL)
subprocess.check_call(['gcc', '--version'], stdout=subprocess.DEVNULL)
print('ok')
