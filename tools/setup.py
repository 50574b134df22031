"""Checks that what the checks need is present; nothing has to be built."""
import os
import subprocess
import sys
bad = 0
for cmd in (['/opt/venv/bin/python', '-c', 'import ply, jinja2'], ['iverilog', '-V']):
    env = dict(os.environ)
    env['PATH'] = '/opt/venv/bin:/usr/local/bin:/usr/bin:/bin:' + env.get('PATH', '')
    try:
        rc = subprocess.run(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode
    except OSError as e:
        print(e)
        rc = 1
    if rc:
        print('missing:', ' '.join(cmd))
        bad = 1
sys.exit(bad)
