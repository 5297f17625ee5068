"""Rebuilds the compiled extensions of /repo from its working tree (into git-ignored files only)."""
import fcntl
import subprocess
import sys

ROOT = '/repo'


def build():
    with open('/tmp/.vcheck-build.lock', 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        p = subprocess.run([sys.executable, '/opt/vp/build_ext.py'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True)
    return p.returncode, p.stdout
