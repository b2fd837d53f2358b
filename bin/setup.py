"""Checks that what the checks need is there. Nothing is built ahead of time: every check generates and
compiles its own crate from /repo's current tree."""
import shutil, subprocess, sys
for t in ('cargo', 'python3'):
    if not shutil.which(t): sys.exit('missing: ' + t)
sys.exit(subprocess.call(['cargo', 'kani', '--version']))
