#!/usr/bin/env python3
# Nothing is built ahead of time: every check compiles what it needs from /repo. Verifies the tools are present.
import shutil, sys, subprocess
missing=[t for t in ('clang++-18','opt-18','python3-vt') if not shutil.which(t)]
if missing: print('missing tools:', missing); sys.exit(1)
sys.exit(subprocess.call(['python3-vt','-c','import z3; print("z3", z3.get_version_string())']))
