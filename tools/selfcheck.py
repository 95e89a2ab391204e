#!/usr/bin/env python3
"""setup_cmd: verifies that the tools the checks need are present (nothing is built ahead:
every check builds from /repo's current tree)."""
import shutil, subprocess, sys
missing = [t for t in ("gcc", "ld", "ar", "nm", "objcopy", "guile", "git", "bash", "hex2", "M1") if not shutil.which(t)]
if missing:
    print("missing tools:", missing)
    sys.exit(1)
print("ok")
