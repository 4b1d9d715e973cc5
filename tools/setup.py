#!/usr/bin/env python3
"""Nothing to install: checks that the tools are there."""
import shutil, sys
missing = [t for t in ("verus", "cargo") if not shutil.which(t) and not shutil.which(t, path="/root/.cargo/bin")]
if missing:
    print("missing tools:", missing); sys.exit(1)
