#!/usr/bin/env python3
"""Nothing to build: the tools are pre-installed and the code is imported from
/repo. Only verifies that the tools are there."""
import shutil, sys
for t in ('tlc',):
    if not shutil.which(t):
        sys.exit('missing ' + t)
