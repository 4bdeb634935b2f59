#!/usr/bin/env python3
"""setup_cmd: builds govc and warms the Go build cache for the packages under contract."""
import subprocess, sys, os
import check
e = check.env()
check.build_govc(e)
subprocess.run(["go", "test", "-count=1", "-run", "^$", "./..."], cwd=check.REPO, env=e)
