#!/usr/bin/env python3
"""Nothing is kept between runs: every check builds what it needs in its own
scratch directory.  This only verifies that the tools are there."""
import os, subprocess, sys
for f in ("/opt/veriftools/tla/tla2tools.jar", "/opt/veriftools/tla/CommunityModules-deps.jar", "/opt/vp/env.sh"):
    if not os.path.exists(f):
        sys.exit("missing " + f)
subprocess.run(["java", "-version"], check=True, capture_output=True)
print("ok")
